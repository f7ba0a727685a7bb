// What the harnesses of the multi-threaded backend share: a network, its inputs and what a backend did with them.
#pragma once
#include <knp/backends/cpu-multi-threaded/backend.h>
#include "backend_common.h"
#include <algorithm>
#include <map>
using MT = Opened<knp::backends::multi_threaded_cpu::MultiThreadedCPUBackend>;
using Resource = st::SynapticResourceSTDPDeltaSynapse;
using Delta = st::DeltaSynapse;
// The result of one step: messages by sender, and what is left of order is removed.
struct Step {
  std::vector<SpikeMessage> spikes;
  std::vector<SynapticImpactMessage> impacts;
};
static bool impact_less(const SynapticImpact &a, const SynapticImpact &b) {
  return std::make_tuple(a.connection_index_, a.presynaptic_neuron_index_, a.postsynaptic_neuron_index_) < std::make_tuple(b.connection_index_, b.presynaptic_neuron_index_, b.postsynaptic_neuron_index_);
}
template <class Message> static void by_sender(std::vector<Message> &v) {
  std::stable_sort(v.begin(), v.end(), [](const Message &a, const Message &b) { return memcmp(a.header_.sender_uid_.tag.data, b.header_.sender_uid_.tag.data, 16) < 0; });
}
template <class Neuron, class Synapse> struct Model {
  std::vector<knp::core::Population<Neuron>> pops;
  std::vector<knp::core::Projection<Synapse>> projs;
  std::vector<std::pair<size_t, UID>> inputs;  // projection and external sender
};
struct Result {
  std::vector<Step> steps;
};
template <class B, class Neuron, class Synapse> struct Runner {
  B b;
  const Model<Neuron, Synapse> &model;
  Spy spy;
  template <class... A> explicit Runner(const Model<Neuron, Synapse> &m, A... a) : b(a...), model(m), spy(b) {
    b.load_populations(std::vector<typename B::PopulationVariants>(m.pops.begin(), m.pops.end()));
    b.load_projections(std::vector<typename B::ProjectionVariants>(m.projs.begin(), m.projs.end()));
    b._init();
    for (auto &i : m.inputs) b.template subscribe<SpikeMessage>(m.projs[i.first].get_uid(), {i.second});
    for (auto &p : m.pops) spy.watch<SpikeMessage>(p.get_uid());
    for (auto &p : m.projs) spy.watch<SynapticImpactMessage>(p.get_uid());
  }
  Step step(const std::vector<SpikeMessage> &in) {
    for (auto &m : in) spy.ep.send_message(m);
    b._step();
    Step r;
    spy.ep.receive_all_messages();
    r.spikes = spy.ep.unload_messages<SpikeMessage>(spy.me);
    r.impacts = spy.ep.unload_messages<SynapticImpactMessage>(spy.me);
    by_sender(r.spikes);
    by_sender(r.impacts);
    for (auto &m : r.spikes) std::sort(m.neuron_indexes_.begin(), m.neuron_indexes_.end());
    for (auto &m : r.impacts) std::stable_sort(m.impacts_.begin(), m.impacts_.end(), impact_less);
    return r;
  }
  template <class F> void each_pop(F f) const {
    auto data = b.get_network_data();
    size_t n = 0;
    for (auto &i = *data.population_range.first; i != *data.population_range.second; ++i, n++) { auto v = *i; f(n, std::get<knp::core::Population<Neuron>>(v)); }
    ks::check(n == model.pops.size(), "no population is lost");
  }
  template <class F> void each_proj(F f) const {
    auto data = b.get_network_data();
    size_t n = 0;
    for (auto &i = *data.projection_range.first; i != *data.projection_range.second; ++i, n++) { auto v = *i; f(n, std::get<knp::core::Projection<Synapse>>(v)); }
    ks::check(n == model.projs.size(), "no projection is lost");
  }
};
static void same_step(const Step &a, const Step &b) {
  ks::check(a.spikes.size() == b.spikes.size(), "the same populations spike");
  for (size_t i = 0; i < a.spikes.size() && i < b.spikes.size(); i++) {
    const auto &x = a.spikes[i], &y = b.spikes[i];
    ks::check(ueq(x.header_.sender_uid_, y.header_.sender_uid_), "the same populations spike");
    ks::check(x.header_.send_time_ == y.header_.send_time_, "spikes are stamped with the same step");
    ks::check(x.neuron_indexes_.size() == y.neuron_indexes_.size(), "the same number of neurons spike");
    for (size_t k = 0; k < x.neuron_indexes_.size() && k < y.neuron_indexes_.size(); k++) ks::check(x.neuron_indexes_[k] == y.neuron_indexes_[k], "the same neurons spike");
    ks::reach("spikes");
  }
  ks::check(a.impacts.size() == b.impacts.size(), "the same projections send impacts");
  for (size_t i = 0; i < a.impacts.size() && i < b.impacts.size(); i++) {
    const auto &x = a.impacts[i], &y = b.impacts[i];
    ks::check(ueq(x.header_.sender_uid_, y.header_.sender_uid_), "the same projections send impacts");
    ks::check(x.header_.send_time_ == y.header_.send_time_, "impacts are stamped with the same step");
    ks::check(ueq(x.presynaptic_population_uid_, y.presynaptic_population_uid_), "impacts name the same presynaptic population");
    ks::check(ueq(x.postsynaptic_population_uid_, y.postsynaptic_population_uid_), "impacts name the same postsynaptic population");
    ks::check(x.is_forcing_ == y.is_forcing_, "impacts are forcing in both or in none");
    ks::check(x.impacts_.size() == y.impacts_.size(), "the same number of impacts");
    for (size_t k = 0; k < x.impacts_.size() && k < y.impacts_.size(); k++) {
      const auto &p = x.impacts_[k], &q = y.impacts_[k];
      ks::check(p.connection_index_ == q.connection_index_, "the same synapses send impacts");
      ks::check(ks::same(p.impact_value_, q.impact_value_), "impacts have the same values");
      ks::check(p.synapse_type_ == q.synapse_type_, "impacts have the same types");
      ks::check((p.presynaptic_neuron_index_ == q.presynaptic_neuron_index_) & (p.postsynaptic_neuron_index_ == q.postsynaptic_neuron_index_), "impacts join the same neurons");
    }
    ks::reach("impacts");
  }
}
template <class N> static void same_neuron(const N &x, const N &y) {
  ks::check(ks::same(x.potential_, y.potential_), "neurons have the same potential");
  if constexpr (!std::is_same_v<N, nt::neuron_parameters<nt::LIFNeuron>>) {
    ks::check(x.n_time_steps_since_last_firing_ == y.n_time_steps_since_last_firing_, "neurons have the same time since their last spike");
    ks::check(ks::same(x.dynamic_threshold_, y.dynamic_threshold_) & ks::same(x.postsynaptic_trace_, y.postsynaptic_trace_), "neurons have the same dynamic threshold and trace");
    ks::check(ks::same(x.inhibitory_conductance_, y.inhibitory_conductance_) & ks::same(x.dopamine_value_, y.dopamine_value_), "neurons have the same conductance and dopamine");
    ks::check((x.total_blocking_period_ == y.total_blocking_period_) & (x.bursting_phase_ == y.bursting_phase_), "neurons have the same blocking period and bursting phase");
  } else ks::check(x.refract_counter_ == y.refract_counter_, "neurons have the same refractory counter");
  if constexpr (std::is_same_v<N, nt::neuron_parameters<nt::SynapticResourceSTDPBLIFATNeuron>>) {
    ks::check(ks::same(x.free_synaptic_resource_, y.free_synaptic_resource_) & ks::same(x.stability_, y.stability_), "neurons have the same free resource and stability");
    ks::check((x.isi_status_ == y.isi_status_) & (x.last_step_ == y.last_step_) & (x.first_isi_spike_ == y.first_isi_spike_) & (x.is_being_forced_ == y.is_being_forced_), "neurons have the same interspike state");
  }
}
template <class A, class B> static void same_state(const A &a, const B &b) {
  a.each_pop([&](size_t i, const auto &x) { b.each_pop([&](size_t j, const auto &y) {
    if (i != j) return;
    ks::check(x.size() == y.size(), "populations keep their size");
    for (size_t k = 0; k < x.size() && k < y.size(); k++) same_neuron(x[k], y[k]);
  }); });
  a.each_proj([&](size_t i, const auto &x) { b.each_proj([&](size_t j, const auto &y) {
    if (i != j) return;
    ks::check(x.size() == y.size(), "projections keep their size");
    for (size_t k = 0; k < x.size() && k < y.size(); k++) {
      const auto &s = std::get<0>(x[k]), &t = std::get<0>(y[k]);
      ks::check(ks::same(s.weight_, t.weight_), "synapses have the same weight");
      if constexpr (std::is_same_v<std::decay_t<decltype(s)>, st::synapse_parameters<Resource>>)
        ks::check(ks::same(s.rule_.synaptic_resource_, t.rule_.synaptic_resource_) & (s.rule_.last_spike_step_ == t.rule_.last_spike_step_), "synapses have the same resource and last spike");
    }
  }); });
}
static const OT types[] = {OT::EXCITATORY, OT::DOPAMINE, OT::INHIBITORY_CURRENT, OT::INHIBITORY_CONDUCTANCE, OT::BLOCKING};
template <class N> static nt::neuron_parameters<N> symbolic_neuron() {
  nt::neuron_parameters<N> n;
  n.activation_threshold_ = ks::finite("threshold");
  return n;
}
// One synapse per neuron, everything symbolic: external -> A -> B, two external senders.
template <class N, class S> static Model<N, S> chain(size_t size, size_t max_delay, bool training) {
  Model<N, S> m;
  for (unsigned p = 0; p < 2; p++) m.pops.emplace_back(mkuid(1 + p), [](size_t) { return symbolic_neuron<N>(); }, size);
  for (unsigned p = 0; p < 2; p++) {
    m.projs.emplace_back(mkuid(10 + p), p ? mkuid(1) : UID(false), mkuid(1 + p), [&](size_t i) {
      st::synapse_parameters<S> s;
      s.weight_ = ks::finite("weight");
      s.delay_ = 1 + ks::choose(max_delay, "delay");
      s.output_type_ = p ? OT::EXCITATORY : types[ks::choose(std::is_same_v<N, nt::LIFNeuron> ? 1 : 5, "type")];
      if constexpr (std::is_same_v<S, Resource>) s.rule_.synaptic_resource_ = ks::finite("resource");
      return std::make_tuple(s, i, i);
    }, size);
    if (training) m.projs.back().unlock_weights(); else m.projs.back().lock_weights();
  }
  m.inputs = {{0, mkuid(30)}, {0, mkuid(31)}};
  return m;
}
// All neurons of two populations joined; sums of the weights are exact.
template <class N, class S> static Model<N, S> dense(size_t size, size_t max_delay, bool training) {
  Model<N, S> m;
  for (unsigned p = 0; p < 2; p++) m.pops.emplace_back(mkuid(1 + p), [p](size_t i) {
    nt::neuron_parameters<N> n;
    n.potential_ = 0;
    n.activation_threshold_ = knpsym_param(10) ? ks::finite("threshold") : 4.F + i + p;
    if constexpr (std::is_same_v<N, nt::SynapticResourceSTDPBLIFATNeuron>) { n.free_synaptic_resource_ = 1; n.synaptic_resource_threshold_ = 0.5F; n.isi_max_ = 1; }
    return n;
  }, size);
  for (unsigned p = 0; p < 3; p++) {
    m.projs.emplace_back(mkuid(10 + p), p ? mkuid(p) : UID(false), p == 2 ? mkuid(1) : mkuid(1 + p), [&](size_t i) {
      st::synapse_parameters<S> s;
      s.weight_ = float(2 + i + 4 * p);
      s.delay_ = 1 + (p == 1 ? i % max_delay : ks::choose(max_delay, "delay"));
      s.output_type_ = p == 2 && i % 2 ? OT::INHIBITORY_CURRENT : OT::EXCITATORY;
      if constexpr (std::is_same_v<N, nt::LIFNeuron>) s.output_type_ = OT::EXCITATORY;
      if constexpr (std::is_same_v<S, Resource>) { s.rule_.synaptic_resource_ = float(1 + i); s.rule_.w_min_ = 0; s.rule_.w_max_ = 16; s.rule_.dopamine_plasticity_period_ = 2; }
      return std::make_tuple(s, i / size, i % size);
    }, p == 2 ? size : size * size);
    if (training) m.projs.back().unlock_weights(); else m.projs.back().lock_weights();
  }
  m.inputs = {{0, mkuid(30)}, {0, mkuid(31)}};
  return m;
}
// Spikes of the external senders for one step: any set of neurons from the first, any from the second, one of them perhaps twice.
static std::vector<SpikeMessage> any_input(size_t size, size_t step, size_t senders) {
  std::vector<SpikeMessage> r;
  for (unsigned s = 0; s < senders; s++) {
    const size_t mask = ks::choose(1u << size, "spikes");
    if (!mask) continue;
    SpikeMessage m{{mkuid(30 + s), step}, {}};
    for (unsigned i = 0; i < size; i++) if (mask >> i & 1) m.neuron_indexes_.push_back(i);
    if (mask & 1 && s && ks::choose(2, "twice")) m.neuron_indexes_.push_back(0);
    r.push_back(m);
  }
  return r;
}

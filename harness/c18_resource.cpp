// C18: one training step of a population with the synaptic resource rule.
// params: 0 neuron kind (0 BLIFAT, 1 AltAI-LIF), 1 neurons, 2 projections, 3 synapses of every projection, 4 mode (0 rule, 1 weight bounds)
#include <knp/backends/cpu-library/populations.h>
#include "knpsym.h"
#include <cmath>
#include <vector>
namespace nt = knp::neuron_traits;
namespace st = knp::synapse_traits;
using knp::core::UID;
using S = st::SynapticResourceSTDPDeltaSynapse;
using SP = st::synapse_parameters<S>;
using Proj = knp::core::Projection<S>;
using I = nt::ISIPeriodType;
static UID mk(unsigned k) {
  std::array<uint8_t, 16> d{};
  for (int i = 0; i < 16; i++) d[i] = k * 29 + i * 7 + 1;
  return UID(d);
}
static float formula(const SP &p) {
  const float s = p.rule_.synaptic_resource_ < 0 ? 0 : p.rule_.synaptic_resource_, d = p.rule_.w_max_ - p.rule_.w_min_;
  if (d + s == 0) return p.rule_.w_min_;
  return p.rule_.w_min_ + d * s / (d + s);
}
static float half_to(float stability) { float f = static_cast<float>(std::pow(2, -stability)); return std::min(f, 1.F); }
template <class N> struct Model {
  using NP = nt::neuron_parameters<N>;
  std::vector<NP> neurons;
  std::vector<std::vector<SP>> syn;     // by projection
  std::vector<Proj> *order;             // which synapses a neuron has, by lookup
  std::vector<bool> either_first;       // the start of the spiking period is not prescribed
  std::vector<SP *> of(size_t n) {
    std::vector<SP *> r;
    for (size_t p = 0; p < order->size(); p++) for (size_t i : (*order)[p].find_synapses(n, Proj::Search::by_postsynaptic)) r.push_back(&syn[p][i]);
    return r;
  }
  void spike(size_t n, uint64_t step) {
    NP &x = neurons[n];
    auto all = of(n);
    x.last_spike_step_ = step;
    if (x.is_being_forced_) x.isi_status_ = I::is_forced;
    else {
      const uint64_t gap = step - x.last_step_;
      switch (x.isi_status_) {
        case I::period_started:
          if (gap < x.isi_max_) x.isi_status_ = I::period_continued;
          else either_first[n] = true;
          break;
        case I::period_continued:
          if (gap >= x.isi_max_ || x.dopamine_value_ != 0) { x.isi_status_ = I::period_started; x.first_isi_spike_ = step; }
          break;
        default: x.isi_status_ = I::period_started; x.first_isi_spike_ = step;
      }
      x.last_step_ = step;
    }
    if (x.isi_status_ == I::period_started) x.stability_ -= x.stability_change_at_isi_;
    x.additional_threshold_ = 0;
    for (SP *s : all) {
      x.additional_threshold_ += s->weight_ * (s->weight_ > 0);
      const uint64_t arrived = s->rule_.last_spike_step_ + s->delay_ - 1;
      const bool took_part = (step - s->rule_.dopamine_plasticity_period_ <= arrived) & (arrived <= step);
      if (x.isi_status_ != I::period_continued) { s->rule_.has_contributed_ = took_part; s->rule_.had_hebbian_update_ = false; }
      else s->rule_.has_contributed_ = s->rule_.has_contributed_ | took_part;
    }
    x.additional_threshold_ *= x.synapse_sum_threshold_coefficient_;
    for (SP *s : all) {
      if (x.isi_status_ != I::is_forced) {
        s->rule_.synaptic_resource_ -= s->rule_.d_u_;
        x.free_synaptic_resource_ += s->rule_.d_u_;
        if (s->rule_.has_contributed_ && !s->rule_.had_hebbian_update_) {
          const float d = x.d_h_ * half_to(x.stability_);
          s->rule_.synaptic_resource_ += d;
          x.free_synaptic_resource_ -= d;
          s->rule_.had_hebbian_update_ = true;
          ks::reach("hebbian");
        }
      }
      s->weight_ = formula(*s);
    }
  }
  void dopamine(size_t n, uint64_t step, uint64_t first) {
    NP &x = neurons[n];
    if (!(x.dopamine_value_ > 0.0 || (x.dopamine_value_ < 0.0 && x.isi_status_ != I::is_forced))) return;
    auto all = of(n);
    for (SP *s : all) {
      if (step - x.last_spike_step_ <= x.dopamine_plasticity_time_ && s->rule_.has_contributed_) {
        const float d = x.dopamine_value_ * half_to(x.stability_);
        s->rule_.synaptic_resource_ += d;
        x.free_synaptic_resource_ -= d;
        ks::reach("dopamine");
      }
    }
    if (x.is_being_forced_ || x.dopamine_value_ < 0) {
      x.stability_ -= x.dopamine_value_ * x.stability_change_parameter_;
      x.stability_ = std::max(x.stability_, 0.0F);
    } else {
      const double difference = std::fabs(static_cast<double>(step - first) - x.isi_max_);
      x.stability_ += x.stability_change_parameter_ * x.dopamine_value_ * std::max(2.0 - difference / x.isi_max_, -1.0);
    }
    for (SP *s : all) s->weight_ = formula(*s);
  }
  void renormalize(size_t n, uint64_t step) {
    NP &x = neurons[n];
    if (step - x.last_step_ <= x.isi_max_ && x.isi_status_ != I::is_forced) return;
    if (std::fabs(x.free_synaptic_resource_) < x.synaptic_resource_threshold_) return;
    auto all = of(n);
    const float part = x.free_synaptic_resource_ / (all.size() + x.resource_drain_coefficient_);
    for (SP *s : all) { s->rule_.synaptic_resource_ += part; s->weight_ = formula(*s); }
    x.free_synaptic_resource_ = 0;
    ks::reach("renormalized");
  }
};
template <class N> void rule() {
  using NP = nt::neuron_parameters<N>;
  const size_t nn = knpsym_param(1), np = knpsym_param(2), ns = knpsym_param(3);
  const uint64_t step = ks::range(200, 455, "step");
  std::vector<NP> start(nn);
  for (auto &x : start) {
    x.stability_ = ks::finite("stability");
    x.stability_change_parameter_ = ks::finite("stability_change_parameter");
    x.stability_change_at_isi_ = ks::finite("stability_change_at_isi");
    x.free_synaptic_resource_ = ks::finite("free_resource");
    x.synaptic_resource_threshold_ = ks::finite("resource_threshold");
    x.synapse_sum_threshold_coefficient_ = ks::finite("sum_coefficient");
    x.d_h_ = ks::finite("hebbian");
    x.dopamine_value_ = ks::finite("dopamine");
    x.dopamine_plasticity_time_ = ks::range(0, 255, "dopamine_time");
    x.isi_max_ = ks::range(1, 64, "isi_max");
    x.resource_drain_coefficient_ = ks::range(0, 3, "drain");
    x.is_being_forced_ = ks::sym<bool>("forced");
    x.isi_status_ = I(ks::choose(4, "status"));
    // a history that can have happened
    x.last_spike_step_ = step - ks::range(1, 127, "since_spike");
    x.last_step_ = x.last_spike_step_ - ks::range(0, 15, "since_unforced");
    x.first_isi_spike_ = x.last_step_ - ks::range(0, 15, "since_first");
  }
  knp::core::Population<N> pop(mk(1), [&](size_t i) { return start[i]; }, nn);
  std::vector<Proj> projs;
  Model<N> m;
  for (size_t p = 0; p < np; p++) {
    std::vector<Proj::Synapse> all;
    m.syn.emplace_back();
    for (size_t i = 0; i < ns; i++) {
      SP s;
      s.weight_ = ks::finite("weight");
      s.delay_ = 1 + ks::range(0, 3, "delay");
      s.rule_.synaptic_resource_ = ks::finite("resource");
      s.rule_.w_min_ = ks::finite("w_min");
      s.rule_.w_max_ = ks::finite("w_max");
      s.rule_.d_u_ = i ? 0 : ks::finite("d_u");
      s.rule_.dopamine_plasticity_period_ = ks::range(0, 63, "period");
      s.rule_.last_spike_step_ = step - ks::range(0, 127, "since_input");
      s.rule_.had_hebbian_update_ = ks::sym<bool>("had_hebbian");
      s.rule_.has_contributed_ = ks::sym<bool>("contributed");
      m.syn[p].push_back(s);
      all.emplace_back(s, i, nn > 1 ? ks::choose(nn, "target") : 0);
    }
    projs.emplace_back(mk(10 + p), mk(2), mk(1), [&](size_t i) { return all[i]; }, ns);
  }
  std::vector<Proj> before = projs;
  m.neurons = start;
  m.order = &before;
  m.either_first.assign(nn, false);
  knp::core::messaging::SpikeMessage msg{{mk(1), step}, {}};
  for (unsigned n = 0; n < nn; n++) if (ks::choose(2, "spiked")) msg.neuron_indexes_.push_back(n);
  std::vector<std::reference_wrapper<Proj>> refs(projs.begin(), projs.end());
  knp::backends::cpu::populations::train_population(pop, refs, msg, step);
  for (auto n : msg.neuron_indexes_) m.spike(n, step);
  for (size_t n = 0; n < nn; n++) {
    if (m.either_first[n]) {
      ks::check((pop[n].first_isi_spike_ == start[n].first_isi_spike_) | (pop[n].first_isi_spike_ == step), "the start of the spiking period is its own or the current step");
      m.neurons[n].first_isi_spike_ = pop[n].first_isi_spike_;
    }
    m.dopamine(n, step, m.neurons[n].first_isi_spike_);
  }
  for (size_t n = 0; n < nn; n++) m.renormalize(n, step);
  for (size_t n = 0; n < nn; n++) {
    const NP &a = pop[n], &b = m.neurons[n];
    ks::check(a.isi_status_ == b.isi_status_, "spiking period status");
    ks::check((a.last_step_ == b.last_step_) & (a.last_spike_step_ == b.last_spike_step_) & (a.first_isi_spike_ == b.first_isi_spike_), "spike times of the neuron");
    ks::check(ks::same(a.stability_, b.stability_), "stability");
    ks::check(ks::same(a.free_synaptic_resource_, b.free_synaptic_resource_), "free resource takes exactly what synapses gave and gives what they took");
    ks::check(ks::same(a.additional_threshold_, b.additional_threshold_), "threshold addition is the sum of positive weights times the coefficient");
  }
  for (size_t p = 0; p < np; p++) {
    ks::check(projs[p].size() == ns, "no synapse is added or removed");
    for (size_t i = 0; i < ns; i++) {
      const auto &a = std::get<0>(projs[p][i]);
      const SP &b = m.syn[p][i];
      ks::check(ks::same(a.rule_.synaptic_resource_, b.rule_.synaptic_resource_), "resource of the synapse follows the rule");
      ks::check(ks::same(a.weight_, b.weight_), "weight of the synapse is the function of its resource, or unchanged when it took no part");
      ks::check((a.rule_.has_contributed_ == b.rule_.has_contributed_) & (a.rule_.had_hebbian_update_ == b.rule_.had_hebbian_update_), "participation marks of the synapse");
      ks::check((a.delay_ == b.delay_) & (a.rule_.last_spike_step_ == b.rule_.last_spike_step_) & ks::same(a.rule_.w_min_, b.rule_.w_min_) & ks::same(a.rule_.w_max_, b.rule_.w_max_), "parameters of the synapse are unchanged");
      ks::check((std::get<1>(projs[p][i]) == std::get<1>(before[p][i])) & (std::get<2>(projs[p][i]) == std::get<2>(before[p][i])), "ends of the synapse are unchanged");
    }
  }
  ks::reach("trained");
}
// Weights that are recalculated lie between their limits and grow with the resource. Resources are multiples of 1/4.
template <class N> void bounds() {
  using NP = nt::neuron_parameters<N>;
  static const float los[] = {-2, 0, 1.5}, ds[] = {0, 0.25, 1, 2, 1024};
  const float lo = los[ks::choose(3, "w_min")], d = ds[ks::choose(5, "w_range")];
  const int q1 = int(ks::range(0, 31, "resource1")) - 8;
  const float r1 = float(q1) / 4, r2 = float(q1 + int(ks::range(0, 31, "resource_step"))) / 4;
  SP s[2];
  for (auto &x : s) { x.rule_.w_min_ = lo; x.rule_.w_max_ = lo + d; x.rule_.d_u_ = 0; x.rule_.last_spike_step_ = 0; x.rule_.dopamine_plasticity_period_ = 1; }
  s[0].rule_.synaptic_resource_ = r1;
  s[1].rule_.synaptic_resource_ = r2;
  knp::core::Population<N> pop(mk(1), [&](size_t) { NP p; p.dopamine_value_ = 0; p.isi_max_ = 10; return p; }, 1);
  std::vector<Proj> projs;
  projs.emplace_back(mk(10), mk(2), mk(1), [&](size_t i) { return std::make_tuple(s[i], i, size_t(0)); }, 2);
  knp::core::messaging::SpikeMessage msg{{mk(1), 100}, {0}};
  std::vector<std::reference_wrapper<Proj>> refs(projs.begin(), projs.end());
  knp::backends::cpu::populations::train_population(pop, refs, msg, 100);
  const float w1 = std::get<0>(projs[0][0]).weight_, w2 = std::get<0>(projs[0][1]).weight_;
  ks::check(w1 >= lo && w1 <= lo + d, "the weight lies between its limits");
  ks::check(w1 <= w2, "the weight grows with the resource");
  if (r1 <= 0) ks::check(w1 == lo, "without resource the weight is the smallest");
  ks::reach("bounds");
}
extern "C" void knp_harness() {
  const bool altai = knpsym_param(0);
  if (knpsym_param(4)) {
    ks::expect("bounds");
    if (altai) bounds<nt::SynapticResourceSTDPAltAILIFNeuron>(); else bounds<nt::SynapticResourceSTDPBLIFATNeuron>();
  } else {
    ks::expect("trained");
    ks::expect("hebbian");
    ks::expect("dopamine");
    ks::expect("renormalized");
    if (altai) rule<nt::SynapticResourceSTDPAltAILIFNeuron>(); else rule<nt::SynapticResourceSTDPBLIFATNeuron>();
  }
}

// C33: population creators and neuron generators.
// params: 0 neurons, 1 neuron type (0 BLIFAT, 1 LIF, 2 AltAI, 3 STDP BLIFAT, 4 STDP AltAI)
#include "knpsym.h"
#include <knp/core/population.h>
#include <knp/framework/population/creators.h>
#include <knp/neuron-traits/all_traits.h>
#include <cstring>
#include <deque>
namespace nt = knp::neuron_traits;
namespace cr = knp::framework::population::creators;
namespace gen = knp::framework::population::neurons_generators;
// calls f with the same field of two neurons, for every field
template <class F> static void each(nt::neuron_parameters<nt::LIFNeuron> &a, nt::neuron_parameters<nt::LIFNeuron> &b, F f) {
  f(a.potential_, b.potential_); f(a.potential_reset_value_, b.potential_reset_value_); f(a.activation_threshold_, b.activation_threshold_);
  f(a.leak_coefficient_, b.leak_coefficient_); f(a.refract_counter_, b.refract_counter_); f(a.refract_period_, b.refract_period_);
}
template <class F> static void each(nt::neuron_parameters<nt::AltAILIF> &a, nt::neuron_parameters<nt::AltAILIF> &b, F f) {
  f(a.is_diff_, b.is_diff_); f(a.is_reset_, b.is_reset_); f(a.leak_rev_, b.leak_rev_); f(a.saturate_, b.saturate_); f(a.do_not_save_, b.do_not_save_);
  f(a.potential_, b.potential_); f(a.pre_impact_potential_, b.pre_impact_potential_); f(a.activation_threshold_, b.activation_threshold_);
  f(a.negative_activation_threshold_, b.negative_activation_threshold_); f(a.potential_leak_, b.potential_leak_); f(a.potential_reset_value_, b.potential_reset_value_);
  f(a.dopamine_value_, b.dopamine_value_); f(a.additional_threshold_, b.additional_threshold_); f(a.activity_time_, b.activity_time_);
}
template <class F> static void each(nt::neuron_parameters<nt::BLIFATNeuron> &a, nt::neuron_parameters<nt::BLIFATNeuron> &b, F f) {
  f(a.n_time_steps_since_last_firing_, b.n_time_steps_since_last_firing_); f(a.activation_threshold_, b.activation_threshold_);
  f(a.additional_threshold_, b.additional_threshold_); f(a.dynamic_threshold_, b.dynamic_threshold_); f(a.threshold_decay_, b.threshold_decay_);
  f(a.threshold_increment_, b.threshold_increment_); f(a.postsynaptic_trace_, b.postsynaptic_trace_); f(a.postsynaptic_trace_decay_, b.postsynaptic_trace_decay_);
  f(a.postsynaptic_trace_increment_, b.postsynaptic_trace_increment_); f(a.inhibitory_conductance_, b.inhibitory_conductance_);
  f(a.inhibitory_conductance_decay_, b.inhibitory_conductance_decay_); f(a.potential_, b.potential_); f(a.pre_impact_potential_, b.pre_impact_potential_);
  f(a.potential_decay_, b.potential_decay_); f(a.bursting_phase_, b.bursting_phase_); f(a.bursting_period_, b.bursting_period_); f(a.reflexive_weight_, b.reflexive_weight_);
  f(a.reversal_inhibitory_potential_, b.reversal_inhibitory_potential_); f(a.absolute_refractory_period_, b.absolute_refractory_period_);
  f(a.potential_reset_value_, b.potential_reset_value_); f(a.min_potential_, b.min_potential_); f(a.total_blocking_period_, b.total_blocking_period_);
  f(a.dopamine_value_, b.dopamine_value_); f(a.stochastic_stimulation_, b.stochastic_stimulation_); f(a.random_number_generator_state_, b.random_number_generator_state_);
}
template <class T, class F> static void each(nt::neuron_parameters<nt::SynapticResourceSTDPNeuron<T>> &a, nt::neuron_parameters<nt::SynapticResourceSTDPNeuron<T>> &b, F f) {
  each(static_cast<nt::neuron_parameters<T> &>(a), static_cast<nt::neuron_parameters<T> &>(b), f);
  f(a.synapse_sum_threshold_coefficient_, b.synapse_sum_threshold_coefficient_); f(a.dopamine_plasticity_time_, b.dopamine_plasticity_time_);
  f(a.free_synaptic_resource_, b.free_synaptic_resource_); f(a.synaptic_resource_threshold_, b.synaptic_resource_threshold_);
  f(a.resource_drain_coefficient_, b.resource_drain_coefficient_); f(a.stability_, b.stability_); f(a.stability_change_parameter_, b.stability_change_parameter_);
  f(a.stability_change_at_isi_, b.stability_change_at_isi_); f(a.isi_max_, b.isi_max_); f(a.d_h_, b.d_h_); f(a.last_step_, b.last_step_);
  f(a.last_spike_step_, b.last_spike_step_); f(a.first_isi_spike_, b.first_isi_spike_); f(a.is_being_forced_, b.is_being_forced_);
  ks::check(a.isi_status_ == b.isi_status_, "the state of the ISI period is kept");
}
template <class P> static void fill(P &p) {
  each(p, p, [](auto &x, auto &) {
    using T = std::decay_t<decltype(x)>;
    if constexpr (std::is_same_v<T, bool>) x = ks::range(0, 1, "flag");
    else x = ks::sym<T>("field");
  });
}
template <class P> static void same(const P &a, const P &b, const char *what) {
  bool equal = true;
  each(const_cast<P &>(a), const_cast<P &>(b), [&](auto &x, auto &y) { equal &= memcmp(&x, &y, sizeof x) == 0; });
  ks::check(equal, what);
}
template <class N> static void run() {
  using P = typename knp::core::Population<N>::NeuronParameters;
  const unsigned n = ks::range(0, knpsym_param(0), "neurons");
  const P standard;
  switch (ks::choose(7, "creator")) {
    case 0: {
      std::vector<P> source(n);
      for (auto &p : source) fill(p);
      const auto kept = source;
      auto pop = cr::from_container<N, std::vector>(source);
      ks::check(pop.size() == n, "a population of a container has its size");
      if (n) fill(source[0]);  // what happens to the container later does not matter
      for (unsigned i = 0; i < n && i < pop.size(); i++) same(pop.get_neuron_parameters(i), kept[i], "a neuron is the element of the container at its index");
      break;
    }
    case 1: {
      std::deque<P> source(n);
      for (auto &p : source) fill(p);
      auto pop = cr::from_container<N, std::deque>(source);
      ks::check(pop.size() == n, "a population of a container has its size");
      for (unsigned i = 0; i < n && i < pop.size(); i++) same(pop.get_neuron_parameters(i), source[i], "a neuron is the element of the container at its index");
      break;
    }
    case 2: {
      auto pop = cr::make_default<N>(n);
      ks::check(pop.size() == n, "a population has the requested size");
      for (unsigned i = 0; i < n && i < pop.size(); i++) same(pop.get_neuron_parameters(i), standard, "a default neuron has the default parameters");
      break;
    }
    case 3: {
      P source;
      fill(source);
      const P kept = source;
      auto pop = cr::make_clone<N>(n, source);
      ks::check(pop.size() == n, "a population has the requested size");
      fill(source);
      for (unsigned i = 0; i < n && i < pop.size(); i++) same(pop.get_neuron_parameters(i), kept, "a clone has the parameters of its source");
      break;
    }
    case 4: {
      auto pop = cr::make_random<N>(n);
      ks::check(pop.size() == n, "a population has the requested size");
      break;
    }
    case 5: {  // generators that outlive what they were made of, at any index
      auto make = [] {
        P source;
        fill(source);
        return std::make_pair(source, gen::make_clone<N>(source));
      };
      auto [source, g] = make();
      auto r = g(ks::sym<size_t>("index"));
      ks::check(r.has_value(), "a clone generator gives a neuron at every index");
      if (r) same(*r, source, "a clone generator gives its source");
      auto d = gen::make_default<N>()(ks::sym<size_t>("index"));
      ks::check(d.has_value(), "a default generator gives a neuron at every index");
      if (d) same(*d, standard, "a default generator gives a default neuron");
      gen::MakeRandom<N> random;
      (void)random(ks::sym<size_t>("index"));
      break;
    }
    case 6: {  // a population takes the neurons its generator gives
      std::vector<P> source(n);
      std::vector<bool> given(n);
      size_t count = 0;
      for (unsigned i = 0; i < n; i++) { fill(source[i]); given[i] = ks::choose(2, "given"); count += given[i]; }
      knp::core::Population<N> pop([&](size_t i) -> std::optional<P> {
        ks::check(i < n, "a generator is asked for indexes below the size");
        if (i >= n || !given[i]) return std::nullopt;
        return source[i]; }, n);
      ks::check(pop.size() == count, "a population has the neurons its generator gives");
      size_t at = 0;
      for (unsigned i = 0; i < n; i++) if (given[i] && at < pop.size()) same(pop.get_neuron_parameters(at++), source[i], "neurons are in the order of the indexes");
      break;
    }
  }
  ks::reach("end");
}
extern "C" void knp_harness() {
  ks::expect("end");
  switch (knpsym_param(1)) {
    case 0: return run<nt::BLIFATNeuron>();
    case 1: return run<nt::LIFNeuron>();
    case 2: return run<nt::AltAILIF>();
    case 3: return run<nt::SynapticResourceSTDPBLIFATNeuron>();
    default: return run<nt::SynapticResourceSTDPAltAILIFNeuron>();
  }
}

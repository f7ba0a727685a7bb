// C11: one or more steps of BLIFAT neurons from any state under any impacts.
// params: 0 neurons, 1 most impacts per step, 2 steps, 3 kind (0 BLIFAT, 1 resource STDP BLIFAT), 4 focus (0 everything, 1 impacts simple), 5 1: the step counter starts near a boundary
#include "backend_common.h"
#include <limits>
using Base = nt::neuron_parameters<nt::BLIFATNeuron>;
static Base any() {
  Base p;
  const bool few = knpsym_param(4) != 0;
  p.potential_ = ks::sym<double>("potential");
  p.potential_decay_ = ks::sym<double>("decay");
  p.activation_threshold_ = ks::sym<double>("threshold");
  p.potential_reset_value_ = ks::sym<double>("reset");
  p.n_time_steps_since_last_firing_ = ks::sym<uint64_t>("since");
  p.absolute_refractory_period_ = ks::sym<uint32_t>("refractory");
  p.pre_impact_potential_ = ks::sym<double>("pre");
  if (few) return p;
  p.additional_threshold_ = ks::sym<double>("additional");
  p.dynamic_threshold_ = ks::sym<double>("dynamic");
  p.threshold_decay_ = ks::sym<double>("threshold_decay");
  p.threshold_increment_ = ks::sym<double>("threshold_increment");
  p.postsynaptic_trace_ = ks::sym<double>("trace");
  p.postsynaptic_trace_decay_ = ks::sym<double>("trace_decay");
  p.postsynaptic_trace_increment_ = ks::sym<double>("trace_increment");
  p.inhibitory_conductance_ = ks::sym<double>("conductance");
  p.inhibitory_conductance_decay_ = ks::sym<double>("conductance_decay");
  p.reversal_inhibitory_potential_ = ks::sym<double>("reversal");
  p.bursting_phase_ = ks::sym<uint32_t>("phase");
  p.bursting_period_ = ks::sym<uint32_t>("period");
  p.reflexive_weight_ = ks::sym<double>("reflexive");
  p.min_potential_ = ks::sym<double>("min");
  p.total_blocking_period_ = ks::sym<int64_t>("blocking");
  p.dopamine_value_ = ks::sym<double>("dopamine");
  return p;
}
static void pre(Base &p, bool stdp) {
  if (p.n_time_steps_since_last_firing_ != std::numeric_limits<size_t>::max()) p.n_time_steps_since_last_firing_++;  // the largest value means "never"
  p.dynamic_threshold_ *= p.threshold_decay_;
  p.postsynaptic_trace_ *= p.postsynaptic_trace_decay_;
  p.inhibitory_conductance_ *= p.inhibitory_conductance_decay_;
  p.potential_ *= p.potential_decay_;
  if (p.bursting_phase_ > 0) {  // counts down to the burst
    p.bursting_phase_--;
    if (p.bursting_phase_ == 0) p.potential_ += p.reflexive_weight_;
  }
  if (stdp) p.dopamine_value_ = 0;
  p.pre_impact_potential_ = p.potential_;
}
static void impact(Base &p, const SynapticImpact &x) {
  switch (x.synapse_type_) {
    case OT::EXCITATORY: p.potential_ += x.impact_value_; break;
    case OT::INHIBITORY_CURRENT: p.potential_ -= x.impact_value_; break;
    case OT::INHIBITORY_CONDUCTANCE: p.inhibitory_conductance_ += x.impact_value_; break;
    case OT::DOPAMINE: p.dopamine_value_ += x.impact_value_; break;
    default: p.total_blocking_period_ = (int64_t)x.impact_value_; break;
  }
}
static bool post(Base &p) {
  if (p.total_blocking_period_ <= 0) p.potential_ = p.pre_impact_potential_;
  if (p.total_blocking_period_ < 0) {
    if (++p.total_blocking_period_ == 0) p.total_blocking_period_ = std::numeric_limits<int64_t>::max();
  } else if (p.total_blocking_period_ > 0) p.total_blocking_period_--;
  if (p.inhibitory_conductance_ < 1.0) p.potential_ -= (p.potential_ - p.reversal_inhibitory_potential_) * p.inhibitory_conductance_;
  else p.potential_ = p.reversal_inhibitory_potential_;
  bool spike = p.n_time_steps_since_last_firing_ > p.absolute_refractory_period_ && p.potential_ >= p.activation_threshold_ + p.dynamic_threshold_ + p.additional_threshold_;
  if (spike) {
    p.dynamic_threshold_ += p.threshold_increment_;
    p.postsynaptic_trace_ += p.postsynaptic_trace_increment_;
    p.potential_ = p.potential_reset_value_;
    p.bursting_phase_ = p.bursting_period_;
    p.n_time_steps_since_last_firing_ = 0;
  }
  if (p.potential_ < p.min_potential_) p.potential_ = p.min_potential_;
  return spike;
}
template <class N> void run() {
  constexpr bool stdp = std::is_same_v<N, nt::SynapticResourceSTDPBLIFATNeuron>;
  const size_t n = knpsym_param(0), steps = knpsym_param(2);
  std::vector<Base> ref;
  for (size_t i = 0; i < n; i++) ref.push_back(any());
  const UID pop = mkuid(1), src = mkuid(2);
  BK b;
  std::vector<BK::PopulationVariants> pops;
  pops.push_back(knp::core::Population<N>(pop, [&](size_t i) { return nt::neuron_parameters<N>(ref[i]); }, n));
  b.load_populations(pops);
  b._init();
  b.subscribe<SynapticImpactMessage>(pop, {src});
  Spy spy(b);
  spy.watch<SpikeMessage>(pop);
  const uint64_t base = knpsym_param(5) ? first_step(b) : 0;
  for (uint64_t s = 0; s < steps; s++) {
    const unsigned k = ks::choose(knpsym_param(1) + 1, "impacts");
    std::vector<SynapticImpact> im;
    for (unsigned i = 0; i < k; i++) {
      const OT t = knpsym_param(4) ? (ks::choose(2, "type") ? OT::INHIBITORY_CURRENT : OT::EXCITATORY) : (OT)ks::choose(5, "type");
      float v = ks::sym<float>("value");
      if (t == OT::BLOCKING) knpsym_assume((v > -1e15f) & (v < 1e15f));
      im.push_back({i, v, t, 0, ks::choose(n, "to")});
    }
    const bool forcing = ks::choose(k ? 2 : 1, "forcing") != 0;
    if (k) spy.ep.send_message(SynapticImpactMessage{{src, base + s}, UID(false), pop, forcing, im});
    std::vector<uint32_t> spikes;
    for (size_t i = 0; i < n; i++) {
      pre(ref[i], stdp);
      for (auto &x : im) if (x.postsynaptic_neuron_index_ == i) impact(ref[i], x);
      if (post(ref[i])) spikes.push_back(i);
    }
    b.arrive();
    b._step();
    auto got = spy.take<SpikeMessage>();
    ks::check(got.size() == (spikes.empty() ? 0 : 1), "one spike message when there are spikes, none otherwise");
    if (!got.empty()) {
      ks::check(got[0].neuron_indexes_ == spikes, "a neuron spikes exactly when its potential reaches the threshold outside the refractory period");
      ks::check(got[0].header_.send_time_ == base + s && ueq(got[0].header_.sender_uid_, pop), "the spike message carries the population and the step");
    }
    ks::reach(spikes.empty() ? "quiet" : "spike");
    const auto &r = std::get<knp::core::Population<N>>(*b.begin_populations());
    ks::check(r.size() == n, "the population keeps its neurons");
    for (size_t i = 0; i < n; i++) {
      const auto &p = r[i];
      Base &q = ref[i];
      ks::check(ks::same(p.potential_, q.potential_), "potential after the step");
      ks::check(p.n_time_steps_since_last_firing_ == q.n_time_steps_since_last_firing_, "steps since the last spike");
      ks::check(ks::same(p.dynamic_threshold_, q.dynamic_threshold_), "dynamic threshold after the step");
      ks::check(ks::same(p.postsynaptic_trace_, q.postsynaptic_trace_), "trace after the step");
      ks::check(ks::same(p.inhibitory_conductance_, q.inhibitory_conductance_), "conductance after the step");
      ks::check(p.bursting_phase_ == q.bursting_phase_, "bursting phase after the step");
      ks::check(p.total_blocking_period_ == q.total_blocking_period_, "blocking period after the step");
      ks::check(ks::same(p.dopamine_value_, q.dopamine_value_), "dopamine after the step");
      ks::check(ks::same(p.activation_threshold_, q.activation_threshold_) & ks::same(p.threshold_decay_, q.threshold_decay_) & ks::same(p.threshold_increment_, q.threshold_increment_) &
                ks::same(p.postsynaptic_trace_decay_, q.postsynaptic_trace_decay_) & ks::same(p.postsynaptic_trace_increment_, q.postsynaptic_trace_increment_) &
                ks::same(p.inhibitory_conductance_decay_, q.inhibitory_conductance_decay_) & ks::same(p.potential_decay_, q.potential_decay_) & ks::same(p.reflexive_weight_, q.reflexive_weight_) &
                ks::same(p.reversal_inhibitory_potential_, q.reversal_inhibitory_potential_) & ks::same(p.potential_reset_value_, q.potential_reset_value_) & ks::same(p.min_potential_, q.min_potential_) &
                (p.bursting_period_ == q.bursting_period_) & (p.absolute_refractory_period_ == q.absolute_refractory_period_), "parameters stay");
      if constexpr (stdp) {
        bool forced = false;
        for (auto &x : im) forced |= forcing && x.synapse_type_ == OT::EXCITATORY && x.postsynaptic_neuron_index_ == i;
        ks::check(p.is_being_forced_ == forced, "a neuron is forced exactly by excitatory impacts of a forcing message");
        q.additional_threshold_ = p.additional_threshold_;  // belongs to the plasticity rule
      } else ks::check(ks::same(p.additional_threshold_, q.additional_threshold_), "additional threshold stays");
      ks::obs("potential", p.potential_);
    }
  }
}
extern "C" void knp_harness() {
  ks::expect("spike"); ks::expect("quiet");
  if (knpsym_param(3)) run<nt::SynapticResourceSTDPBLIFATNeuron>();
  else run<nt::BLIFATNeuron>();
}

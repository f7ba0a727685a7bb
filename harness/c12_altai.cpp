// C12: one or more steps of AltAI-LIF neurons from any state under any impacts.
// params: 0 neurons, 1 most impacts per step, 2 steps, 3 kind (0 AltAI-LIF, 1 resource STDP AltAI-LIF), 4 focus (0 everything, 1 few), 5 1: the step counter starts near a boundary
#include "backend_common.h"
#include <cmath>
#include <limits>
using Base = nt::neuron_parameters<nt::AltAILIF>;
static Base any() {
  Base p;
  p.potential_ = ks::sym<float>("potential");
  p.activation_threshold_ = ks::sym<uint16_t>("threshold");
  p.potential_leak_ = ks::sym<int16_t>("leak");
  p.activity_time_ = ks::sym<int64_t>("activity");
  knpsym_assume(p.activity_time_ != std::numeric_limits<int64_t>::min());
  p.is_reset_ = ks::choose(2, "is_reset");
  p.pre_impact_potential_ = ks::sym<float>("pre");
  p.potential_reset_value_ = ks::sym<uint16_t>("reset");
  if (knpsym_param(4)) return p;
  p.is_diff_ = ks::choose(2, "is_diff");
  p.leak_rev_ = ks::choose(2, "leak_rev");
  p.saturate_ = ks::choose(2, "saturate");
  p.do_not_save_ = ks::choose(2, "do_not_save");
  p.negative_activation_threshold_ = ks::sym<uint16_t>("negative");
  p.dopamine_value_ = ks::sym<double>("dopamine");
  p.additional_threshold_ = ks::sym<double>("additional");
  return p;
}
static void pre(Base &p, bool stdp) {
  p.potential_ = p.do_not_save_ ? float(p.potential_reset_value_) : std::round(p.potential_);
  if (stdp) p.dopamine_value_ = 0;
  p.pre_impact_potential_ = p.potential_;
}
static void impact(Base &p, const SynapticImpact &x) {
  switch (x.synapse_type_) {
    case OT::EXCITATORY: p.potential_ += x.impact_value_; break;
    case OT::INHIBITORY_CURRENT: p.potential_ -= x.impact_value_; break;
    case OT::DOPAMINE: p.dopamine_value_ += x.impact_value_; break;
    default:
      if (std::signbit(double(p.activity_time_)) != std::signbit(double(x.impact_value_)) || std::abs(p.activity_time_) <= std::abs(x.impact_value_)) p.activity_time_ = (int64_t)x.impact_value_;
  }
}
static bool post(Base &p) {
  const int sign = p.leak_rev_ && p.potential_ < 0 ? -1 : 1;
  p.potential_ += p.potential_leak_ * sign;
  if (p.activity_time_ > 0) p.activity_time_--;
  else if (p.activity_time_ < 0) p.activity_time_++;
  if (p.activity_time_ == 0) p.activity_time_ = std::numeric_limits<int64_t>::max();
  bool spike = false, was_reset = false;
  const double limit = p.activation_threshold_ + p.additional_threshold_;
  if (p.potential_ >= limit) {
    spike = p.activity_time_ > 0;
    if (p.is_diff_) p.potential_ -= limit;
    if (p.is_reset_) { p.potential_ = p.potential_reset_value_; was_reset = true; }
  }
  const float low = -float(p.negative_activation_threshold_);
  if (!p.saturate_) knpsym_assume(p.potential_ != low);  // the documentation says "below", the code acts on equality too
  if (p.potential_ <= low && !was_reset) {
    if (p.saturate_) p.potential_ = low;
    else if (p.is_reset_) p.potential_ = -p.potential_reset_value_;
    else if (p.is_diff_) p.potential_ += p.negative_activation_threshold_;
  }
  return spike;
}
template <class N> void run() {
  constexpr bool stdp = std::is_same_v<N, nt::SynapticResourceSTDPAltAILIFNeuron>;
  const size_t n = knpsym_param(0), steps = knpsym_param(2);
  std::vector<Base> ref;
  for (size_t i = 0; i < n; i++) ref.push_back(any());
  const UID pop = mkuid(1), src = mkuid(2);
  ST b;
  std::vector<ST::PopulationVariants> pops;
  pops.push_back(knp::core::Population<N>(pop, [&](size_t i) { return nt::neuron_parameters<N>(ref[i]); }, n));
  b.load_populations(pops);
  b._init();
  b.subscribe<SynapticImpactMessage>(pop, {src});
  Spy spy(b);
  spy.watch<SpikeMessage>(pop);
  const uint64_t base = knpsym_param(5) ? first_step(b) : 0;
  for (uint64_t s = 0; s < steps; s++) {
    const unsigned k = ks::choose(knpsym_param(1) + 1, "impacts");
    std::vector<SynapticImpact> im;
    for (unsigned i = 0; i < k; i++) {
      static const OT all[] = {OT::EXCITATORY, OT::INHIBITORY_CURRENT, OT::DOPAMINE, OT::BLOCKING};
      const OT t = all[ks::choose(knpsym_param(4) ? 2 : 4, "type")];
      float v = ks::sym<float>("value");
      if (t == OT::BLOCKING) knpsym_assume((v > -1e15f) & (v < 1e15f));
      im.push_back({i, v, t, 0, ks::choose(n, "to")});
    }
    const bool forcing = ks::choose(k ? 2 : 1, "forcing") != 0;
    if (k) spy.ep.send_message(SynapticImpactMessage{{src, base + s}, UID(false), pop, forcing, im});
    std::vector<uint32_t> spikes;
    for (size_t i = 0; i < n; i++) {
      pre(ref[i], stdp);
      for (auto &x : im) if (x.postsynaptic_neuron_index_ == i) impact(ref[i], x);
      if (post(ref[i])) spikes.push_back(i);
    }
    b._step();
    auto got = spy.take<SpikeMessage>();
    ks::check(got.size() == (spikes.empty() ? 0 : 1), "one spike message when there are spikes, none otherwise");
    if (!got.empty()) {
      ks::check(got[0].neuron_indexes_ == spikes, "a neuron spikes exactly when its potential reaches the threshold and it is not blocked");
      ks::check(got[0].header_.send_time_ == base + s && ueq(got[0].header_.sender_uid_, pop), "the spike message carries the population and the step");
    }
    ks::reach(spikes.empty() ? "quiet" : "spike");
    const auto &r = std::get<knp::core::Population<N>>(*b.begin_populations());
    ks::check(r.size() == n, "the population keeps its neurons");
    for (size_t i = 0; i < n; i++) {
      const auto &p = r[i];
      Base &q = ref[i];
      ks::check(ks::same(p.potential_, q.potential_), "potential after the step");
      ks::check(p.activity_time_ == q.activity_time_, "activity time after the step");
      ks::check(ks::same(p.dopamine_value_, q.dopamine_value_), "dopamine after the step");
      ks::check((p.activation_threshold_ == q.activation_threshold_) & (p.negative_activation_threshold_ == q.negative_activation_threshold_) & (p.potential_leak_ == q.potential_leak_) &
                (p.potential_reset_value_ == q.potential_reset_value_) & (p.is_diff_ == q.is_diff_) & (p.is_reset_ == q.is_reset_) & (p.leak_rev_ == q.leak_rev_) &
                (p.saturate_ == q.saturate_) & (p.do_not_save_ == q.do_not_save_), "parameters stay");
      if constexpr (stdp) {
        bool forced = false;
        for (auto &x : im) forced |= forcing && x.synapse_type_ == OT::EXCITATORY && x.postsynaptic_neuron_index_ == i;
        ks::check(p.is_being_forced_ == forced, "a neuron is forced exactly by excitatory impacts of a forcing message");
        q.additional_threshold_ = p.additional_threshold_;  // belongs to the plasticity rule
      } else ks::check(ks::same(p.additional_threshold_, q.additional_threshold_), "additional threshold stays");
      ks::obs("potential", p.potential_);
    }
  }
}
extern "C" void knp_harness() {
  ks::expect("spike"); ks::expect("quiet");
  if (knpsym_param(3)) run<nt::SynapticResourceSTDPAltAILIFNeuron>();
  else run<nt::AltAILIF>();
}

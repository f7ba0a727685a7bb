// C13: one or more steps of LIF neurons from any state under any impacts.
// params: 0 neurons, 1 most impacts per step, 2 steps, 5 1: the step counter starts near a boundary
#include "backend_common.h"
using NP = nt::neuron_parameters<nt::LIFNeuron>;
static NP any() {
  NP p;
  p.potential_ = ks::sym<float>("potential");
  p.potential_reset_value_ = ks::sym<float>("reset");
  p.activation_threshold_ = ks::sym<float>("threshold");
  p.leak_coefficient_ = ks::sym<float>("leak");
  p.refract_counter_ = ks::sym<uint32_t>("counter");
  p.refract_period_ = ks::sym<uint32_t>("period");
  return p;
}
extern "C" void knp_harness() {
  ks::expect("spike"); ks::expect("quiet");
  const size_t n = knpsym_param(0), steps = knpsym_param(2);
  std::vector<NP> ref;
  for (size_t i = 0; i < n; i++) ref.push_back(any());
  const UID pop = mkuid(1), src = mkuid(2);
  BK b;
  std::vector<BK::PopulationVariants> pops;
  pops.push_back(knp::core::Population<nt::LIFNeuron>(pop, [&](size_t i) { return ref[i]; }, n));
  b.load_populations(pops);
  b._init();
  b.subscribe<SynapticImpactMessage>(pop, {src});
  Spy spy(b);
  spy.watch<SpikeMessage>(pop);
  const uint64_t base = knpsym_param(5) ? first_step(b) : 0;
  for (uint64_t s = 0; s < steps; s++) {
    const unsigned k = ks::choose(knpsym_param(1) + 1, "impacts");
    std::vector<SynapticImpact> im;
    for (unsigned i = 0; i < k; i++)
      im.push_back({i, ks::sym<float>("value"), ks::choose(2, "type") ? OT::INHIBITORY_CURRENT : OT::EXCITATORY, 0, ks::choose(n, "to")});
    if (k) {
      if (k > 1 && ks::choose(2, "split")) {  // in two messages
        spy.ep.send_message(SynapticImpactMessage{{src, base + s}, UID(false), pop, false, {im[0]}});
        spy.ep.send_message(SynapticImpactMessage{{src, base + s}, UID(false), pop, true, std::vector<SynapticImpact>(im.begin() + 1, im.end())});
      } else spy.ep.send_message(SynapticImpactMessage{{src, base + s}, UID(false), pop, false, im});
    }
    // the documented step
    std::vector<uint32_t> spikes;
    for (size_t i = 0; i < n; i++) {
      NP &p = ref[i];
      if (p.refract_counter_ > 0) { p.refract_counter_--; continue; }
      p.potential_ *= p.leak_coefficient_;
      for (auto &x : im)
        if (x.postsynaptic_neuron_index_ == i) p.potential_ = x.synapse_type_ == OT::EXCITATORY ? p.potential_ + x.impact_value_ : p.potential_ - x.impact_value_;
      if (p.potential_ > p.activation_threshold_) { spikes.push_back(i); p.potential_ = p.potential_reset_value_; p.refract_counter_ = p.refract_period_; }
    }
    b.arrive();
    b._step();
    auto got = spy.take<SpikeMessage>();
    ks::check(got.size() == (spikes.empty() ? 0 : 1), "one spike message when there are spikes, none otherwise");
    if (!got.empty()) {
      ks::check(got[0].neuron_indexes_ == spikes, "a neuron spikes exactly when its potential exceeds the threshold outside the refractory period");
      ks::check(got[0].header_.send_time_ == base + s && ueq(got[0].header_.sender_uid_, pop), "the spike message carries the population and the step");
    }
    ks::reach(spikes.empty() ? "quiet" : "spike");
    const auto &r = std::get<knp::core::Population<nt::LIFNeuron>>(*b.begin_populations());
    ks::check(r.size() == n, "the population keeps its neurons");
    for (size_t i = 0; i < n; i++) {
      const NP &p = r[i], &q = ref[i];
      ks::check(ks::same(p.potential_, q.potential_), "potential after the step");
      ks::check(p.refract_counter_ == q.refract_counter_, "refractory counter after the step");
      ks::check((p.refract_period_ == q.refract_period_) & ks::same(p.activation_threshold_, q.activation_threshold_) & ks::same(p.leak_coefficient_, q.leak_coefficient_) & ks::same(p.potential_reset_value_, q.potential_reset_value_), "parameters stay");
      ks::obs("potential", p.potential_);
      ks::obs("counter", p.refract_counter_);
    }
  }
}

// C10: every spike gives exactly one impact per synapse of its neuron, sent on step t + delay - 1 (received on t + delay).
// params: 0 synapses, 1 steps, 2 largest delay, 3 kind (0 delta, 1 additive STDP, 2 resource STDP), 4 mode (0 bus, 1 two populations), 5 presynaptic neurons, 6 1: the step counter starts near a boundary
#include "backend_common.h"
template <class S> void bus() {
  using SP = st::synapse_parameters<S>;
  using Proj = knp::core::Projection<S>;
  const size_t n = knpsym_param(0), steps = knpsym_param(1), dmax = knpsym_param(2), pre_n = knpsym_param(5);
  const UID pre = mkuid(1), post = mkuid(2), uid = mkuid(3), other = mkuid(4);
  struct Syn { unsigned from, to; uint32_t delay; float w; OT type; };
  std::vector<Syn> syn;
  for (size_t i = 0; i < n; i++) {
    Syn s;
    s.from = ks::range(0, pre_n - 1, "from");
    s.to = ks::range(0, 3, "to");
    s.delay = ks::range(1, dmax, "delay");
    s.w = ks::sym<float>("weight");
    s.type = (OT)ks::range(0, 4, "type");
    syn.push_back(s);
  }
  BK b;
  std::vector<BK::ProjectionVariants> projs;
  projs.push_back(Proj(uid, pre, post, [&](size_t i) {
    SP p;
    p.weight_ = syn[i].w; p.delay_ = syn[i].delay; p.output_type_ = syn[i].type;
    return std::make_tuple(p, size_t(syn[i].from), size_t(syn[i].to));
  }, n));
  b.load_projections(projs);
  b._init();
  Spy spy(b);
  spy.watch<SynapticImpactMessage>(uid);
  std::vector<unsigned> fired;
  const uint64_t base = knpsym_param(6) ? first_step(b) : 0;
  for (uint64_t t = 0; t < steps; t++) {
    unsigned mask = ks::choose(1u << pre_n, "spikes");
    fired.push_back(mask);
    SpikeMessage m{{pre, base + t}, {}};
    for (unsigned i = 0; i < pre_n; i++) if (mask >> i & 1) m.neuron_indexes_.push_back(i);
    if (mask || ks::choose(2, "empty")) spy.ep.send_message(m);
    spy.ep.send_message(SpikeMessage{{other, base + t}, {0, 1}});  // not a sender of this projection
    b.arrive();
    b._step();
    // what has to be sent on this step
    std::vector<bool> want(n, false);
    size_t count = 0;
    for (size_t i = 0; i < n; i++)
      if (t + 1 >= syn[i].delay && fired[t + 1 - syn[i].delay] >> syn[i].from & 1) { want[i] = true; count++; }
    auto got = spy.take<SynapticImpactMessage>();
    size_t seen = 0;
    for (auto &g : got) {
      ks::check(ueq(g.header_.sender_uid_, uid) && ueq(g.presynaptic_population_uid_, pre) && ueq(g.postsynaptic_population_uid_, post), "the impact message names its projection and populations");
      for (auto &x : g.impacts_) {
        seen++;
        ks::check(x.connection_index_ < n && want[x.connection_index_], "an impact is sent only on the step its delay gives, once");
        if (x.connection_index_ >= n) continue;
        want[x.connection_index_] = false;
        const Syn &s = syn[x.connection_index_];
        ks::check(ks::same(x.impact_value_, s.w), "the impact carries the weight of its synapse");
        ks::check(x.synapse_type_ == s.type, "the impact carries the type of its synapse");
        ks::check((x.presynaptic_neuron_index_ == s.from) & (x.postsynaptic_neuron_index_ == s.to), "the impact carries the neuron pair of its synapse");
        ks::obs("value", x.impact_value_);
      }
    }
    ks::check(seen == count, "every due impact is sent");
    if (count) ks::reach("impact");
  }
  const auto &p = std::get<Proj>(b.begin_projections()->arg_);
  for (size_t i = 0; i < n; i++) ks::check(ks::same(std::get<knp::core::synapse_data>(p[i]).weight_, syn[i].w), "transmission alone changes no weight");
}
// spikes of a population reach the other population on step t + delay
static void network() {
  using LP = nt::neuron_parameters<nt::LIFNeuron>;
  using Pop = knp::core::Population<nt::LIFNeuron>;
  using SP = st::synapse_parameters<st::DeltaSynapse>;
  const size_t n = knpsym_param(0), steps = knpsym_param(1), dmax = knpsym_param(2);
  const UID a = mkuid(1), c = mkuid(2), uid = mkuid(3), src = mkuid(4);
  const bool backward = ks::choose(2, "order") != 0;  // the postsynaptic population is calculated first
  std::vector<unsigned> from(n), delay(n);
  std::vector<float> w(n), pot(n, 0.f);
  for (size_t i = 0; i < n; i++) { from[i] = ks::range(0, 1, "from"); delay[i] = ks::range(1, dmax, "delay"); w[i] = 0.25f * (i + 1); }
  BK b;
  LP lp;
  lp.activation_threshold_ = 1e6f;
  lp.leak_coefficient_ = 1;
  std::vector<BK::PopulationVariants> pops;
  Pop A(a, [&](size_t) { return lp; }, 2), C(c, [&](size_t) { return lp; }, n);
  pops.push_back(backward ? C : A);
  pops.push_back(backward ? A : C);
  b.load_populations(pops);
  std::vector<BK::ProjectionVariants> projs;
  projs.push_back(knp::core::Projection<st::DeltaSynapse>(uid, a, c, [&](size_t i) {
    SP p;
    p.weight_ = w[i]; p.delay_ = delay[i];
    return std::make_tuple(p, size_t(from[i]), i);
  }, n));
  b.load_projections(projs);
  b._init();
  b.subscribe<SynapticImpactMessage>(a, {src});
  Spy spy(b);
  std::vector<unsigned> fired;
  const uint64_t base = knpsym_param(6) ? first_step(b) : 0;
  for (uint64_t t = 0; t < steps; t++) {
    unsigned mask = ks::choose(4, "spikes");
    fired.push_back(mask);
    SynapticImpactMessage m{{src, base + t}, UID(false), a, false, {}};
    for (unsigned i = 0; i < 2; i++) if (mask >> i & 1) m.impacts_.push_back({i, 2e6f, OT::EXCITATORY, 0, i});
    if (mask) spy.ep.send_message(m);
    b.arrive();
    b._step();
    for (size_t i = 0; i < n; i++) if (t >= delay[i] && fired[t - delay[i]] >> from[i] & 1) { pot[i] += w[i]; ks::reach("impact"); }
    size_t k = 0;
    for (auto it = b.begin_populations(); it != b.end_populations(); ++it) {
      const Pop &p = std::get<Pop>(*it);
      if (!ueq(p.get_uid(), c)) continue;
      k++;
      for (size_t i = 0; i < n; i++) { ks::check(ks::same(p[i].potential_, pot[i]), "a spike of step t is received with its weight on step t + delay only"); ks::obs("potential", p[i].potential_); }
    }
    ks::check(k == 1, "both populations stay");
  }
}
extern "C" void knp_harness() {
  ks::expect("impact");
  if (knpsym_param(4)) return network();
  switch (knpsym_param(3)) {
    case 0: return bus<st::DeltaSynapse>();
#ifndef KNP_MT
    case 1: return bus<st::AdditiveSTDPDeltaSynapse>();
#endif
    default: return bus<st::SynapticResourceSTDPDeltaSynapse>();
  }
}

// C17: locked projections keep their synapses.
// params: 0 kind (0 BLIFAT resource STDP, 1 AltAI-LIF resource STDP, 2 additive STDP), 1 projections, 2 steps, 3 synapses per projection
#include "backend_common.h"
template <class Synapse> static const knp::core::Projection<Synapse> *find(const knp::core::AllProjectionsVariant &v, const UID &u) {
  auto *p = std::get_if<knp::core::Projection<Synapse>>(&v);
  return p && ueq(p->get_uid(), u) ? p : nullptr;
}
template <class Synapse> static knp::core::Projection<Synapse> read(const BK &b, const UID &u) {
  auto data = b.get_network_data();
  for (auto &i = *data.projection_range.first; !(i == *data.projection_range.second); ++i) {
    auto v = *i;
    if (auto *p = find<Synapse>(v, u)) return *p;
  }
  knpsym_fail("a loaded projection is missing");
  __builtin_unreachable();
}
template <class Neuron> void resource() {
  using S = st::SynapticResourceSTDPDeltaSynapse;
  using SP = st::synapse_parameters<S>;
  using NP = nt::neuron_parameters<Neuron>;
  const size_t np = knpsym_param(1), steps = knpsym_param(2), ns = knpsym_param(3);
  const UID pop = mkuid(1), source = mkuid(2);
  NP n;
  n.potential_ = ks::finite("potential");
  n.activation_threshold_ = ks::finite("threshold");
  n.isi_status_ = ks::choose(2, "in_period") ? nt::ISIPeriodType::period_continued : nt::ISIPeriodType::not_in_period;
  n.is_being_forced_ = false;
  n.isi_max_ = 100;
  n.d_h_ = 0;
  n.dopamine_value_ = 0;
  n.stability_ = 1;
  n.synaptic_resource_threshold_ = 1e30F;
  BK b;
  b.load_populations({knp::core::Population<Neuron>(pop, [&](size_t) { return n; }, 1)});
  std::vector<BK::ProjectionVariants> projs;
  std::vector<bool> locked(np);
  struct State { float weight, resource, d_u; };
  std::vector<std::vector<State>> state(np);
  for (size_t p = 0; p < np; p++) {
    knp::core::Projection<S> proj(mkuid(10 + p), source, pop, [&](size_t i) {
      SP s;
      s.weight_ = ks::finite("weight");
      s.delay_ = 1;
      s.output_type_ = OT::EXCITATORY;
      s.rule_.synaptic_resource_ = ks::finite("resource");
      s.rule_.w_min_ = ks::finite("w_min");
      s.rule_.w_max_ = ks::finite("w_max");
      s.rule_.d_u_ = ks::finite("d_u");
      s.rule_.dopamine_plasticity_period_ = 0;  // the synapse takes part in no spike of its neuron: its resource only falls
      s.rule_.last_spike_step_ = 1000;
      state[p].push_back({s.weight_, s.rule_.synaptic_resource_, s.rule_.d_u_});
      return std::make_tuple(s, i, size_t(0));
    }, ns);
    switch (ks::choose(3, "initial_lock")) {
      case 0: locked[p] = proj.is_locked(); break;
      case 1: proj.lock_weights(); locked[p] = true; break;
      default: proj.unlock_weights(); locked[p] = false;
    }
    ks::check(proj.is_locked() == locked[p], "a projection is locked as it was told");
    projs.push_back(proj);
  }
  b.load_projections(projs);
  b._init();
  Spy spy(b);
  spy.watch<SpikeMessage>(pop);
  for (size_t p = 0; p < np; p++) spy.watch<SynapticImpactMessage>(mkuid(10 + p));
  for (size_t step = 0; step < steps; step++) {
    switch (ks::choose(3, "learning")) {
      case 1: b.stop_learning(); locked.assign(np, true); break;
      case 2: b.start_learning(); locked.assign(np, false); break;
      default:;
    }
    const bool input = ks::choose(2, "input");
    if (input) {
      SpikeMessage m{{source, step}, {}};
      for (unsigned i = 0; i < ns; i++) m.neuron_indexes_.push_back(i);
      spy.ep.send_message(m);
    }
    b.arrive();
    b._step();
    const bool spiked = !spy.take<SpikeMessage>().empty();
    const auto impacts = spy.take<SynapticImpactMessage>();
    ks::check(impacts.size() == (input ? np : 0), "every projection transmits the spikes, locked or not, learning or not");
    if (spiked) ks::reach("spiked");
    for (size_t p = 0; p < np; p++) {
      auto proj = read<S>(b, mkuid(10 + p));
      ks::check(proj.is_locked() == locked[p], "the lock of a projection is what it was set to");
      ks::check(proj.size() == ns, "running changes no synapse count");
      for (size_t i = 0; i < ns; i++) {
        const auto &s = std::get<0>(proj[i]);
        State &was = state[p][i];
        if (locked[p] || !spiked) {
          ks::check(ks::same(s.weight_, was.weight), "the weight is unchanged while locked or without spikes of the neuron");
          ks::check(ks::same(s.rule_.synaptic_resource_, was.resource), "the resource is unchanged while locked or without spikes of the neuron");
          if (spiked) ks::reach("kept");
        } else {
          float r = was.resource;
          r -= was.d_u;
          ks::check(ks::same(s.rule_.synaptic_resource_, r), "an unlocked synapse learns on a spike of its neuron");
          ks::reach("learned");
        }
        for (const auto &m : impacts)
          if (ueq(m.header_.sender_uid_, mkuid(10 + p)))
            for (const auto &im : m.impacts_)
              if (im.presynaptic_neuron_index_ == i) ks::check(ks::same(im.impact_value_, s.weight_), "the impact carries the weight of the synapse");
        was.weight = s.weight_;
        was.resource = s.rule_.synaptic_resource_;
      }
    }
  }
  ks::reach("done");
}
#ifndef KNP_MT  // types the multi-threaded backend does not have
static void additive() {
  using S = st::AdditiveSTDPDeltaSynapse;
  using SP = st::synapse_parameters<S>;
  const UID pop = mkuid(1);
  BK b;
  SP s;
  s.weight_ = ks::finite("weight");
  s.rule_.tau_plus_ = 1;
  s.rule_.tau_minus_ = 1;
  s.rule_.presynaptic_spike_times_ = {1, 2};
  s.rule_.postsynaptic_spike_times_ = {3, 4};
  knp::core::Projection<S> proj(mkuid(10), mkuid(2), pop, [&](size_t i) { return std::make_tuple(s, i, size_t(0)); }, 1);
  const bool by_backend = ks::choose(2, "how");
  proj.lock_weights();
  if (by_backend) proj.unlock_weights();
  b.load_populations({knp::core::Population<nt::BLIFATNeuron>(pop, [](size_t) { return nt::neuron_parameters<nt::BLIFATNeuron>{}; }, 1)});
  b.load_projections({proj});
  b._init();
  if (by_backend) b.stop_learning();
  b.arrive();
  b._step();
  const auto now = read<S>(b, mkuid(10));
  ks::check(ks::same(std::get<0>(now[0]).weight_, s.weight_), "a locked additive STDP synapse keeps its weight");
  ks::reach("done");
}
#endif
extern "C" void knp_harness() {
  ks::expect("done");
  if (knpsym_param(0) < 2) { ks::expect("spiked"); ks::expect("kept"); ks::expect("learned"); }
  switch (knpsym_param(0)) {
    case 0: resource<nt::SynapticResourceSTDPBLIFATNeuron>(); break;
#ifndef KNP_MT
    case 1: resource<nt::SynapticResourceSTDPAltAILIFNeuron>(); break;
    default: additive();
#endif
  }
}

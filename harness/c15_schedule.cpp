// C15: results do not depend on the number of threads, the sizes of the parts and the schedule.
// params: 0 network (0 chain, 1 dense), 1 neuron (0 BLIFAT, 1 LIF, 2 resource STDP BLIFAT), 2 synapse (0 delta, 1 resource STDP), 3 size, 4 steps, 5 maximum delay, 6 training, 7 senders,
// 8 threads, 9 largest part, 10 symbolic thresholds, 11 steps with any schedule (the last ones)
#include "multi_common.h"
template <class N, class S> static void run() {
  const size_t size = knpsym_param(3), steps = knpsym_param(4), free_steps = knpsym_param(11);
  const auto model = knpsym_param(0) ? dense<N, S>(size, knpsym_param(5), knpsym_param(6)) : chain<N, S>(size, knpsym_param(5), knpsym_param(6));
  knpsym_one_schedule(1);
  Runner<MT, N, S> a(model, 1, 1000, 1000);
  Runner<MT, N, S> b(model, 1 + ks::choose(knpsym_param(8), "threads"), 1 + ks::choose(knpsym_param(9), "population_part"), 1 + ks::choose(knpsym_param(9), "projection_part"));
  for (size_t s = 0; s < steps; s++) {
    const auto in = any_input(size, s, knpsym_param(7));
    const Step x = a.step(in);
    knpsym_one_schedule(s + free_steps < steps);
    const Step y = b.step(in);
    knpsym_one_schedule(1);
    same_step(x, y);
    same_state(a, b);
  }
}
template <class N> static void with_synapse() { if (knpsym_param(2)) run<N, Resource>(); else run<N, Delta>(); }
extern "C" void knp_harness() {
  ks::expect("done"); ks::expect("spikes"); ks::expect("impacts");
  switch (knpsym_param(1)) {
    case 0: with_synapse<nt::BLIFATNeuron>(); break;
    case 1: with_synapse<nt::LIFNeuron>(); break;
    default: with_synapse<nt::SynapticResourceSTDPBLIFATNeuron>();
  }
  ks::reach("done");
}

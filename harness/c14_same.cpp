// C14: the multi-threaded backend computes what the single-threaded one computes.
// params: 0 network (0 chain, 1 dense), 1 neuron (0 BLIFAT, 1 LIF, 2 resource STDP BLIFAT), 2 synapse (0 delta, 1 resource STDP), 3 size, 4 steps, 5 maximum delay, 6 training, 7 senders, 8 threads, 9 part
#include "multi_common.h"
template <class N, class S> static void run() {
  const size_t size = knpsym_param(3), steps = knpsym_param(4);
  const auto model = knpsym_param(0) ? dense<N, S>(size, knpsym_param(5), knpsym_param(6)) : chain<N, S>(size, knpsym_param(5), knpsym_param(6));
  Runner<ST, N, S> a(model);
  Runner<MT, N, S> b(model, knpsym_param(8), knpsym_param(9), knpsym_param(9));
  for (size_t s = 0; s < steps; s++) {
    const auto in = any_input(size, s, knpsym_param(7));
    same_step(a.step(in), b.step(in));
    same_state(a, b);
  }
}
template <class N> static void with_synapse() { if (knpsym_param(2)) run<N, Resource>(); else run<N, Delta>(); }
extern "C" void knp_harness() {
  ks::expect("done"); ks::expect("spikes"); ks::expect("impacts");
  knpsym_one_schedule(1);
  switch (knpsym_param(1)) {
    case 0: with_synapse<nt::BLIFATNeuron>(); break;
    case 1: with_synapse<nt::LIFNeuron>(); break;
    default: with_synapse<nt::SynapticResourceSTDPBLIFATNeuron>();
  }
  ks::reach("done");
}

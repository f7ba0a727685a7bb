// C01: any sequence of projection operations keeps exactly the right synapses, and lookups agree with the contents.
// params: 0 number of operations, 1 synapse kind (0 delta, 1 additive STDP delta), 2 initial synapses, 3 largest number of generator calls of an addition (0: always one)
#include <knp/core/projection.h>
#include "knpsym.h"
#include <vector>
namespace st = knp::synapse_traits;
struct Ref { size_t from, to; float w; uint32_t d; };
template <class S> struct Acc;
template <> struct Acc<st::DeltaSynapse> {
  static st::synapse_parameters<st::DeltaSynapse> make(float w, uint32_t d) { return {w, d, st::OutputType::EXCITATORY}; }
};
template <> struct Acc<st::AdditiveSTDPDeltaSynapse> {
  static st::synapse_parameters<st::AdditiveSTDPDeltaSynapse> make(float w, uint32_t d) { st::synapse_parameters<st::AdditiveSTDPDeltaSynapse> p; p.weight_ = w; p.delay_ = d; return p; }
};
template <> struct Acc<st::SynapticResourceSTDPDeltaSynapse> {
  static st::synapse_parameters<st::SynapticResourceSTDPDeltaSynapse> make(float w, uint32_t d) { st::synapse_parameters<st::SynapticResourceSTDPDeltaSynapse> p; p.weight_ = w; p.delay_ = d; return p; }
};
static size_t neuron(const char *n) { return ks::range(0, 1, n) + 5; }

template <class S> void run() {
  using P = knp::core::Projection<S>;
  std::vector<Ref> ref;
  auto gen = [&](size_t) -> std::optional<typename P::Synapse> {
    if (ks::sym<bool>("declined")) return std::nullopt;
    Ref r{neuron("from"), neuron("to"), ks::sym<float>("weight"), ks::sym<uint32_t>("delay")};
    ref.push_back(r);
    return typename P::Synapse{Acc<S>::make(r.w, r.d), r.from, r.to};
  };
  knp::core::UID pre(true), post(true);
  size_t initial = knpsym_param(2);
  P p = ks::choose(2, "ctor") ? P(pre, post, gen, initial) : P(knp::core::UID(true), pre, post, gen, initial);
  auto compare = [&](bool lookups) {
    ks::check(p.size() == ref.size(), "projection size equals the number of synapses added and not removed");
    for (size_t i = 0; i < ref.size(); i++) {
      const auto &s = p[i];
      ks::check((std::get<1>(s) == ref[i].from) & (std::get<2>(s) == ref[i].to), "synapse keeps its neuron pair and position");
      ks::check(ks::same(std::get<0>(s).weight_, ref[i].w) & (std::get<0>(s).delay_ == ref[i].d), "synapse keeps its parameters");
    }
    size_t cnt = 0;
    for (const auto &s : p) { (void)s; cnt++; }
    ks::check(cnt == ref.size(), "iteration visits every synapse");
    if (!lookups) return;
    for (int by = 0; by < 2; by++)
      for (size_t n = 5; n < 7; n++) {
        auto found = static_cast<const P &>(p).find_synapses(n, by ? P::Search::by_postsynaptic : P::Search::by_presynaptic);
        std::vector<int> mark(ref.size(), 0);
        for (size_t x : found) {
          ks::check(x < ref.size(), "lookup returns an existing position");
          mark[x]++;
        }
        size_t want = 0;
        for (size_t i = 0; i < ref.size(); i++) {
          bool m = (by ? ref[i].to : ref[i].from) == n;
          ks::check(mark[i] == (m ? 1 : 0), "lookup returns exactly the matching synapses, each once");
          want += m;
        }
        ks::check(found.size() == want, "lookup returns exactly the matching number");
        ks::obs("found", found.size());
      }
  };
  ks::expect("end");
  if (knpsym_param(3)) compare(true);
  const size_t ops = knpsym_param(0);
  for (size_t o = 0; o < ops; o++) {
    switch (ks::choose(7, "op")) {
      case 0: {
        size_t before = ref.size();
        size_t got = p.add_synapses(gen, knpsym_param(3) ? ks::choose(knpsym_param(3) + 1, "iterations") : 1);
        ks::check(got == ref.size() - before, "add_synapses returns the number added");
        break;
      }
      case 1: {
        if (ref.empty()) break;
        size_t i = ks::choose(ref.size(), "index");
        p.remove_synapse(i);
        ref.erase(ref.begin() + i);
        break;
      }
      case 2: case 3: case 4: {
        size_t before = ref.size(), n = neuron("neuron"), got;
        std::vector<Ref> left;
        unsigned kind = ks::choose(3, "kind");
        float lim = 0;
        if (kind == 0) got = p.remove_presynaptic_neuron_synapses(n);
        else if (kind == 1) got = p.remove_postsynaptic_neuron_synapses(n);
        else got = p.remove_synapse_if([&](const typename P::Synapse &s) { return std::get<0>(s).delay_ > 3; });
        for (auto &r : ref) if (!(kind == 0 ? r.from == n : kind == 1 ? r.to == n : r.d > 3)) left.push_back(r);
        ref = left;
        ks::check(got == before - ref.size(), "removal returns the number removed");
        break;
      }
      case 5: p.clear(); ref.clear(); break;
      case 6: {  // a lookup in the middle refreshes the index; also const
        compare(true);
        break;
      }
    }
    compare(false);
  }
  compare(true);
  ks::check(p.get_presynaptic() == pre && p.get_postsynaptic() == post, "projection keeps its populations");
  ks::reach("end");
}
extern "C" void knp_harness() {
  switch (knpsym_param(1)) {
    case 0: run<st::DeltaSynapse>(); break;
    case 1: run<st::AdditiveSTDPDeltaSynapse>(); break;
    default: run<st::SynapticResourceSTDPDeltaSynapse>(); break;
  }
}

// C02: any sequence of population operations keeps exactly the right neurons in order.
// params: 0 operations, 1 neuron kind, 2 initial neurons
#include <knp/core/population.h>
#include "knpsym.h"
#include <vector>
namespace nt = knp::neuron_traits;
struct Ref { double pot; uint64_t steps; };
template <class N> struct Acc;
template <> struct Acc<nt::BLIFATNeuron> {
  using P = nt::neuron_parameters<nt::BLIFATNeuron>;
  static void put(P &p, Ref r) { p.potential_ = r.pot; p.n_time_steps_since_last_firing_ = r.steps; }
  static bool eq(const P &p, Ref r) { return ks::same(p.potential_, r.pot) & (p.n_time_steps_since_last_firing_ == r.steps); }
};
template <> struct Acc<nt::SynapticResourceSTDPBLIFATNeuron> {
  using P = nt::neuron_parameters<nt::SynapticResourceSTDPBLIFATNeuron>;
  static void put(P &p, Ref r) { p.potential_ = r.pot; p.n_time_steps_since_last_firing_ = r.steps; p.free_synaptic_resource_ = float(r.steps & 255); }
  static bool eq(const P &p, Ref r) { return ks::same(p.potential_, r.pot) & (p.n_time_steps_since_last_firing_ == r.steps) & ks::same(p.free_synaptic_resource_, float(r.steps & 255)); }
};
template <> struct Acc<nt::AltAILIF> {
  using P = nt::neuron_parameters<nt::AltAILIF>;
  static void put(P &p, Ref r) { p.potential_ = (float)(int8_t)r.steps; p.activation_threshold_ = (uint16_t)r.steps; }
  static bool eq(const P &p, Ref r) { return ks::same(p.potential_, (float)(int8_t)r.steps) & (p.activation_threshold_ == (uint16_t)r.steps); }
};
template <> struct Acc<nt::LIFNeuron> {
  using P = nt::neuron_parameters<nt::LIFNeuron>;
  static void put(P &p, Ref r) { p.potential_ = (float)(int8_t)r.steps; p.refract_counter_ = (uint32_t)r.steps; }
  static bool eq(const P &p, Ref r) { return ks::same(p.potential_, (float)(int8_t)r.steps) & (p.refract_counter_ == (uint32_t)r.steps); }
};
template <class N> void run() {
  using Pop = knp::core::Population<N>;
  using A = Acc<N>;
  using NP = typename A::P;
  std::vector<Ref> ref;
  size_t asked = 0, next = 0;
  auto gen = [&](size_t i) -> std::optional<NP> {
    ks::check(i == next, "the generator is asked for consecutive indexes from zero");
    next++; asked++;
    if (ks::sym<bool>("declined")) return std::nullopt;
    Ref r{ks::sym<double>("potential"), ks::sym<uint64_t>("steps")};
    ref.push_back(r);
    NP p;
    A::put(p, r);
    return p;
  };
  const size_t initial = knpsym_param(2);
  knp::core::UID uid(true);
  Pop p = ks::choose(2, "ctor") ? Pop(uid, gen, initial) : Pop(gen, initial);
  ks::check(asked == initial, "the generator is asked once for each new neuron");
  auto compare = [&]() {
    ks::check(p.size() == ref.size(), "population size equals the number of neurons added and not removed");
    size_t n = 0;
    for (const auto &x : p) { ks::check(n < ref.size() && A::eq(x, ref[n]), "iteration gives the neurons in order"); n++; }
    ks::check(n == ref.size(), "iteration visits every neuron");
    for (size_t i = 0; i < ref.size(); i++) {
      ks::check(A::eq(p[i], ref[i]) && A::eq(static_cast<const Pop &>(p)[i], ref[i]) && A::eq(p.get_neuron_parameters(i), ref[i]), "neuron keeps its parameters and position");
    }
    const auto &all = p.get_neurons_parameters();
    ks::check(all.size() == ref.size(), "all parameters are given");
    for (size_t i = 0; i < ref.size() && i < all.size(); i++) ks::check(A::eq(all[i], ref[i]), "all parameters are in order");
  };
  ks::expect("end");
  compare();
  for (size_t o = 0; o < knpsym_param(0); o++) {
    switch (ks::choose(5, "op")) {
      case 0: {
        size_t n = ks::choose(3, "count");
        asked = next = 0;
        p.add_neurons(gen, n);
        ks::check(asked == n, "the generator is asked once for each new neuron");
        break;
      }
      case 1: {
        if (ref.empty()) break;
        size_t i = ks::choose(ref.size(), "index");
        p.remove_neuron(i);
        ref.erase(ref.begin() + i);
        break;
      }
      case 2: {  // an index list of distinct indexes in any order
        std::vector<size_t> idx;
        std::vector<bool> gone(ref.size(), false);
        size_t n = ref.empty() ? 0 : ks::choose(ref.size() + 1, "listed");
        for (size_t k = 0; k < n; k++) {
          size_t i = ks::choose(ref.size(), "index");
          if (gone[i]) knpsym_assume(0);
          gone[i] = true;
          idx.push_back(i);
        }
        p.remove_neurons(idx);
        std::vector<Ref> left;
        for (size_t i = 0; i < ref.size(); i++) if (!gone[i]) left.push_back(ref[i]);
        ref = left;
        break;
      }
      case 3: {
        if (ref.empty()) break;
        size_t i = ks::choose(ref.size(), "index");
        Ref r{ks::sym<double>("potential"), ks::sym<uint64_t>("steps")};
        NP v;
        A::put(v, r);
        if (ks::choose(2, "how")) p.set_neuron_parameters(i, v); else p[i] = v;
        ref[i] = r;
        break;
      }
      case 4: {
        std::vector<NP> v;
        ref.clear();
        size_t n = ks::choose(3, "count");
        for (size_t i = 0; i < n; i++) {
          Ref r{ks::sym<double>("potential"), ks::sym<uint64_t>("steps")};
          ref.push_back(r);
          v.emplace_back();
          A::put(v.back(), r);
        }
        if (ks::choose(2, "how")) p.set_neurons_parameters(v); else p.set_neurons_parameters(std::move(v));
        break;
      }
    }
    compare();
  }
  ks::reach("end");
}
extern "C" void knp_harness() {
  switch (knpsym_param(1)) {
    case 0: run<nt::BLIFATNeuron>(); break;
    case 1: run<nt::SynapticResourceSTDPBLIFATNeuron>(); break;
    case 3: run<nt::LIFNeuron>(); break;
    default: run<nt::AltAILIF>(); break;
  }
}

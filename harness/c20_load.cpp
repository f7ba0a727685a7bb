// C20: what is loaded into a backend is what it gives back. params: 0 operations, 1 populations, 2 projections
#ifdef KNP_MT
#include <knp/backends/cpu-multi-threaded/backend.h>
#endif
#include "backend_common.h"
#include <knp/framework/network.h>
#include <knp/framework/synchronization.h>
#ifdef KNP_MT
using B = Opened<knp::backends::multi_threaded_cpu::MultiThreadedCPUBackend>;
#else
using B = ST;
#endif
using PopV = knp::core::AllPopulationsVariant;
using ProjV = knp::core::AllProjectionsVariant;
static unsigned serial = 0;
template <class N> static PopV pop(unsigned id, size_t n) {
  knp::core::Population<N> p(mkuid(id), [](size_t) { nt::neuron_parameters<N> x; x.potential_ = ks::sym<uint8_t>("potential"); return x; }, n);
  p.get_tags()["mark"] = int(++serial);
  return p;
}
static PopV any_pop(unsigned id, unsigned kind, size_t n) {
  switch (kind) {
    case 0: return pop<nt::BLIFATNeuron>(id, n);
    case 1: return pop<nt::LIFNeuron>(id, n);
    case 2: return pop<nt::SynapticResourceSTDPBLIFATNeuron>(id, n);
    case 3: return pop<nt::AltAILIF>(id, n);
    default: return pop<nt::SynapticResourceSTDPAltAILIFNeuron>(id, n);
  }
}
template <class S> static ProjV proj(unsigned id, size_t n, bool lock) {
  knp::core::Projection<S> p(mkuid(id), mkuid(id + 50), mkuid(id + 60), [](size_t i) {
    st::synapse_parameters<S> s;
    s.weight_ = ks::sym<uint8_t>("weight");
    s.delay_ = 1 + ks::range(0, 3, "delay");
    return std::make_tuple(s, i, i + 1);
  }, n);
  if (lock) p.lock_weights(); else p.unlock_weights();
  p.get_tags()["mark"] = int(++serial);
  return p;
}
static ProjV any_proj(unsigned id, unsigned kind, size_t n, bool lock) {
  switch (kind) {
    case 0: return proj<st::DeltaSynapse>(id, n, lock);
    case 1: return proj<st::SynapticResourceSTDPDeltaSynapse>(id, n, lock);
    default: return proj<st::AdditiveSTDPDeltaSynapse>(id, n, lock);
  }
}
static UID id_of(const PopV &v) { return std::visit([](auto &x) { return x.get_uid(); }, v); }
static UID id_of_proj(const ProjV &v) { return std::visit([](auto &x) { return x.get_uid(); }, v); }
template <class T> static int mark(const T &x) { T copy = x; return copy.get_tags().template get_tag<int>("mark"); }
static void same_pop(const PopV &a, const PopV &b) {
  ks::check(a.index() == b.index(), "a population keeps its neuron type");
  if (a.index() != b.index()) return;
  std::visit([&b](auto &x) {
    auto &y = std::get<std::decay_t<decltype(x)>>(b);
    ks::check(ueq(x.get_uid(), y.get_uid()), "populations keep their UIDs and order");
    ks::check(mark(x) == mark(y), "a population keeps its tags");
    ks::check(x.size() == y.size(), "a population keeps its number of neurons");
    for (size_t i = 0; i < x.size() && i < y.size(); i++) ks::check(x[i].potential_ == y[i].potential_, "a population keeps its neurons");
  }, a);
}
static void same_proj(const ProjV &a, const ProjV &b) {
  ks::check(a.index() == b.index(), "a projection keeps its synapse type");
  if (a.index() != b.index()) return;
  std::visit([&b](auto &x) {
    auto &y = std::get<std::decay_t<decltype(x)>>(b);
    ks::check(ueq(x.get_uid(), y.get_uid()), "projections keep their UIDs and order");
    ks::check(ueq(x.get_presynaptic(), y.get_presynaptic()) && ueq(x.get_postsynaptic(), y.get_postsynaptic()), "a projection keeps its populations");
    ks::check(x.is_locked() == y.is_locked(), "a projection keeps its lock");
    ks::check(mark(x) == mark(y), "a projection keeps its tags");
    ks::check(x.size() == y.size(), "a projection keeps its number of synapses");
    for (size_t i = 0; i < x.size() && i < y.size(); i++) {
      const auto &s = std::get<0>(x[i]), &t = std::get<0>(y[i]);
      ks::check((s.weight_ == t.weight_) & (s.delay_ == t.delay_), "a projection keeps its synapses");
      ks::check((std::get<1>(x[i]) == std::get<1>(y[i])) & (std::get<2>(x[i]) == std::get<2>(y[i])), "a projection keeps the ends of its synapses");
    }
  }, a);
}
static void verify(B &b, const std::vector<PopV> &pops, const std::vector<ProjV> &projs) {
  auto data = b.get_network_data();
  size_t n = 0;
  for (auto &i = *data.population_range.first; i != *data.population_range.second; ++i, n++) {
    if (n < pops.size()) same_pop(*i, pops[n]);
    if (n > pops.size()) break;
  }
  ks::check(n == pops.size(), "the data range has exactly the loaded populations");
  n = 0;
  for (auto &i = *data.projection_range.first; i != *data.projection_range.second; ++i, n++) {
    if (n < projs.size()) same_proj(*i, projs[n]);
    if (n > projs.size()) break;
  }
  ks::check(n == projs.size(), "the data range has exactly the loaded projections");
  n = 0;
  for (auto i = b.begin_populations(); i != b.end_populations() && n < pops.size(); ++i, n++)
    ks::check(ueq(std::visit([](auto &x) { return x.get_uid(); }, *i), id_of(pops[n])), "the backend iterates its populations in order");
  ks::check(n == pops.size(), "the backend iterates exactly its populations");
  n = 0;
  for (auto i = b.begin_projections(); i != b.end_projections() && n < projs.size(); ++i, n++)
    ks::check(ueq(std::visit([](auto &x) { return x.get_uid(); }, i->arg_), id_of_proj(projs[n])), "the backend iterates its projections in order");
  ks::check(n == projs.size(), "the backend iterates exactly its projections");
  const knp::framework::Network net = knp::framework::synchronization::get_network_copy(b);
  ks::check(net.populations_count() == pops.size() && net.projections_count() == projs.size(), "the network copy has every population and projection");
  n = 0;
  for (auto i = net.begin_populations(); i != net.end_populations() && n < pops.size(); ++i, n++) same_pop(*i, pops[n]);
  n = 0;
  for (auto i = net.begin_projections(); i != net.end_projections() && n < projs.size(); ++i, n++) same_proj(*i, projs[n]);
}
static bool supported(const PopV &v, const B &b) { for (size_t i : b.get_supported_population_indexes()) if (i == v.index()) return true; return false; }
static bool supported(const ProjV &v, const B &b) { for (size_t i : b.get_supported_projection_indexes()) if (i == v.index()) return true; return false; }
static const char *const neuron_names[] = {"BLIFATNeuron", "SynapticResourceSTDPBLIFATNeuron", "AltAILIF", "SynapticResourceSTDPAltAILIFNeuron", "LIFNeuron"};
static const char *const synapse_names[] = {"DeltaSynapse", "AdditiveSTDPDeltaSynapse", "SynapticResourceSTDPDeltaSynapse"};
static bool named(const std::vector<std::string> &v, const std::string &name) { for (auto &x : v) if (x == name) return true; return false; }
extern "C" void knp_harness() {
  const size_t ops = knpsym_param(0), np = knpsym_param(1), nj = knpsym_param(2);
  ks::expect("done");
  ks::expect("removed");
#ifdef KNP_MT
  ks::expect("rejected");
  B b(1, 2, 2);
#else
  B b;
#endif
  std::vector<PopV> pops;
  std::vector<ProjV> projs;
  for (size_t op = 0; op < ops; op++) {
    switch (ks::choose(4, "operation")) {
      case 0: {
        std::vector<PopV> v;
        bool ok = true;
        const size_t n = ks::choose(np + 1, "populations");
        for (size_t i = 0; i < n; i++) {
          v.push_back(any_pop(1 + i, i ? ks::choose(2, "kind") * 3 : ks::choose(5, "kind"), i ? 1 : ks::choose(3, "neurons")));
          ok = ok && supported(v.back(), b);
        }
        bool threw = false;
        try { b.load_all_populations(v); } catch (const std::exception &) { threw = true; }
        for (auto &x : v) ks::check(supported(x, b) == named(b.get_supported_neurons(), neuron_names[x.index()]), "the names of the supported neurons are those of the supported indexes");
        ks::check(threw == !ok, "populations are rejected exactly when their neuron type is not supported");
        if (threw) { ks::reach("rejected"); return; }
        pops = v;
        break;
      }
      case 1: {
        std::vector<ProjV> v;
        bool ok = true;
        const size_t n = ks::choose(nj + 1, "projections");
        for (size_t i = 0; i < n; i++) {
          v.push_back(any_proj(20 + i, i ? ks::choose(2, "kind") : ks::choose(3, "kind"), i ? 1 : ks::choose(3, "synapses"), ks::choose(2, "locked")));
          ok = ok && supported(v.back(), b);
        }
        bool threw = false;
        try { b.load_all_projections(v); } catch (const std::exception &) { threw = true; }
        for (auto &x : v) ks::check(supported(x, b) == named(b.get_supported_synapses(), synapse_names[x.index()]), "the names of the supported synapses are those of the supported indexes");
        ks::check(threw == !ok, "projections are rejected exactly when their synapse type is not supported");
        if (threw) { ks::reach("rejected"); return; }
        projs = v;
        break;
      }
      case 2: {
        std::vector<UID> u;
        for (size_t k = ks::choose(3, "uids"); k > 0; k--) u.push_back(mkuid(1 + ks::range(0, np, "uid")));
        b.remove_populations(u);
        for (auto &x : u)
          for (size_t i = 0; i < pops.size(); i++) if (ueq(id_of(pops[i]), x)) { pops.erase(pops.begin() + i); ks::reach("removed"); break; }
        break;
      }
      default: {
        std::vector<UID> u;
        for (size_t k = ks::choose(3, "uids"); k > 0; k--) u.push_back(mkuid(20 + ks::range(0, nj, "uid")));
        b.remove_projections(u);
        for (auto &x : u)
          for (size_t i = 0; i < projs.size(); i++) if (ueq(id_of_proj(projs[i]), x)) { projs.erase(projs.begin() + i); ks::reach("removed"); break; }
      }
    }
    verify(b, pops, projs);
  }
  ks::reach("done");
}

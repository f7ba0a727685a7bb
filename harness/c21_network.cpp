// C21: a network holds exactly what was added and not removed.
// params: 0 operations, 1 operation kinds first, 2 operation kinds number, 3 populations and projections there from the start
#include <knp/framework/network.h>
#include "knpsym.h"
#include <vector>
namespace nt = knp::neuron_traits;
namespace st = knp::synapse_traits;
using knp::core::UID;
using Net = knp::framework::Network;
static UID uid(uint8_t last, uint8_t first) {
  std::array<uint8_t, 16> d{};
  for (int i = 0; i < 16; i++) d[i] = i * 7 + 1;
  d[15] = last;
  d[0] = first;
  return UID(d);
}
static UID some(uint8_t base, const char *name) { return uid(uint8_t(base + ks::range(0, 2, name)), 1); }
static bool ueq(const UID &a, const UID &b) { return memcmp(a.tag.data, b.tag.data, 16) == 0; }
struct Item { UID uid; unsigned type; double mark; UID pre, post; };
template <class N> struct PA;
template <> struct PA<nt::BLIFATNeuron> { static constexpr unsigned type = 0; };
template <> struct PA<nt::LIFNeuron> { static constexpr unsigned type = 1; };
template <class S> struct SA;
template <> struct SA<st::DeltaSynapse> { static constexpr unsigned type = 0; };
template <> struct SA<st::AdditiveSTDPDeltaSynapse> { static constexpr unsigned type = 1; };
template <class N> knp::core::Population<N> pop(const UID &u, float mark) {
  return {u, [=](size_t) { nt::neuron_parameters<N> p; p.potential_ = mark; return p; }, 1};
}
template <class S> knp::core::Projection<S> proj(const UID &u, const UID &a, const UID &b, float mark) {
  return {u, a, b, [=](size_t) { st::synapse_parameters<S> p; p.weight_ = mark; return std::make_tuple(p, size_t(0), size_t(0)); }, 1};
}
static std::vector<Item> pops, projs;
static int find(const std::vector<Item> &v, const UID &u) {
  for (size_t i = 0; i < v.size(); i++) if (ueq(v[i].uid, u)) return int(i);
  return -1;
}
template <class F> bool throws(F f) {
  try { f(); } catch (const std::exception &) { return true; }
  return false;
}
template <class N> void typed_pop(Net &n, const UID &u, int k) {
  const Net &c = n;
  const bool ok = k >= 0 && pops[k].type == PA<N>::type;
  bool t = throws([&] { auto &p = n.get_population<N>(u); ks::check(p.size() == 1 && ks::same(float(p[0].potential_), float(pops[k < 0 ? 0 : k].mark)), "lookup gives the population with its neurons"); });
  bool tc = throws([&] { auto &p = c.get_population<N>(u); ks::check(ueq(p.get_uid(), u), "constant lookup gives the population with the UID"); });
  ks::check(t == !ok && tc == !ok, "a typed population lookup succeeds exactly for a population of the type with the UID");
}
template <class S> void typed_proj(Net &n, const UID &u, int k) {
  const Net &c = n;
  const bool ok = k >= 0 && projs[k].type == SA<S>::type;
  bool t = throws([&] {
    auto &p = n.get_projection<S>(u);
    ks::check(p.size() == 1 && ks::same(std::get<0>(p[0]).weight_, float(projs[k < 0 ? 0 : k].mark)), "lookup gives the projection with its synapses");
    ks::check(ueq(p.get_presynaptic(), projs[k].pre) & ueq(p.get_postsynaptic(), projs[k].post), "a projection keeps its ends");
  });
  bool tc = throws([&] { auto &p = c.get_projection<S>(u); ks::check(ueq(p.get_uid(), u), "constant lookup gives the projection with the UID"); });
  ks::check(t == !ok && tc == !ok, "a typed projection lookup succeeds exactly for a projection of the type with the UID");
}
static void lookups(Net &n) {
  const Net &c = n;
  ks::check(n.populations_count() == pops.size() && n.get_populations().size() == pops.size(), "the number of populations is the number of those added and not removed");
  ks::check(n.projections_count() == projs.size() && n.get_projections().size() == projs.size(), "the number of projections is the number of those added and not removed");
  size_t k = 0;
  for (auto i = c.begin_populations(); i != c.end_populations(); ++i, ++k)
    ks::check(k < pops.size() && i->index() == (pops[k].type ? knp::core::AllPopulationsVariant(pop<nt::LIFNeuron>(uid(0, 0), 0)).index() : knp::core::AllPopulationsVariant(pop<nt::BLIFATNeuron>(uid(0, 0), 0)).index()) && std::visit([&](auto &p) { return ueq(p.get_uid(), pops[k].uid); }, *i), "iteration gives the populations in the order of addition");
  k = 0;
  for (auto i = n.begin_projections(); i != n.end_projections(); ++i, ++k)
    ks::check(k < projs.size() && std::visit([&](auto &p) { return ueq(p.get_uid(), projs[k].uid); }, *i), "iteration gives the projections in the order of addition");
  const UID u = some(10, "population_looked_up");
  int at = find(pops, u);
  ks::check(n.is_population_exists(u) == (at >= 0), "a population exists exactly when it was added and not removed");
  bool t = throws([&] { auto &v = n.get_population(u); ks::check(std::visit([&](auto &p) { return ueq(p.get_uid(), u); }, v), "lookup gives the population with the UID"); });
  ks::check(t == (at < 0), "population lookup fails exactly when there is none");
  typed_pop<nt::BLIFATNeuron>(n, u, at);
  typed_pop<nt::LIFNeuron>(n, u, at);
  const UID w = some(20, "projection_looked_up");
  at = find(projs, w);
  ks::check(n.is_projection_exists(w) == (at >= 0), "a projection exists exactly when it was added and not removed");
  t = throws([&] { auto &v = n.get_projection(w); ks::check(std::visit([&](auto &p) { return ueq(p.get_uid(), w); }, v), "lookup gives the projection with the UID"); });
  ks::check(t == (at < 0), "projection lookup fails exactly when there is none");
  typed_proj<st::DeltaSynapse>(n, w, at);
  typed_proj<st::AdditiveSTDPDeltaSynapse>(n, w, at);
  // names do not mix: a UID of a population is not a projection
  ks::check(!n.is_projection_exists(u) && !n.is_population_exists(w), "populations and projections are looked up apart");
}
template <class N> void add_pop(Net &n) {
  const UID u = some(10, "population");
  const float mark = ks::finite("potential");
  const unsigned how = ks::choose(3, "how");
  const bool dup = find(pops, u) >= 0;
  auto p = pop<N>(u, mark);
  bool t = throws([&] {
    if (how == 0) n.add_population<knp::core::Population<N>>(p);
    else if (how == 1) n.add_population<knp::core::Population<N>>(std::move(p));
    else n.add_population(knp::core::AllPopulationsVariant(std::move(p)));
  });
  ks::check(t == dup, "a population is refused exactly when its UID is in the network");
  if (how == 0) ks::check(p.size() == 1 && ueq(p.get_uid(), u), "a copied population stays with its owner");
  if (!dup) pops.push_back({u, PA<N>::type, mark, u, u});
}
template <class S> void add_proj(Net &n) {
  const UID u = some(20, "projection"), a = some(10, "presynaptic"), b = some(11, "postsynaptic");
  const float mark = ks::finite("weight");
  const unsigned how = ks::choose(4, "how");
  const bool dup = find(projs, u) >= 0;
  auto p = proj<S>(u, a, b, mark);
  bool t = throws([&] {
    if (how == 0) n.add_projection<knp::core::Projection<S>>(p);
    else if (how == 1) n.add_projection<knp::core::Projection<S>>(std::move(p));
    else if (how == 2) n.add_projection(knp::core::AllProjectionsVariant(std::move(p)));
    else n.add_projection<S>(u, a, b, [=](size_t) { st::synapse_parameters<S> q; q.weight_ = mark; return std::make_tuple(q, size_t(0), size_t(0)); }, 1);
  });
  ks::check(t == dup, "a projection is refused exactly when its UID is in the network");
  if (how == 0) ks::check(p.size() == 1 && ueq(p.get_uid(), u), "a copied projection stays with its owner");
  if (!dup) projs.push_back({u, SA<S>::type, mark, a, b});
}
static void remove_pop(Net &n) {
  const UID u = some(10, "population_removed");
  const int k = find(pops, u);
  ks::check(throws([&] { n.remove_population(u); }) == (k < 0), "removal fails exactly when there is no such population");
  if (k >= 0) { pops.erase(pops.begin() + k); ks::reach("removed"); }
}
static void remove_proj(Net &n) {
  const UID u = some(20, "projection_removed");
  const int k = find(projs, u);
  ks::check(throws([&] { n.remove_projection(u); }) == (k < 0), "removal fails exactly when there is no such projection");
  if (k >= 0) { projs.erase(projs.begin() + k); ks::reach("removed"); }
}
static void connect(Net &n) {
  const UID a = some(10, "source"), b = some(10, "destination");
  const size_t before = n.projections_count();
  auto x = pop<nt::BLIFATNeuron>(a, 0);
  auto y = pop<nt::LIFNeuron>(b, 0);
  const bool ok = find(pops, a) >= 0 && find(pops, b) >= 0;
  const float mark = ks::finite("weight");
  const unsigned how = ks::choose(2, "generator");
  UID got{false};
  bool t = throws([&] {
    st::synapse_parameters<st::DeltaSynapse> q;
    q.weight_ = mark;
    if (how) got = n.connect_populations<st::DeltaSynapse>(x, y, [=](size_t, size_t) { return q; });
    else got = n.connect_populations<st::DeltaSynapse>(x, y, [=](size_t) { return std::make_tuple(q, size_t(0), size_t(0)); }, 1);
  });
  ks::check(t == !ok, "only populations of the network are connected");
  ks::check(n.projections_count() == before + (t ? 0 : 1), "connecting adds one projection");
  if (t) return;
  ks::check(n.is_projection_exists(got), "the new projection is found by the UID returned");
  auto &p = n.get_projection<st::DeltaSynapse>(got);
  ks::check(ueq(p.get_presynaptic(), a) & ueq(p.get_postsynaptic(), b) & (p.size() == 1), "the new projection connects the given populations");
  ks::check(ks::same(std::get<0>(p[0]).weight_, mark), "the new projection has the given synapses");
  n.remove_projection(got);
  ks::check(n.projections_count() == before && !n.is_projection_exists(got), "removing the new projection restores the network");
}
extern "C" void knp_harness() {
  ks::expect("removed");
  Net n;
  if (ks::choose(2, "with_uid")) { Net m(uid(200, 3)); ks::check(ueq(m.get_uid(), uid(200, 3)), "a network has the UID given"); n = m; }
  for (unsigned i = 0; i < knpsym_param(3); i++) {
    const UID u = uid(uint8_t(10 + i), 1), w = uid(uint8_t(20 + i), 1), b = uid(11, 1);
    const float m = ks::finite("first_potential"), v = ks::finite("first_weight");
    n.add_population(pop<nt::LIFNeuron>(u, m));
    n.add_projection(proj<st::DeltaSynapse>(w, u, b, v));
    pops.push_back({u, 1, m, u, u});
    projs.push_back({w, 0, v, u, b});
  }
  for (unsigned i = 0; i < knpsym_param(0); i++) {
    switch (knpsym_param(1) + ks::choose(knpsym_param(2), "operation")) {
      case 0: add_pop<nt::BLIFATNeuron>(n); break;
      case 1: add_pop<nt::LIFNeuron>(n); break;
      case 2: remove_pop(n); break;
      case 3: connect(n); break;
      case 4: remove_proj(n); break;
      case 5: add_proj<st::DeltaSynapse>(n); break;
      default: add_proj<st::AdditiveSTDPDeltaSynapse>(n); break;
    }
  }
  lookups(n);
  Net copy(n);
  lookups(copy);
}

// C23: projection creators and synapse generators.
// params: 0 mode (0 generators with symbolic sizes and index, 1 creators with concrete sizes and symbolic parameters), 1 largest size, 2 smallest creator, 3 number of creators
#include <knp/framework/projection/connectors.h>
#include <knp/framework/projection/creators.h>
#include <knp/framework/projection/synapse_generators.h>
#include "knpsym.h"
#include <map>
#include <set>
#include <vector>
namespace st = knp::synapse_traits;
namespace fp = knp::framework::projection;
using S = st::DeltaSynapse;
using SP = st::synapse_parameters<S>;
using R = st::SynapticResourceSTDPDeltaSynapse;
using RP = st::synapse_parameters<R>;
using P = knp::core::Projection<S>;
using knp::core::UID;
static UID mk(unsigned k) {
  std::array<uint8_t, 16> d{};
  for (int i = 0; i < 16; i++) d[i] = k * 29 + i * 7 + 1;
  return UID(d);
}
// what the parameter function gives for a pair
static float wt(size_t i, size_t j) { return float(i * 64 + j); }
static SP par(size_t i, size_t j) { SP p; p.weight_ = wt(i, j); p.delay_ = 3; p.output_type_ = st::OutputType::DOPAMINE; return p; }
struct Pair { size_t i, j; };
static Pair at(const P::SynapseGenerator &g, size_t x, bool weight = true) {
  auto s = g(x);
  ks::check(s.has_value(), "the generator gives a synapse for every index of the projection");
  if (!s) return {0, 0};
  if (weight) ks::check(ks::same(std::get<0>(*s).weight_, wt(std::get<1>(*s), std::get<2>(*s))) & (std::get<0>(*s).delay_ == 3) & (std::get<0>(*s).output_type_ == st::OutputType::DOPAMINE), "the synapse has the parameters given for its pair");
  return {std::get<1>(*s), std::get<2>(*s)};
}
static void generators() {
  const size_t most = knpsym_param(1);
  const unsigned kind = ks::choose(4, "kind");
  const size_t n = ks::range(1, most, "pre"), m = ks::range(1, most, "post");
  const size_t x = ks::range(0, most * most, "index"), y = ks::range(0, most * most, "index");
  knpsym_assume(x < y);
  if (kind == 0) {
    knpsym_assume(y < n * m);
    auto g = fp::synapse_generators::all_to_all<S>(n, m, par);
    Pair a = at(g, x), b = at(g, y);
    ks::check((a.i < n) & (a.j < m), "all to all: every index is inside its population");
    ks::check((a.i != b.i) | (a.j != b.j), "all to all: no pair is connected twice");
  } else if (kind == 1) {
    const size_t big = n < m ? m : n;
    knpsym_assume(y < big);
    auto g = fp::synapse_generators::aligned<S>(n, m, par);
    Pair a = at(g, x), b = at(g, y);
    ks::check((b.i < n) & (b.j < m), "aligned: every index is inside its population");
    ks::check((n < m ? a.j : a.i) == x, "aligned: every neuron of the larger population is connected once, in order");
    ks::check((n < m ? a.i <= b.i : a.j <= b.j), "aligned: neurons of the smaller population are connected in order");
    // even distribution: with q = big / small, a neuron of the smaller population has q or q + 1 partners
    const size_t small = n < m ? n : m;
    const size_t ga = n < m ? a.i : a.j, gb = n < m ? b.i : b.j;
    if (y - x >= (big + small - 1) / small) ks::check(ga != gb, "aligned: connections are distributed evenly (not too many for one neuron)");
    ks::check(gb - ga <= y - x, "aligned: no neuron of the smaller population is skipped");
    if (y == big - 1) ks::check(gb == small - 1, "aligned: the last neurons are connected");
    if (x == 0) ks::check(ga == 0, "aligned: the first neurons are connected");
  } else if (kind == 2) {
    knpsym_assume(y < n * (n - 1));
    auto g = fp::synapse_generators::exclusive<S>(n, par);
    Pair a = at(g, x), b = at(g, y);
    ks::check((a.i < n) & (a.j < n), "exclusive: every index is inside its population");
    ks::check(a.i != a.j, "exclusive: no neuron is connected to the neuron of the same index");
    ks::check((a.i != b.i) | (a.j != b.j), "exclusive: no pair is connected twice");
  } else {
    auto g = fp::synapse_generators::index_based<S>(n, m, [](size_t i, size_t j) { return (i + j) & 1 ? std::optional<SP>(par(i, j)) : std::nullopt; });
    knpsym_assume(y < n * m);
    auto s = g(x), t = g(y);
    if (s && t) {
      size_t i = std::get<1>(*s), j = std::get<2>(*s), k = std::get<1>(*t), l = std::get<2>(*t);
      ks::check((i < n) & (j < m), "index based: every index is inside its population");
      ks::check((i != k) | (j != l), "index based: no pair is connected twice");
      ks::check(((i + j) & 1) != 0, "index based: only pairs with parameters are connected");
      ks::reach("both");
    }
  }
  ks::reach("generator");
}
static void creators() {
  const size_t most = knpsym_param(1);
  const unsigned kind = knpsym_param(2) + ks::choose(knpsym_param(3), "kind");
  const size_t n = 1 + ks::choose(most, "pre"), m = 1 + ks::choose(most, "post");
  const UID a = mk(1), b = mk(2);
  std::vector<float> w(n * m);
  std::vector<unsigned> asked(n * m, 0);
  auto index = [&](size_t i, size_t j) { ks::check(i < n && j < m, "parameters are asked for pairs inside the populations only"); return i < n && j < m ? i * m + j : 0; };
  for (auto &v : w) v = ks::sym<float>("weight");
  auto f = [&](size_t i, size_t j) { SP p; p.weight_ = w[index(i, j)]; asked[index(i, j)]++; return p; };
  std::vector<unsigned> count(n * m, 0);
  std::vector<bool> want(n * m, false);
  bool weights = true, exact = true;
  size_t total = 0;
  std::optional<P> p;
  unsigned row = 0, col = 0;  // fixed number of synapses of each presynaptic or postsynaptic neuron
  UID ea = a, eb = b;
  switch (kind) {
    case 0: p.emplace(fp::creators::all_to_all<S>(a, b, n, m, f)); want.assign(n * m, true); break;
    case 1:
      p.emplace(fp::creators::aligned<S>(a, b, n, m, f));
      exact = false;
      total = n < m ? m : n;
      break;
    case 2:
      if (n != m) return;
      p.emplace(fp::creators::exclusive<S>(a, b, n, f));
      for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) want[i * m + j] = i != j;
      break;
    case 3:
      if (n != m) return;
      p.emplace(fp::creators::one_to_one<S>(a, b, n, [&](size_t i) { return f(i, i); }));
      for (size_t i = 0; i < n; i++) want[i * m + i] = true;
      break;
    case 4: case 5: {  // a container or a map of chosen pairs
      std::vector<P::Synapse> c;
      std::map<std::tuple<size_t, size_t>, SP> mp;
      for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) if (ks::sym<bool>("chosen")) {
        SP q = f(i, j);
        want[i * m + j] = true;
        c.emplace_back(q, i, j);
        mp[{i, j}] = q;
      }
      if (kind == 4) {
        p.emplace(fp::creators::from_container<S, std::vector>(a, b, c));
        ks::check(p->size() == c.size(), "from container: every synapse is taken");
        for (size_t k = 0; k < c.size() && k < p->size(); k++) ks::check(std::get<1>((*p)[k]) == std::get<1>(c[k]) && std::get<2>((*p)[k]) == std::get<2>(c[k]), "from container: synapses keep their order");
      } else p.emplace(fp::creators::from_map<S, std::map>(a, b, mp));
      break;
    }
    case 6: {
      bool chosen[16] = {};
      for (size_t k = 0; k < n * m && k < 16; k++) chosen[k] = ks::sym<bool>("chosen");
      p.emplace(fp::creators::index_based<S>(a, b, n, m, [&](size_t i, size_t j) { return chosen[index(i, j)] ? std::optional<SP>(f(i, j)) : std::nullopt; }));
      for (size_t k = 0; k < n * m && k < 16; k++) want[k] = chosen[k];
      break;
    }
    case 7: {  // clone a projection of another type with the same pairs
      std::vector<std::pair<size_t, size_t>> pairs;
      size_t k = ks::choose(3, "synapses");
      for (size_t i = 0; i < k; i++) pairs.emplace_back(ks::range(0, n - 1, "from"), ks::range(0, m - 1, "to"));
      knp::core::Projection<R> src(a, b, [&](size_t i) { RP q; q.weight_ = 77; return std::make_tuple(q, pairs[i].first, pairs[i].second); }, k);
      const bool other = ks::choose(2, "uids");
      std::vector<float> sw(k);
      for (auto &v : sw) v = ks::sym<float>("weight");
      p.emplace(fp::creators::clone_projection<S, R>(src, [&](size_t i) { SP q; q.weight_ = sw[i]; return q; }, other ? std::optional<UID>(mk(3)) : std::nullopt, other ? std::optional<UID>(mk(4)) : std::nullopt));
      if (other) { ea = mk(3); eb = mk(4); }
      ks::check(p->size() == k, "clone: every synapse is cloned once");
      for (size_t i = 0; i < k && i < p->size(); i++) {
        ks::check((std::get<1>((*p)[i]) == pairs[i].first) & (std::get<2>((*p)[i]) == pairs[i].second), "clone: the pairs are the pairs of the source");
        ks::check(ks::same(std::get<0>((*p)[i]).weight_, sw[i]), "clone: the parameters are the ones given for the synapse index");
      }
      ks::check(src.size() == k, "clone: the source is unchanged");
      exact = false; weights = false; total = k;
      break;
    }
    case 8: case 9: {  // random partners
      const unsigned k = ks::choose(3, "number");
      if (kind == 8) { p.emplace(fp::creators::fixed_number_post<S>(a, b, n, m, k, f)); row = k; total = n * k; }
      else { p.emplace(fp::creators::fixed_number_pre<S>(a, b, n, m, k, f)); col = k; total = m * k; }
      exact = false;
      break;
    }
    case 10: {
      const unsigned q = ks::choose(5, "probability");
      const double prob[] = {0, 1, 0.5, -0.25, 1.5};
      bool refused = false;
      try { p.emplace(fp::creators::fixed_probability<S>(a, b, n, m, prob[q], f)); } catch (const std::logic_error &) { refused = true; }
      ks::check(refused == (q > 2), "fixed probability: exactly the probabilities outside [0, 1] are refused");
      if (refused) return;
      if (q < 2) want.assign(n * m, q == 1);
      exact = q < 2;
      total = p->size();
      break;
    }
    default: {
      using N = knp::neuron_traits::BLIFATNeuron;
      using NP = knp::neuron_traits::neuron_parameters<N>;
      knp::core::Population<N> x(a, [](size_t) { return NP{}; }, n), y(b, [](size_t) { return NP{}; }, m);
      if (ks::choose(2, "how")) {
        p.emplace(fp::connect_populations<S>(x, y, f));
        want.assign(n * m, true);
      } else {
        p.emplace(fp::connect_populations<S>(x, y, [&](size_t k) { return P::Synapse(f(k % n, 0), k % n, 0); }, n));
        for (size_t i = 0; i < n; i++) want[i * m] = true;
      }
    }
  }
  ks::check(memcmp(p->get_presynaptic().tag.data, ea.tag.data, 16) == 0 && memcmp(p->get_postsynaptic().tag.data, eb.tag.data, 16) == 0, "the projection connects the given populations");
  std::vector<unsigned> rows(n, 0), cols(m, 0);
  for (auto &s : *p) {
    size_t i = std::get<1>(s), j = std::get<2>(s);
    ks::check((i < n) & (j < m), "every index is inside its population");
    if (!((i < n) & (j < m))) return;
    count[i * m + j]++;
    rows[i]++;
    cols[j]++;
    if (weights) ks::check(ks::same(std::get<0>(s).weight_, w[i * m + j]), "every synapse has the parameters given for its pair");
  }
  if (exact) {
    for (size_t k = 0; k < n * m; k++) ks::check(count[k] == (want[k] ? 1 : 0), "exactly the documented pairs are connected, each once");
  } else ks::check(p->size() == total, "the documented number of synapses is created");
  if (row) for (auto r : rows) ks::check(r == row, "fixed number: every presynaptic neuron has the given number of synapses");
  if (col) for (auto c : cols) ks::check(c == col, "fixed number: every postsynaptic neuron has the given number of synapses");
  if (kind == 1) {
    auto &big = n < m ? cols : rows;
    auto &small = n < m ? rows : cols;
    for (auto c : big) ks::check(c == 1, "aligned: every neuron of the larger population has one synapse");
    for (auto c : small) ks::check(c >= total / small.size() && c <= (total + small.size() - 1) / small.size(), "aligned: connections are distributed evenly");
  }
  if (kind == 10 && !exact) for (auto c : count) ks::check(c <= 1, "fixed probability: no pair is connected twice");
  ks::reach("creator");
}
extern "C" void knp_harness() {
  if (knpsym_param(0) == 0) { ks::expect("generator"); generators(); }
  else { ks::expect("creator"); creators(); }
}

// C26: message handlers emit only spikes they are allowed to emit. The generators of the handlers give arbitrary values (random_model.h).
// params: 0 handler (0 k winners, 1 winning groups, 2 winners per group, 3 union), 1 spikes, 2 borders or messages, 3 largest k, 4 calls, 5 indexes and borders are below 8
#include <knp/framework/message_handlers.h>
#include "knpsym.h"
namespace mod = knp::framework::modifier;
using knp::core::messaging::SpikeData;
using knp::core::messaging::SpikeMessage;
static uint32_t any(const char *name) { return knpsym_param(5) ? ks::range(0, 7, name) : ks::sym<uint32_t>(name); }
static SpikeMessage message(unsigned most, bool distinct) {
  SpikeMessage m{{knp::core::UID(false), 3}, {}};
  for (unsigned i = 0, k = ks::choose(most + 1, "spikes"); i < k; i++) {
    const uint32_t x = any("index");
    if (distinct) for (auto y : m.neuron_indexes_) knpsym_assume(x != y);
    m.neuron_indexes_.push_back(x);
  }
  return m;
}
static bool has(const SpikeData &d, uint32_t x) { bool r = false; for (auto y : d) r |= x == y; return r; }
static void subset(const SpikeData &out, const SpikeData &in) {
  for (size_t i = 0; i < out.size(); i++) {
    ks::check(has(in, out[i]), "only spikes of the input are emitted");
    for (size_t j = 0; j < i; j++) ks::check(out[i] != out[j], "no spike is emitted twice");
  }
}
// other messages than the first are ignored
static std::vector<SpikeMessage> input(const SpikeMessage &m) {
  std::vector<SpikeMessage> v{m};
  if (ks::choose(2, "another")) v.push_back(SpikeMessage{{knp::core::UID(false), 3}, {0, 1, 2}});
  return v;
}
extern "C" void knp_harness() {
  const unsigned n = knpsym_param(1), nb = knpsym_param(2), kmax = knpsym_param(3), calls = knpsym_param(4) ? knpsym_param(4) : 1;
  ks::expect("end");
  if (knpsym_param(0) == 3) {
    mod::SpikeUnionHandler h;
    std::vector<SpikeMessage> v;
    std::vector<uint32_t> all;
    for (unsigned i = 0, k = ks::choose(nb + 1, "messages"); i < k; i++) {
      SpikeMessage m{{knp::core::UID(false), 3}, {}};
      for (unsigned j = 0, c = ks::choose(n + 1, "spikes"); j < c; j++) m.neuron_indexes_.push_back(ks::range(0, 3, "index") * 1000003u);
      for (auto x : m.neuron_indexes_) all.push_back(x);
      v.push_back(m);
    }
    const auto out = h(v);
    subset(out, all);
    for (auto x : all) ks::check(has(out, x), "every spike of a message is in the union");
    ks::reach("end");
    return;
  }
  const size_t k = ks::choose(kmax + 1, "k");
  std::vector<size_t> borders;
  for (unsigned i = 0, c = knpsym_param(0) == 0 ? 0 : ks::choose(nb + 1, "borders"); i < c; i++) borders.push_back(any("border"));
  const int seed = ks::sym<int>("seed");
  mod::KWtaRandomHandler h0(k, seed);
  mod::GroupWtaRandomHandler h1(borders, k, seed);
  mod::KWtaPerGroup h2(borders, k, seed);
  for (unsigned call = 0; call < calls; call++) {
    const SpikeMessage m = message(n, true);
    const SpikeData in = m.neuron_indexes_;
    std::vector<SpikeMessage> v = input(m), none;
    if (knpsym_param(0) == 0) {
      ks::check(h0(none).empty(), "no message, no spikes");
      const auto out = h0(v);
      subset(out, in);
      ks::check(out.size() == std::min(in.size(), k), "k spikes win, all of them when there are no more than k");
      ks::reach("end");
      continue;
    }
    // the group of a spike is the number of borders not above it
    std::vector<size_t> group, size(borders.size() + 1, 0), won(borders.size() + 1, 0);
    for (auto x : in) { size_t g = 0; for (auto b : borders) g += b <= x; group.push_back(g); }
    for (size_t g = 0; g < size.size(); g++) for (auto x : group) size[g] += x == g;
    if (knpsym_param(0) == 1) ks::check(h1(none).empty(), "no message, no spikes");
    else ks::check(h2(none).empty(), "no message, no spikes");
    const auto out = knpsym_param(0) == 1 ? h1(v) : h2(v);
    subset(out, in);
    for (size_t g = 0; g < size.size(); g++)
      for (size_t i = 0; i < in.size(); i++) won[g] += (group[i] == g) & has(out, in[i]);
    size_t winners = 0, active = 0;
    for (size_t g = 0; g < size.size(); g++) {
      if (knpsym_param(0) == 2) {
        ks::check(won[g] == (size[g] < k ? size[g] : k), "k spikes of a group win, all of them when there are no more than k");
        continue;
      }
      ks::check((won[g] == 0) | (won[g] == size[g]), "whole groups win");
      winners += won[g] != 0;
      active += size[g] != 0;
      for (size_t o = 0; o < size.size(); o++) ks::check((won[g] != 0) | (won[o] == 0) | (size[g] <= size[o]), "no group loses against a less active one");
    }
    if (knpsym_param(0) == 1) ks::check(winners == (active < k ? active : k), "k groups win, all of them when there are no more than k");
    ks::reach("end");
  }
}

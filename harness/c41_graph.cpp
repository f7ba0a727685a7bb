// C41: the graph that is drawn and described is the network's.
// params: 0 mode (0 graph, parts and description, 1 names, 2 positions), 1 populations, 2 projections, 3 steps of the layout
#include "backend_common.h"
#include <knp/framework/network.h>
#include <knp/framework/visualizer/visualize_network.h>
#include <knp/framework/population/neuron_parameters_generators.h>
#include <algorithm>
#include <iostream>
#include <sstream>
namespace fw = knp::framework;
static UID byte_uid(uint8_t b) {
  UID u(false);
  for (int i = 0; i < 15; i++) u.tag.data[i] = b ? uint8_t(16 * i + 3) : 0;
  u.tag.data[15] = b;
  u.tag.data[0] = b;
  return u;
}
static const size_t sizes[3] = {2, 1, 3};
static unsigned np, nj;
static std::vector<unsigned> pre, post, count;  // ends: 0 is no population, 1.. the populations of the network, np + 1 one that is not in it
static void name(knp::core::TagMap &tags, unsigned kind, unsigned i) {  // 0 no name, 1 a name, 2 an empty name, 3 a number
  if (kind == 1) tags["name"] = std::string("n") + char('a' + i);
  if (kind == 2) tags["name"] = std::string();
  if (kind == 3) tags["name"] = int(i);
}
static std::string named(unsigned kind, unsigned i, const UID &u) {
  if (kind == 1) return std::string("n") + char('a' + i);
  return std::string(u).substr(0, 8);
}
template <class N> static knp::core::Population<N> pop(unsigned i, unsigned kind = 0) {
  knp::core::Population<N> p(byte_uid(uint8_t(1 + i)), [](size_t) { return nt::neuron_parameters<N>(); }, sizes[i % 3]);
  name(p.get_tags(), kind, i);
  return p;
}
template <class S> static knp::core::Projection<S> proj(unsigned j, unsigned kind = 0) {
  knp::core::Projection<S> p(byte_uid(uint8_t(100 + j)), byte_uid(uint8_t(pre[j])), byte_uid(uint8_t(post[j])), [](size_t) { return std::make_tuple(st::synapse_parameters<S>(), size_t(0), size_t(0)); }, count[j]);
  name(p.get_tags(), kind, 20 + j);
  return p;
}
static std::vector<unsigned> popkind, projkind;
static fw::Network build() {
  fw::Network net;
  for (unsigned i = 0; i < np; i++) {
    if (i % 2) net.add_population(pop<nt::LIFNeuron>(i, popkind[i]));
    else net.add_population(pop<nt::BLIFATNeuron>(i, popkind[i]));
  }
  for (unsigned j = 0; j < nj; j++) {
    if (j % 2) net.add_projection(proj<st::AdditiveSTDPDeltaSynapse>(j, projkind[j]));
    else net.add_projection(proj<st::DeltaSynapse>(j, projkind[j]));
  }
  return net;
}
static int inside(unsigned end) { return end >= 1 && end <= np ? int(end) - 1 : -1; }
static void graph_is_networks(const fw::NetworkGraph &g, const fw::Network &net) {
  ks::check(g.nodes_.size() == np && g.edges_.size() == nj, "one node for a population, one edge for a projection");
  if (g.nodes_.size() != np || g.edges_.size() != nj) return;
  std::vector<int> at(np, -1);  // node of a population
  for (unsigned i = 0; i < np; i++) {
    for (unsigned k = 0; k < np; k++)
      if (ueq(g.nodes_[k].uid_, byte_uid(uint8_t(1 + i)))) at[i] = int(k);
    ks::check(at[i] >= 0, "every population is a node");
    if (at[i] < 0) return;
    const auto &n = g.nodes_[at[i]];
    ks::check(n.size_ == sizes[i % 3], "a node has the population's size");
    ks::check(n.name_ == named(popkind[i], i, byte_uid(uint8_t(1 + i))), "a node has the population's name or the start of its UID");
    ks::check(n.type_ == net.get_populations()[at[i]].index() && ueq(n.uid_, std::visit([](const auto &p) { return p.get_uid(); }, net.get_populations()[at[i]])), "nodes come in the order of the populations, with their types");
  }
  for (unsigned j = 0; j < nj; j++) {
    int e = -1;
    for (unsigned k = 0; k < nj; k++)
      if (ueq(g.edges_[k].uid_, byte_uid(uint8_t(100 + j)))) e = int(k);
    ks::check(e >= 0, "every projection is an edge");
    if (e < 0) return;
    const auto &x = g.edges_[e];
    ks::check(x.size_ == count[j], "an edge has the projection's size");
    ks::check(x.name_ == named(projkind[j], 20 + j, byte_uid(uint8_t(100 + j))), "an edge has the projection's name or the start of its UID");
    ks::check(x.type_ == net.get_projections()[e].index(), "an edge has the projection's type");
    const int a = inside(pre[j]), b = inside(post[j]);
    ks::check(x.index_from_ == (a < 0 ? -1 : at[a]), "an edge starts at its presynaptic population");
    ks::check(x.index_to_ == (b < 0 ? -1 : at[b]), "an edge ends at its postsynaptic population");
  }
}
static void parts(const fw::NetworkGraph &g, std::vector<std::vector<int>> &sets) {
  sets = fw::divide_graph_by_connectivity(g);
  std::vector<unsigned> root(np);
  for (unsigned i = 0; i < np; i++) root[i] = i;
  for (unsigned round = 0; round < np; round++)
    for (const auto &e : g.edges_)
      if (e.index_from_ >= 0 && e.index_to_ >= 0) root[e.index_from_] = root[e.index_to_] = std::min(root[e.index_from_], root[e.index_to_]);
  std::vector<int> part(np, -1);
  bool partition = true;
  for (size_t s = 0; s < sets.size(); s++) {
    ks::check(!sets[s].empty(), "no part is empty");
    ks::check(std::is_sorted(sets[s].begin(), sets[s].end()), "a part lists its nodes in order");
    for (int n : sets[s]) {
      if (n < 0 || unsigned(n) >= np || part[n] != -1) partition = false;
      else part[n] = int(s);
    }
  }
  for (unsigned i = 0; i < np; i++) partition = partition && part[i] != -1;
  ks::check(partition, "every node is in exactly one part");
  if (!partition) return;
  for (unsigned i = 0; i < np; i++)
    for (unsigned k = i + 1; k < np; k++) ks::check((part[i] == part[k]) == (root[i] == root[k]), "two nodes share a part exactly if projections connect them");
  if (sets.size() > 1) ks::reach("parts");
}
static std::vector<std::string> marks(const std::string &s) {  // what follows each #
  std::vector<std::string> r;
  for (size_t i = 0; i < s.size(); i++)
    if (s[i] == '#') {
      size_t e = i + 1;
      while (e < s.size() && s[e] != ' ' && s[e] != ';' && s[e] != ':') e++;
      r.push_back(s.substr(i + 1, e - i - 1));
    }
  std::sort(r.begin(), r.end());
  return r;
}
static std::string digit(int n) { return std::string(1, char('0' + n)); }
static void description(const fw::NetworkGraph &g) {
  std::stringbuf text;
  std::streambuf *before = std::cout.rdbuf(&text);
  fw::print_network_description(g);
  std::cout.rdbuf(before);
  const std::string all = text.str();
  std::vector<unsigned> seen(np, 0);
  size_t start = 0;
  while (start < all.size()) {
    size_t end = all.find('\n', start);
    if (end == std::string::npos) end = all.size();
    const std::string line = all.substr(start, end - start);
    start = end + 1;
    if (line.empty()) continue;
    const size_t from = line.find("receive from"), to = line.find("send to");
    ks::check(from != std::string::npos && to != std::string::npos && from < to, "a line says what a population receives and sends");
    if (from == std::string::npos || to == std::string::npos || from > to) return;
    const auto head = marks(line.substr(0, from));
    ks::check(head.size() == 1, "a line is about one population");
    if (head.size() != 1) return;
    unsigned n = np;
    for (unsigned i = 0; i < np; i++) if (head[0] == digit(int(i))) n = i;
    ks::check(n < np, "a line is about a population of the network");
    if (n >= np) return;
    seen[n]++;
    ks::check(line.substr(0, from).find("size " + digit(int(g.nodes_[n].size_))) != std::string::npos, "a line gives the population's size");
    std::vector<std::string> in, out;
    for (const auto &e : g.edges_) {
      if (e.index_to_ == int(n)) in.push_back(e.index_from_ < 0 ? "INPUT" : digit(e.index_from_));
      if (e.index_from_ == int(n) && e.index_to_ >= 0) out.push_back(digit(e.index_to_));
    }
    std::sort(in.begin(), in.end());
    std::sort(out.begin(), out.end());
    ks::check(marks(line.substr(from, to - from)) == in, "a population receives from the sources of its projections");
    ks::check(marks(line.substr(to)) == out, "a population sends to the targets of its projections");
    if (!in.empty() && !out.empty()) ks::reach("described");
  }
  for (unsigned i = 0; i < np; i++) ks::check(seen[i] == 1, "every population is described once");
}
extern "C" void knp_harness() {
  const unsigned mode = knpsym_param(0);
  for (auto *v : {&pre, &post, &count, &popkind, &projkind}) v->clear();
  np = mode == 0 ? ks::choose(knpsym_param(1) + 1, "populations") : knpsym_param(1);
  nj = mode == 0 ? ks::choose(knpsym_param(2) + 1, "projections") : knpsym_param(2);
  for (unsigned i = 0; i < np; i++) popkind.push_back(mode == 1 ? ks::choose(4, "pop_name") : 0);
  for (unsigned j = 0; j < nj; j++) {
    projkind.push_back(mode == 1 ? ks::choose(4, "proj_name") : 0);
    count.push_back(mode == 2 ? 1 : ks::choose(2, "synapses") * 3);
    pre.push_back(mode == 1 ? 1 : unsigned(ks::range(0, np + 1, "pre")));
    post.push_back(mode == 1 ? np : unsigned(ks::range(0, np + 1, "post")));
  }
  const fw::Network net = build();
  const fw::NetworkGraph g(net);
  graph_is_networks(g, net);
  std::vector<std::vector<int>> sets;
  if (mode == 0) {
    ks::expect("parts");
    ks::expect("described");
    parts(g, sets);
    description(g);
  }
  if (mode == 2) {
    ks::expect("placed");
    sets = fw::divide_graph_by_connectivity(g);
    const int width = 640, height = 480, margin = 50;
    for (const auto &s : sets) {
      const auto points = fw::position_network(g, s, cv::Size(width, height), margin, int(knpsym_param(3)));
      ks::check(points.size() == s.size(), "every node of a part has a place");
      for (const auto &p : points) {
        ks::check(p.x >= margin && p.x <= width - margin, "a place is within the margins across");
        ks::check(p.y >= margin && p.y <= height - margin, "a place is within the margins down");
        ks::reach("placed");
      }
    }
  }

}

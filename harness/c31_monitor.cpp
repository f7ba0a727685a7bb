// C31: monitoring observes exactly the messages of the senders it watches.
// params: 0 mode (0 observer, 1 aggregated spikes logger, 2 spikes logger, 3 weights logger), 1 rounds or steps, 2 messages per round or spikes per step, 3 largest period; weights logger: 2 synapses of a projection
#include "backend_common.h"
#include <knp/framework/model.h>
#include <knp/framework/model_executor.h>
#include <knp/framework/monitoring/model.h>
#include <knp/framework/monitoring/observer.h>
#include <map>
#include <sstream>
namespace fw = knp::framework;
namespace mon = knp::framework::monitoring;
using knp::core::messaging::SpikeData;
template <class M> static M make(const UID &from, uint64_t step, uint32_t index);
template <> SpikeMessage make<SpikeMessage>(const UID &from, uint64_t step, uint32_t index) { return SpikeMessage{{from, step}, {index}}; }
template <> SynapticImpactMessage make<SynapticImpactMessage>(const UID &from, uint64_t step, uint32_t index) { return SynapticImpactMessage{{from, step}, UID(false), UID(false), false, {{0, 1.f, OT::EXCITATORY, index, 0}}}; }
static uint32_t content(const SpikeMessage &m) { return m.neuron_indexes_.size() == 1 ? m.neuron_indexes_[0] : ~0u; }
static uint32_t content(const SynapticImpactMessage &m) { return m.impacts_.size() == 1 ? m.impacts_[0].presynaptic_neuron_index_ : ~0u; }
template <class M, class Other> static void observer() {
  auto bus = knp::core::MessageBus::construct_cpu_bus();
  auto sender = bus->create_endpoint();
  std::vector<std::vector<M>> seen;
  mon::MessageObserver<M> built(bus->create_endpoint(), [&](const std::vector<M> &m) { seen.push_back(m); }, mkuid(50));
  const unsigned mask = ks::choose(8, "watched");
  std::vector<UID> watched;
  for (unsigned i = 0; i < 3; i++) if (mask >> i & 1) watched.push_back(mkuid(1 + i));
  built.subscribe(watched);
  mon::MessageObserver<M> o(std::move(built));
  for (unsigned r = 0; r < knpsym_param(1); r++) {
    std::vector<std::tuple<unsigned, uint64_t, uint32_t>> sent;
    for (unsigned i = 0, k = ks::choose(knpsym_param(2) + 1, "messages"); i < k; i++) {
      const unsigned from = ks::choose(3, "from");
      const uint64_t step = ks::sym<uint64_t>("step");
      const uint32_t index = ks::sym<uint32_t>("index");
      if (ks::choose(4, "type") == 0) { sender.send_message(make<Other>(mkuid(1 + from), step, index)); continue; }
      sender.send_message(make<M>(mkuid(1 + from), step, index));
      if (mask >> from & 1) sent.emplace_back(from, step, index);
    }
    bus->route_messages();
    o.update();
    ks::check(seen.size() == r + 1, "an update calls the observer once");
    const auto &got = seen.back();
    ks::check(got.size() == sent.size(), "an observer gets exactly the messages of the senders it watches");
    for (size_t i = 0; i < got.size() && i < sent.size(); i++) {
      ks::check(ueq(got[i].header_.sender_uid_, mkuid(1 + std::get<0>(sent[i]))) && got[i].header_.send_time_ == std::get<1>(sent[i]), "an observed message keeps sender and step");
      ks::check(content(got[i]) == std::get<2>(sent[i]), "an observed message keeps its content");
      ks::reach("seen");
    }
  }
  ks::reach("end");
}
// two input channels and a third that is not watched; a channel spikes as chosen, on every step
struct Run {
  unsigned steps;
  std::vector<std::vector<SpikeData>> data;  // channel, step
  fw::Model model;
  std::shared_ptr<ST> backend = std::make_shared<ST>();
  std::unique_ptr<fw::ModelExecutor> ex;
  static fw::Network network() {
    fw::Network net;
    nt::neuron_parameters<nt::LIFNeuron> n;
    n.activation_threshold_ = 1e6f;
    net.add_population(knp::core::Population<nt::LIFNeuron>(mkuid(1), [n](size_t) { return n; }, 1));
    for (unsigned i = 0; i < 3; i++)
      net.add_projection(knp::core::Projection<st::DeltaSynapse>(mkuid(20 + i), UID(false), mkuid(1), [](size_t) {
        return std::make_tuple(st::synapse_parameters<st::DeltaSynapse>(), size_t(0), size_t(0));
      }, 1));
    return net;
  }
  Run(unsigned steps, unsigned most) : steps(steps), data(3, std::vector<SpikeData>(steps)), model(network()) {
    fw::ModelLoader::InputChannelMap gens;
    for (unsigned c = 0; c < 3; c++) {
      model.add_input_channel(mkuid(40 + c), mkuid(20 + c));
      for (unsigned s = 0; s < steps; s++)
        for (unsigned i = 0, k = c == 2 ? 1 : ks::choose(most + 1, "spikes"); i < k; i++) data[c][s].push_back(ks::range(0, 9, "index"));
      gens[mkuid(40 + c)] = [this, c](uint64_t s) { return s < this->steps ? data[c][s] : SpikeData{}; };
    }
    ex = std::make_unique<fw::ModelExecutor>(model, backend, gens);
  }
  void run() { ex->start([this](uint64_t s) { return s < steps; }); }
};
static std::string num(uint64_t v) { std::string s; do s.insert(s.begin(), char('0' + v % 10)); while (v /= 10); return s; }
static void aggregated() {
  const unsigned steps = knpsym_param(1), period = 1 + ks::choose(knpsym_param(3), "period");
  Run r(steps, knpsym_param(2));
  std::ostringstream log;
  std::map<std::string, size_t> acc{{"old", 5}};
  mon::model::add_aggregated_spikes_logger(r.model, {{mkuid(40), "second"}, {mkuid(41), "first"}}, *r.ex, acc, log, period);
  r.run();
  // the line of step s counts the spikes of the period that ended before step s - 1, the last one that was run
  std::string want = "Index, first, second\n";
  size_t count[2] = {0, 0};
  for (unsigned s = 0; s < steps; s++) {
    if ((s + 1) % period == 0) {
      want += num(s + 1) + ", " + num(count[1]) + ", " + num(count[0]) + "\n";
      count[0] = count[1] = 0;
      ks::reach("line");
    }
    for (unsigned c = 0; c < 2; c++) count[c] += r.data[c][s].size();
  }
  ks::check(log.str() == want, "the log gives the number of spikes of each population for each period");
  ks::check(acc.size() == 2 && acc["first"] == count[1] && acc["second"] == count[0], "the counters hold the spikes not yet logged");
  ks::reach("end");
}
static void spikes() {
  Run r(knpsym_param(1), knpsym_param(2));
  std::ostringstream log;
  mon::model::add_spikes_logger(*r.ex, {{mkuid(40), "a"}, {mkuid(41), "b"}}, log);
  r.run();
  // messages of one step may come in any order
  const std::string out = log.str();
  size_t at = 0, length = 0;
  for (unsigned s = 0; s < r.steps; s++) {
    std::string part[2];
    for (unsigned c = 0; c < 2; c++) {
      if (r.data[c][s].empty()) continue;
      part[c] = "Step: " + num(s) + "\nSender: " + (c ? "b" : "a") + "\n";
      for (auto x : r.data[c][s]) { part[c].push_back('0' + x); part[c].push_back(' '); }
      part[c] += "\n";
    }
    const std::string both = part[0] + part[1], other = part[1] + part[0];
    length = both.size();
    ks::check(out.size() >= at + length, "every spike of a watched sender is logged");
    if (out.size() < at + length) return;
    const std::string got = out.substr(at, length);
    ks::check(got == both || got == other, "the log names the step, the sender and its spikes");
    at += length;
    if (length) ks::reach("line");
  }
  ks::check(out.size() == at, "nothing else is logged");
  ks::reach("end");
}
static std::vector<std::string> words(const std::string &text) {
  std::vector<std::string> r;
  std::string w;
  for (char c : text) {
    if (c != ' ' && c != '\n') { w.push_back(c); continue; }
    if (!w.empty()) r.push_back(w);
    w.clear();
  }
  if (!w.empty()) r.push_back(w);
  return r;
}
// the weights logger writes, for every period, the resource of every synapse of one projection by receiver and sender
static void weights() {
  using S = st::SynapticResourceSTDPDeltaSynapse;
  using N = nt::SynapticResourceSTDPBLIFATNeuron;
  const unsigned steps = knpsym_param(1), most = knpsym_param(2), period = 1 + ks::choose(knpsym_param(3), "period");
  struct Syn { size_t from; unsigned to, value, last; };
  static const float values[] = {0.25f, 1.5f, -2};
  static const char *const texts[] = {"0.25", "1.5", "-2"};
  std::vector<Syn> syn[2];
  for (auto &v : syn) {
    v.resize(ks::choose((&v == syn ? most : 1) + 1, "synapses"));
    for (auto &x : v) x = {size_t(ks::range(0, 1, "from")) + (ks::choose(2, "far") ? size_t(1) << 33 : 0), unsigned(ks::range(0, 2, "to")), unsigned(ks::choose(3, "resource")), unsigned(ks::range(0, 9, "last"))};
  }
  fw::Network net;
  nt::neuron_parameters<N> n;
  n.activation_threshold_ = 1e6;
  net.add_population(knp::core::Population<N>(mkuid(1), [n](size_t) { return n; }, 3));
  net.add_projection(knp::core::Projection<st::DeltaSynapse>(mkuid(19), UID(false), mkuid(1), [](size_t) { return std::make_tuple(st::synapse_parameters<st::DeltaSynapse>(), size_t(0), size_t(0)); }, 1));
  for (unsigned j = 0; j < 2; j++)
    net.add_projection(knp::core::Projection<S>(mkuid(20 + j), UID(false), mkuid(1), [&](size_t i) {
      st::synapse_parameters<S> p;
      p.rule_.synaptic_resource_ = values[syn[j][i].value];
      p.rule_.last_spike_step_ = syn[j][i].last;
      return std::make_tuple(p, size_t(syn[j][i].from), size_t(syn[j][i].to));
    }, syn[j].size()));
  fw::Model model(std::move(net));
  model.add_input_channel(mkuid(40), mkuid(19));
  fw::ModelLoader::InputChannelMap gens;
  gens[mkuid(40)] = [](uint64_t) { return SpikeData{}; };
  auto backend = std::make_shared<ST>();
  fw::ModelExecutor ex(model, backend, gens);
  std::ostringstream log;
  const unsigned watched = ks::choose(2, "watched");
  mon::model::add_projection_weights_logger(log, ex, mkuid(20 + watched), period);
  ex.start([&](uint64_t s) { return s < steps; });
  std::vector<Syn> order = syn[watched];
  for (size_t i = 0; i < order.size(); i++)
    for (size_t k = i + 1; k < order.size(); k++)
      if (order[k].to < order[i].to || (order[k].to == order[i].to && order[k].from < order[i].from)) std::swap(order[i], order[k]);
  const auto got = words(log.str());
  size_t at = 0;
  auto next = [&] { return at < got.size() ? got[at++] : std::string(); };
  for (unsigned s = 1; s <= steps; s++) {
    if (s % period) continue;
    ks::check(next() == "Step:" && next() == num(s), "the log names every step at the end of a period");
    for (size_t i = 0; i < order.size();) {
      if (!i || order[i].to != order[i - 1].to) ks::check(next() == "Neuron" && next() == num(order[i].to), "the log names every neuron that has synapses, in order");
      size_t e = i;
      std::vector<std::string> want, have;  // synapses between the same neurons may come in any order
      for (; e < order.size() && order[e].to == order[i].to && order[e].from == order[i].from; e++) {
        want.push_back(std::string(texts[order[e].value]) + "|" + num(order[e].last));
        have.push_back(next());
      }
      std::sort(want.begin(), want.end());
      std::sort(have.begin(), have.end());
      ks::check(want == have, "the log gives the resource and the last update of each synapse of the projection, by receiver and sender");
      i = e;
      ks::reach("line");
    }
  }
  ks::check(at == got.size(), "the log holds nothing else");
  ks::reach("end");
}
extern "C" void knp_harness() {
  ks::expect("end");
  switch (knpsym_param(0)) {
    case 0: ks::expect("seen"); return knpsym_param(3) ? observer<SynapticImpactMessage, SpikeMessage>() : observer<SpikeMessage, SynapticImpactMessage>();
    case 1: ks::expect("line"); return aggregated();
    case 3: ks::expect("line"); return weights();
    default: ks::expect("line"); return spikes();
  }
}

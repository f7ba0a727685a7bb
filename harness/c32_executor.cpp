// C32: the model executor drives inputs, backend, handlers and observers once per step.
// params: 0 mode (0 drive, 1 stop), 1 runs, 2 steps per run, 3 input channels
#include "backend_common.h"
#include <knp/framework/model.h>
#include <knp/framework/model_executor.h>
namespace fw = knp::framework;
using knp::core::messaging::SpikeData;
struct Counting : ST {
  std::vector<uint64_t> steps;
  void _step() override { steps.push_back(get_step()); ST::_step(); }
};
// projections 20.. of the input channels, 30 and 31 for the handler: 30 is its receiver
static fw::Network network(unsigned channels) {
  fw::Network net;
  nt::neuron_parameters<nt::LIFNeuron> n;
  n.activation_threshold_ = 1e6f;
  net.add_population(knp::core::Population<nt::LIFNeuron>(mkuid(1), [n](size_t) { return n; }, 1));
  auto add = [&net](unsigned id) {
    net.add_projection(knp::core::Projection<st::DeltaSynapse>(mkuid(id), UID(false), mkuid(1), [](size_t k) {
      st::synapse_parameters<st::DeltaSynapse> s;
      s.weight_ = 0.5f;
      return std::make_tuple(s, k, size_t(0));
    }, 4));
  };
  for (unsigned i = 0; i < channels; i++) add(20 + i);
  add(30);
  add(31);
  return net;
}
static bool has(const std::vector<SpikeMessage> &v, const UID &from, uint64_t step, const SpikeData &d) {
  bool r = false;
  for (auto &m : v) {
    bool same = ueq(m.header_.sender_uid_, from) && m.header_.send_time_ == step && m.neuron_indexes_.size() == d.size();
    for (size_t i = 0; same && i < d.size(); i++) same = m.neuron_indexes_[i] == d[i];
    r |= same;
  }
  return r;
}
static void drive() {
  const unsigned runs = knpsym_param(1), most = knpsym_param(2), nc = knpsym_param(3);
  auto backend = std::make_shared<Counting>();
  fw::Model model(network(nc));
  fw::ModelLoader::InputChannelMap gens;
  std::vector<std::vector<SpikeData>> given(nc, std::vector<SpikeData>(runs * most + 1));
  std::vector<std::vector<bool>> known(nc, std::vector<bool>(runs * most + 1, false));
  for (unsigned c = 0; c < nc; c++) {
    model.add_input_channel(mkuid(40 + c), mkuid(20 + c));
    gens[mkuid(40 + c)] = [&, c](uint64_t s) {
      if (s >= given[c].size()) { ks::check(false, "a generator is asked for a step of the run"); return SpikeData{}; }
      if (!known[c][s] && ks::choose(2, "spike")) given[c][s] = {uint32_t(ks::range(0, 3, "index"))};
      known[c][s] = true;
      return given[c][s];
    };
  }
  fw::ModelExecutor ex(model, backend, gens);
  const UID hand = mkuid(60);
  std::vector<std::vector<SpikeMessage>> handled, seen, seen_handler;
  std::vector<SpikeData> answers;
  std::vector<std::vector<SynapticImpactMessage>> impacts;
  ex.add_spike_message_handler([&](std::vector<SpikeMessage> &m) {
    handled.push_back(m);
    SpikeData d;
    if (ks::choose(2, "answer")) d.push_back(uint32_t(ks::range(0, 3, "answer_index")));
    answers.push_back(d);
    return d;
  }, {mkuid(40)}, {mkuid(30)}, hand);
  ex.add_observer<SpikeMessage>([&](const std::vector<SpikeMessage> &m) { seen.push_back(m); }, {mkuid(40 + nc - 1)});
  ex.add_observer<SpikeMessage>([&](const std::vector<SpikeMessage> &m) { seen_handler.push_back(m); }, {hand});
  std::vector<UID> all;
  for (unsigned c = 0; c < nc; c++) all.push_back(mkuid(20 + c));
  all.push_back(mkuid(30)); all.push_back(mkuid(31));
  ex.add_observer<SynapticImpactMessage>([&](const std::vector<SynapticImpactMessage> &m) { impacts.push_back(m); }, all);
  uint64_t total = 0;
  for (unsigned r = 0; r < runs; r++) {
    const unsigned n = ks::choose(most + 1, "steps");
    const uint64_t end = total + n;
    std::vector<uint64_t> asked;
    ex.start([&](uint64_t s) { asked.push_back(s); return s < end; });
    ks::check(asked.size() == n + 1, "the run predicate is asked before every step and once more to end");
    for (size_t i = 0; i < asked.size(); i++) ks::check(asked[i] == total + i, "the run predicate is asked for the step that comes");
    total = end;
    ks::check(backend->steps.size() == total, "the backend runs exactly the steps the predicate allows");
  }
  for (size_t i = 0; i < backend->steps.size(); i++) ks::check(backend->steps[i] == i, "steps are run in order");
  ks::check(handled.size() == total, "a handler is called once per step");
  ks::check(seen.size() == total && seen_handler.size() == total && impacts.size() == total, "an observer is called once per step");
  if (handled.size() != total || seen.size() != total || impacts.size() != total || seen_handler.size() != total) return;
  for (uint64_t s = 0; s < total; s++) {
    for (unsigned c = 0; c < nc; c++) ks::check(known[c][s], "every input channel is asked for every step");
    const auto &first = given[0][s], &last = given[nc - 1][s];
    ks::check(handled[s].size() == (first.empty() ? 0 : 1) && (first.empty() || has(handled[s], mkuid(40), s, first)), "a handler gets exactly the messages of its senders of the step");
    ks::check(seen[s].size() == (last.empty() ? 0 : 1) && (last.empty() || has(seen[s], mkuid(40 + nc - 1), s, last)), "an observer gets exactly the messages of its senders of the step");
    // what a handler answers arrives on the next step
    const SpikeData none, &answer = s ? answers[s - 1] : none;
    ks::check(seen_handler[s].size() == (answer.empty() ? 0 : 1), "the answer of a handler is sent once, under its UID");
    if (seen_handler[s].size() == 1 && answer.size() == 1) {
      ks::check(ueq(seen_handler[s][0].header_.sender_uid_, hand) && seen_handler[s][0].neuron_indexes_.size() == 1 && seen_handler[s][0].neuron_indexes_[0] == answer[0], "the answer of a handler is sent unchanged");
      ks::reach("answer");
    }
    unsigned count = 0;
    for (auto &m : impacts[s]) {
      const UID &u = m.header_.sender_uid_;
      bool expected = false;
      for (unsigned c = 0; c < nc; c++)
        if (ueq(u, mkuid(20 + c)) && !given[c][s].empty()) { expected = true; ks::check(m.impacts_.size() == 1 && m.impacts_[0].presynaptic_neuron_index_ == given[c][s][0], "a projection gets the spikes of its channel of the step"); }
      if (ueq(u, mkuid(30)) && !answer.empty()) { expected = true; ks::check(m.impacts_.size() == 1 && m.impacts_[0].presynaptic_neuron_index_ == answer[0], "a receiver of a handler gets its answer"); }
      ks::check(expected, "no other projection gets spikes");
      count++;
    }
    unsigned want = !answer.empty();
    for (unsigned c = 0; c < nc; c++) want += !given[c][s].empty();
    ks::check(count == want, "every channel and every answer reaches its projection once");
    if (want) ks::reach("impact");
  }
  ks::reach("end");
}
// stopping from a callback ends the run after the step in which it was asked for
static void stop() {
  const unsigned at = ks::choose(knpsym_param(2), "at"), who = ks::choose(4, "who");
  auto backend = std::make_shared<Counting>();
  fw::Model model(network(1));
  model.add_input_channel(mkuid(40), mkuid(20));
  fw::ModelExecutor *self = nullptr;
  unsigned calls[4] = {0, 0, 0, 0};
  auto here = [&](unsigned w) {
    if (calls[w]++ == at && w == who && self) self->stop();
    ks::check(calls[w] <= at + 2, "the run ends");
    if (calls[w] > at + 2) self->stop();
  };
  fw::ModelExecutor ex(model, backend, {{mkuid(40), [&](uint64_t) { here(0); return SpikeData{0}; }}});
  self = &ex;
  ex.add_spike_message_handler([&](std::vector<SpikeMessage> &) { here(1); return SpikeData{}; }, {mkuid(40)}, {}, mkuid(60));
  ex.add_observer<SpikeMessage>([&](const std::vector<SpikeMessage> &) { here(2); }, {mkuid(40)});
  if (who == 3) ex.start([&](uint64_t) { here(3); return true; });
  else ex.start();
  ks::check(!backend->running(), "after a run the backend is not running");
  ks::check(backend->steps.size() == at + 1, "a run that is stopped ends with the step in which it was stopped");
  ks::check(calls[1] == at + 1 && calls[2] == at + 1, "handlers and observers see every step that was run");
  ks::reach("end");
}
extern "C" void knp_harness() {
  ks::expect("end");
  if (knpsym_param(0)) return stop();
  ks::expect("answer"); ks::expect("impact");
  drive();
}

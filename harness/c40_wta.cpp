// C40: winner-take-all handlers between parts of a network.
// params: 0 pairs, 1 steps, 2 neurons per sender, 3 most winners, 4 most borders
#include "backend_common.h"
#include <knp/framework/model.h>
#include <knp/framework/model_executor.h>
#include <knp/framework/projection/wta.h>
namespace fw = knp::framework;
using knp::core::messaging::SpikeData;
extern "C" void knp_harness() {
  ks::expect("competition"); ks::expect("everyone"); ks::expect("end");
  const unsigned pairs = knpsym_param(0), steps = knpsym_param(1), width = knpsym_param(2);
  auto backend = std::make_shared<ST>();
  fw::Network net;
  nt::neuron_parameters<nt::LIFNeuron> n;
  n.activation_threshold_ = 1e6f;
  net.add_population(knp::core::Population<nt::LIFNeuron>(mkuid(1), [n](size_t) { return n; }, 1));
  auto add = [&](unsigned id) {
    net.add_projection(knp::core::Projection<st::DeltaSynapse>(mkuid(id), UID(false), mkuid(1), [](size_t k) {
      st::synapse_parameters<st::DeltaSynapse> s;
      s.weight_ = 0.5f;
      return std::make_tuple(s, k, size_t(0));
    }, width));
  };
  for (unsigned p = 0; p < pairs; p++) { add(20 + p); add(30 + p); }
  fw::Model model(std::move(net));
  fw::ModelLoader::InputChannelMap gens;
  std::vector<std::vector<unsigned>> given(pairs, std::vector<unsigned>(steps + 1, 0));
  for (unsigned p = 0; p < pairs; p++) {
    model.add_input_channel(mkuid(40 + p), mkuid(20 + p));
    gens[mkuid(40 + p)] = [&, p](uint64_t s) {
      SpikeData d;
      const unsigned mask = ks::choose(1u << width, "spikes");
      given[p][s] = mask;
      for (unsigned i = 0; i < width; i++) if (mask >> i & 1) d.push_back(i);
      return d;
    };
  }
  fw::ModelExecutor ex(model, backend, gens);
  const size_t k = ks::choose(knpsym_param(3) + 1, "winners"), nb = ks::choose(knpsym_param(4) + 1, "borders");
  std::vector<size_t> borders;
  for (size_t i = 0; i < nb; i++) borders.push_back((borders.empty() ? 0 : borders.back()) + ks::choose(width, "border"));
  std::vector<std::pair<std::vector<UID>, std::vector<UID>>> data;
  for (unsigned p = 0; p < pairs; p++) data.push_back({{mkuid(40 + p)}, {mkuid(30 + p)}});
  const auto ids = fw::projection::add_wta_handlers(ex, k, borders, data);
  ks::check(ids.size() == pairs, "every pair of senders and receivers gets a handler");
  if (ids.size() != pairs) return;
  for (unsigned p = 0; p < pairs; p++)
    for (unsigned q = 0; q < p; q++) ks::check(!ueq(ids[p], ids[q]), "handlers have different UIDs");
  std::vector<std::vector<std::vector<SpikeMessage>>> out(pairs);
  std::vector<std::vector<SynapticImpactMessage>> impacts;
  for (unsigned p = 0; p < pairs; p++) ex.add_observer<SpikeMessage>([&out, p](const std::vector<SpikeMessage> &m) { out[p].push_back(m); }, {ids[p]});
  std::vector<UID> recv;
  for (unsigned p = 0; p < pairs; p++) recv.push_back(mkuid(30 + p));
  ex.add_observer<SynapticImpactMessage>([&](const std::vector<SynapticImpactMessage> &m) { impacts.push_back(m); }, recv);
  ex.start([&](uint64_t s) { return s < steps; });
  for (unsigned p = 0; p < pairs; p++) ks::check(out[p].size() == steps, "an observer is called once per step");
  for (unsigned p = 0; p < pairs; p++)
    for (unsigned s = 0; s < steps && s < out[p].size(); s++) {
      const unsigned in = s ? given[p][s - 1] : 0;  // what a handler answers arrives on the next step
      unsigned got = 0, count = 0, want = 0;
      ks::check(out[p][s].size() <= 1, "a handler answers once");
      for (auto &m : out[p][s])
        for (auto i : m.neuron_indexes_) {
          count++;
          ks::check(i < 32, "a winner is a neuron of the senders");
          if (i < 32) got |= 1u << i;
        }
      ks::check((got & ~in) == 0, "every winner is a spike of the senders of the pair");
      ks::check(count == unsigned(__builtin_popcount(got)), "no winner is repeated");
      for (size_t g = 0; g <= nb; g++) {
        unsigned members = 0;
        for (unsigned i = 0; i < width; i++) {
          size_t mine = 0;
          while (mine < nb && i >= borders[mine]) mine++;
          if (mine == g) members |= 1u << i;
        }
        const unsigned there = __builtin_popcount(in & members), won = __builtin_popcount(got & members);
        ks::check(won == (there < k ? there : k), "a group has the requested number of winners, or everyone");
        if (there > k && k) ks::reach("competition");
        if (there && there <= k) ks::reach("everyone");
        want += there < k ? there : k;
      }
      // the receivers of the pair get the winners and nothing else
      unsigned received = 0, times = 0;
      for (auto &m : impacts[s])
        if (ueq(m.header_.sender_uid_, mkuid(30 + p)))
          for (auto &i : m.impacts_) { times++; received |= i.presynaptic_neuron_index_ < 32 ? 1u << i.presynaptic_neuron_index_ : 0; }
      ks::check(received == got && times == count, "the receivers of a pair get exactly its winners");
    }
  ks::reach("end");
}

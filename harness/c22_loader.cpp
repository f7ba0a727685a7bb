// C22: loading a model connects every declared channel to exactly its own targets.
// params: 0 channels of each kind, 1 projections, 2 populations, 3 mode (0 input channels, 1 output channels, 2 refusals), 4 further UIDs to choose from, 5 they are concrete
#include "backend_common.h"
#include <knp/framework/model.h>
#include <knp/framework/model_loader.h>
namespace fw = knp::framework;
static fw::Network network(unsigned projs, unsigned pops) {
  fw::Network net;
  for (unsigned i = 0; i < pops; i++) net.add_population(knp::core::Population<nt::LIFNeuron>(mkuid(1 + i), [](size_t) { return nt::neuron_parameters<nt::LIFNeuron>(); }, 1));
  for (unsigned i = 0; i < projs; i++)
    net.add_projection(knp::core::Projection<st::DeltaSynapse>(mkuid(20 + i), UID(false), mkuid(1), [&](size_t k) {
      st::synapse_parameters<st::DeltaSynapse> s;
      s.weight_ = 0.5f;
      return std::make_tuple(s, k, size_t(0));
    }, 3));
  return net;
}
// UIDs of channels: any that differ, so that any two may share a bucket of a hash table
static std::vector<UID> channels(unsigned n) {
  std::vector<UID> u;
  unsigned last = 40;
  for (unsigned i = 0; i < n; i++) u.push_back(mkuid(last += 1 + (i ? (knpsym_param(5) ? ks::choose(knpsym_param(4) + 1, "uid") : ks::range(0, knpsym_param(4), "uid")) : 0)));
  return u;
}
static void check_tags(fw::Model &model, const std::vector<bool> &proj, const std::vector<bool> &pop) {
  auto is = [](auto &x, knp::core::tags::IOType t) {
    auto &tags = x.get_tags();
    try { return tags.template get_tag<knp::core::tags::IOType>(knp::core::tags::io_type_tag) == t; } catch (...) { return false; }
  };
  for (unsigned i = 0; i < proj.size(); i++) if (proj[i]) ks::check(is(model.get_network().get_projection<st::DeltaSynapse>(mkuid(20 + i)), knp::core::tags::IOType::input), "a connected projection is marked as input");
  for (unsigned i = 0; i < pop.size(); i++) if (pop[i]) ks::check(is(model.get_network().get_population<nt::LIFNeuron>(mkuid(1 + i)), knp::core::tags::IOType::output), "a connected population is marked as output");
}
static void inputs() {
  const unsigned nc = knpsym_param(0), projs = knpsym_param(1), pops = knpsym_param(2);
  auto backend = std::make_shared<ST>();
  fw::Model model(network(projs, pops));
  const auto uids = channels(nc);
  fw::ModelLoader::InputChannelMap gens;
  std::vector<std::vector<bool>> on(nc, std::vector<bool>(projs, false));
  std::vector<uint32_t> value(nc);
  std::vector<bool> declared(nc, false), tagged(projs, false);
  for (unsigned c = 0; c < nc; c++) {
    value[c] = ks::range(0, 2, "index");
    gens[uids[c]] = [v = value[c]](knp::core::Step) { return knp::core::messaging::SpikeData{v}; };
    const unsigned mask = ks::choose(1u << projs, "targets");
    for (unsigned p = 0; p < projs; p++)
      if (mask >> p & 1) {
        model.add_input_channel(uids[c], mkuid(20 + p));
        on[c][p] = declared[c] = tagged[p] = true;
      }
  }
  fw::ModelLoader loader(backend, gens);
  loader.load(model);
  unsigned count = 0;
  for (bool d : declared) count += d;
  ks::check(loader.get_inputs().size() == count, "one input channel per declared UID");
  check_tags(model, tagged, {});
  backend->_init();
  Spy spy(*backend);
  for (unsigned p = 0; p < projs; p++) spy.watch<SynapticImpactMessage>(mkuid(20 + p));
  for (unsigned c = 0; c < nc; c++) {
    if (!declared[c]) continue;
    auto &ch = loader.get_input_channel(uids[c]);
    ks::check(ueq(ch.get_uid(), uids[c]), "a channel is found by its UID");
    ks::check(ch.send(backend->get_step()), "the channel uses its own generator");
    backend->_step();
    std::vector<bool> got(projs, false);
    for (auto &m : spy.take<SynapticImpactMessage>())
      for (unsigned p = 0; p < projs; p++)
        if (ueq(m.header_.sender_uid_, mkuid(20 + p))) {
          ks::check(!got[p], "a projection gets the spikes of a channel once");
          got[p] = true;
          ks::check(m.impacts_.size() == 1 && m.impacts_[0].presynaptic_neuron_index_ == value[c], "a projection gets the spikes of the channel's own generator");
          ks::reach("spikes");
        }
    for (unsigned p = 0; p < projs; p++) ks::check(got[p] == on[c][p], "exactly the connected projections get the spikes of an input channel");
  }
  ks::reach("end");
}
static void outputs() {
  const unsigned nc = knpsym_param(0), projs = knpsym_param(1), pops = knpsym_param(2);
  auto backend = std::make_shared<ST>();
  fw::Model model(network(projs, pops));
  const auto uids = channels(nc);
  std::vector<std::vector<bool>> on(nc, std::vector<bool>(pops, false));
  std::vector<bool> declared(nc, false), tagged(pops, false);
  for (unsigned c = 0; c < nc; c++) {
    const unsigned mask = ks::choose(1u << pops, "sources");
    for (unsigned p = 0; p < pops; p++)
      if (mask >> p & 1) {
        model.add_output_channel(uids[c], mkuid(1 + p));
        on[c][p] = declared[c] = tagged[p] = true;
      }
  }
  fw::ModelLoader loader(backend, {});
  loader.load(model);
  unsigned count = 0;
  for (bool d : declared) count += d;
  ks::check(loader.get_outputs().size() == count, "one output channel per declared UID");
  check_tags(model, {}, tagged);
  backend->_init();
  Spy spy(*backend);
  std::vector<uint32_t> index(pops);
  for (unsigned p = 0; p < pops; p++) {
    index[p] = ks::sym<uint32_t>("index");
    spy.ep.send_message(SpikeMessage{{mkuid(1 + p), 5}, {index[p]}});
  }
  spy.ep.send_message(SpikeMessage{{mkuid(90), 5}, {1}});
  backend->get_message_bus().route_messages();
  for (unsigned c = 0; c < nc; c++) {
    if (!declared[c]) continue;
    auto &ch = loader.get_output_channel(uids[c]);
    ks::check(ueq(ch.get_uid(), uids[c]), "a channel is found by its UID");
    std::vector<bool> got(pops, false);
    for (auto &m : ch.update()) {
      bool known = false;
      for (unsigned p = 0; p < pops; p++)
        if (ueq(m.header_.sender_uid_, mkuid(1 + p))) {
          ks::check(!got[p], "an output channel gets a message once");
          ks::check(m.neuron_indexes_.size() == 1 && m.neuron_indexes_[0] == index[p], "an output channel gets the spikes of the population");
          got[p] = known = true;
          ks::reach("spikes");
        }
      ks::check(known, "an output channel gets spikes of the populations only");
    }
    for (unsigned p = 0; p < pops; p++) ks::check(got[p] == on[c][p], "an output channel collects exactly the spikes of the populations connected to it");
  }
  ks::reach("end");
}
static void refusals() {
  fw::Model model(network(1, 1));
  auto backend = std::make_shared<ST>();
  switch (ks::choose(5, "what")) {
    case 0: {
      bool thrown = false;
      try { model.add_input_channel(mkuid(40), mkuid(ks::choose(2, "kind") ? 1 : 99)); } catch (const std::logic_error &) { thrown = true; }
      ks::check(thrown && model.get_input_channels().empty(), "an input channel to something that is no projection of the network is refused");
      break;
    }
    case 1: {
      bool thrown = false;
      try { model.add_output_channel(mkuid(40), mkuid(ks::choose(2, "kind") ? 20 : 99)); } catch (const std::logic_error &) { thrown = true; }
      ks::check(thrown && model.get_output_channels().empty(), "an output channel from something that is no population of the network is refused");
      break;
    }
    case 2: {
      model.add_input_channel(mkuid(40), mkuid(20));
      fw::ModelLoader::InputChannelMap gens;
      if (ks::choose(2, "other")) gens[mkuid(41)] = [](knp::core::Step) { return knp::core::messaging::SpikeData{}; };
      fw::ModelLoader loader(backend, gens);
      bool thrown = false;
      try { loader.load(model); } catch (const std::logic_error &) { thrown = true; }
      ks::check(thrown, "a model whose input channel has no generator is refused");
      break;
    }
    case 3: {
      model.connect_output_population(mkuid(40), model.get_network().get_population<nt::LIFNeuron>(mkuid(1)));
      fw::ModelLoader loader(backend, {});
      loader.load(model);
      bool thrown = false;
      try { (void)loader.get_output_channel(mkuid(41)); } catch (const std::runtime_error &) { thrown = true; }
      ks::check(thrown, "looking up an unknown output channel fails");
      ks::check(ueq(loader.get_output_channel(mkuid(40)).get_uid(), mkuid(40)), "a known one is found");
      break;
    }
    default: {
      model.connect_input_projection(mkuid(40), model.get_network().get_projection<st::DeltaSynapse>(mkuid(20)));
      fw::ModelLoader loader(backend, {{mkuid(40), [](knp::core::Step) { return knp::core::messaging::SpikeData{}; }}});
      loader.load(model);
      bool thrown = false;
      try { (void)loader.get_input_channel(mkuid(41)); } catch (const std::runtime_error &) { thrown = true; }
      ks::check(thrown, "looking up an unknown input channel fails");
      ks::check(ueq(loader.get_input_channel(mkuid(40)).get_uid(), mkuid(40)), "a known one is found");
      size_t np = 0, nj = 0;
      for (auto it = backend->begin_populations(); it != backend->end_populations(); ++it) np++;
      for (auto it = backend->begin_projections(); it != backend->end_projections(); ++it) nj++;
      ks::check(np == 1 && nj == 1, "loading a model loads its network");
    }
  }
  ks::reach("end");
}
extern "C" void knp_harness() {
  ks::expect("end");
  switch (knpsym_param(3)) {
    case 0: ks::expect("spikes"); return inputs();
    case 1: ks::expect("spikes"); return outputs();
    default: return refusals();
  }
}

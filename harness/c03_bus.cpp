// C03: routing, receiving and unloading deliver each message exactly once to exactly the subscribed receivers.
// params: 0 rounds, 1 configuration operations per round, 2 messages per round, 3 endpoints, 4 message types used (1 or 2), 5 receivers, 6 everything subscribed beforehand, 7 another endpoint is destroyed
#include <knp/core/message_bus.h>
#include "knpsym.h"
#include <map>
#include <vector>
using namespace knp::core;
using namespace knp::core::messaging;
static UID uid(unsigned kind, unsigned n) { UID u(false); u.tag.data[0] = kind; u.tag.data[15] = n; return u; }
struct Msg { unsigned type, ep; uint8_t sender; uint64_t step; uint32_t a; float w; };
struct Sub { bool on = false; bool sender[2] = {false, false}; };
extern "C" void knp_harness() {
  const unsigned rounds = knpsym_param(0), nconf = knpsym_param(1), nmsg = knpsym_param(2), neps = knpsym_param(3), types = knpsym_param(4), recvs = knpsym_param(5);
#ifdef KNP_ZMQ_BUS
  zmq_model::world().again = knpsym_param(8);
  auto bus = MessageBus::construct_zmq_bus();
#else
  auto bus = MessageBus::construct_cpu_bus();
#endif
  std::vector<std::unique_ptr<MessageEndpoint>> ep;
  // an endpoint that receives and is destroyed at some moment
  std::unique_ptr<MessageEndpoint> doomed;
  unsigned place = neps, moment = 9;
  if (knpsym_param(7)) { place = ks::choose(neps + 1, "place"); moment = ks::choose(4, "moment"); }
  auto doom = [&] {
    doomed = std::make_unique<MessageEndpoint>(bus->create_endpoint());
    doomed->subscribe<SpikeMessage>(uid(2, 0), {uid(1, 0), uid(1, 1)});
  };
  auto moment_is = [&](unsigned m) { if (doomed && moment == m) doomed.reset(); };
  for (unsigned i = 0; i < neps; i++) {
    if (i == place && knpsym_param(7)) doom();
    ep.push_back(std::make_unique<MessageEndpoint>(bus->create_endpoint()));
  }
  if (place == neps && knpsym_param(7)) doom();
  Sub subs[3][2][2];  // endpoint, receiver, type
  if (knpsym_param(6))
    for (unsigned e = 0; e < neps; e++) for (unsigned rc = 0; rc < recvs; rc++) for (unsigned t = 0; t < types; t++) {
      std::vector<UID> v{uid(1, 0), uid(1, 1)};
      if (t == 0) ep[e]->subscribe<SpikeMessage>(uid(2, rc), v); else ep[e]->subscribe<SynapticImpactMessage>(uid(2, rc), v);
      subs[e][rc][t].on = subs[e][rc][t].sender[0] = subs[e][rc][t].sender[1] = true;
    }
  uint64_t id = 0;
  ks::expect("delivered");
  ks::expect("end");
  for (unsigned r = 0; r < rounds; r++) {
    for (unsigned c = 0; c < nconf; c++) {
      unsigned e = ks::choose(neps, "endpoint"), rc = ks::choose(recvs, "receiver"), t = ks::choose(types, "type");
      Sub &s = subs[e][rc][t];
      switch (ks::choose(r == 0 && !knpsym_param(6) ? 2 : 4, "conf")) {
        case 0: {
          unsigned which = ks::choose(2, "sender");
          std::vector<UID> v{uid(1, which)};
          if (t == 0) ep[e]->subscribe<SpikeMessage>(uid(2, rc), v); else ep[e]->subscribe<SynapticImpactMessage>(uid(2, rc), v);
          s.on = s.sender[which] = true;
          break;
        }
        case 1: break;
        case 2: {
          bool was = t == 0 ? ep[e]->unsubscribe<SpikeMessage>(uid(2, rc)) : ep[e]->unsubscribe<SynapticImpactMessage>(uid(2, rc));
          ks::check(was == s.on, "unsubscribe reports whether there was a subscription");
          s = Sub();
          break;
        }
        case 3:
          ep[e]->remove_receiver(uid(2, rc));
          for (unsigned k = 0; k < 2; k++) subs[e][rc][k] = Sub();
          break;
      }
    }
    moment_is(0);
    std::vector<Msg> sent;
    const unsigned now = r ? 1 : nmsg;
    for (unsigned m = 0; m < now; m++) {
      unsigned e = ks::choose(neps, "endpoint");
      Msg x{ks::choose(types, "type"), e, (uint8_t)ks::range(0, 1, "sender"), id++, ks::sym<uint32_t>("index"), ks::sym<float>("value")};
      if (x.type == 0) ep[e]->send_message(SpikeMessage{{uid(1, x.sender), x.step}, {x.a, x.a ^ 1}});
      else ep[e]->send_message(SynapticImpactMessage{{uid(1, x.sender), x.step}, uid(3, 0), uid(3, 1), true, {{x.step, x.w, knp::synapse_traits::OutputType::EXCITATORY, x.a, 7}}});
      sent.push_back(x);
    }
    moment_is(1);
    size_t routed = bus->route_messages();
#ifdef KNP_ZMQ_BUS
    ks::check((routed == 0) == (now == 0), "routing reports whether there were messages");
#else
    ks::check(routed == now, "routing reports the number of messages sent");
#endif
    ks::check(bus->route_messages() == 0, "a second routing has nothing to route");
    moment_is(2);
    for (unsigned e = 0; e < neps; e++) ep[e]->receive_all_messages();
    for (unsigned e = 0; e < neps; e++) for (unsigned rc = 0; rc < recvs; rc++) {
      for (unsigned t = 0; t < types; t++) {
        std::vector<bool> due(sent.size(), false);
        size_t want = 0;
        Sub &s = subs[e][rc][t];
        for (size_t m = 0; m < sent.size(); m++) {
          due[m] = s.on && sent[m].type == t && (sent[m].sender ? s.sender[1] : s.sender[0]);
          want += due[m];
        }
        std::vector<int> last(neps, -1);
        const uint64_t first_id = id - sent.size();
        // the message in question, or null
        auto take = [&](const MessageHeader &h) -> const Msg * {
          uint64_t m = h.send_time_ - first_id;
          ks::check(m < sent.size() && due[m], "a receiver gets only messages of its senders and of this round");
          due[m] = false;  // each at most once
          ks::check(h.sender_uid_ == uid(1, sent[m].sender), "messages keep their header");
          ks::check(last[sent[m].ep] < (int)m, "messages sent through one endpoint keep their order");
          last[sent[m].ep] = m;
          ks::reach("delivered");
          return &sent[m];
        };
        if (t == 0) {
          auto got = ep[e]->unload_messages<SpikeMessage>(uid(2, rc));
          ks::check(got.size() == want, "a receiver gets every spike message of its senders");
          for (auto &g : got) {
            const Msg *m = take(g.header_);
            ks::check(g.neuron_indexes_.size() == 2 && g.neuron_indexes_[0] == m->a && g.neuron_indexes_[1] == (m->a ^ 1), "spike messages keep their data");
          }
          ks::check(ep[e]->unload_messages<SpikeMessage>(uid(2, rc)).empty(), "a second unloading gives nothing");
        } else {
          auto got = ep[e]->unload_messages<SynapticImpactMessage>(uid(2, rc));
          ks::check(got.size() == want, "a receiver gets every impact message of its senders");
          for (auto &g : got) {
            const Msg *m = take(g.header_);
            ks::check(g.presynaptic_population_uid_ == uid(3, 0) && g.postsynaptic_population_uid_ == uid(3, 1) && g.is_forcing_, "impact messages keep populations and flag");
            ks::check(g.impacts_.size() == 1 && g.impacts_[0].connection_index_ == m->step && ks::same(g.impacts_[0].impact_value_, m->w) && g.impacts_[0].presynaptic_neuron_index_ == m->a &&
              g.impacts_[0].postsynaptic_neuron_index_ == 7 && g.impacts_[0].synapse_type_ == knp::synapse_traits::OutputType::EXCITATORY, "impact messages keep their data");
          }
          ks::check(ep[e]->unload_messages<SynapticImpactMessage>(uid(2, rc)).empty(), "a second unloading gives nothing");
        }
      }
    }
    for (unsigned e = 0; e < neps; e++) ks::check(!ep[e]->receive_message(), "nothing is left to receive");
  }
  ks::reach("end");
}

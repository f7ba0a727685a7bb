// C08: subscriptions. params: 0 part (0 Subscription object, 1 MessageEndpoint), 1 operations
#include <knp/core/message_bus.h>
#include "knpsym.h"
using namespace knp::core;
using namespace knp::core::messaging;
static UID uid(unsigned kind, unsigned n) { UID u(false); u.tag.data[0] = kind; u.tag.data[15] = n; return u; }
constexpr unsigned N = 3;
template <class M> static void check_set(const Subscription<M> &s, const bool *in) {
  size_t want = 0;
  for (unsigned i = 0; i < N; i++) {
    want += in[i];
    ks::check(s.has_sender(uid(1, i)) == in[i], "has_sender tells exactly the senders added and not removed");
    ks::check(s.get_senders().count(uid(1, i)) == (in[i] ? 1 : 0), "the sender set holds exactly the senders added and not removed");
  }
  ks::check(s.get_senders().size() == want, "the sender set holds nothing else");
}
template <class M> static void object() {
  bool in[N] = {};
  std::vector<UID> first;
  unsigned n0 = ks::choose(3, "initial");
  for (unsigned i = 0; i < n0; i++) { unsigned k = ks::range(0, N - 1, "sender"); first.push_back(uid(1, k)); for (unsigned j = 0; j < N; j++) in[j] |= j == k; }
  Subscription<M> s(uid(2, 0), first);
  check_set(s, in);
  for (unsigned o = 0; o < knpsym_param(1); o++) {
    switch (ks::choose(3, "op")) {
      case 0: {
        unsigned k = ks::range(0, N - 1, "sender");
        bool was = false;
        for (unsigned j = 0; j < N; j++) was |= (j == k) & in[j];
        ks::check(s.add_sender(uid(1, k)) == (was ? 0 : 1), "add_sender reports the number of senders added");
        for (unsigned j = 0; j < N; j++) in[j] |= j == k;
        break;
      }
      case 1: {
        unsigned k = ks::range(0, N - 1, "sender");
        bool was = false;
        for (unsigned j = 0; j < N; j++) was |= (j == k) & in[j];
        ks::check(s.remove_sender(uid(1, k)) == (was ? 1 : 0), "remove_sender reports the number of senders removed");
        for (unsigned j = 0; j < N; j++) in[j] &= j != k;
        break;
      }
      case 2: {
        std::vector<UID> v;
        size_t added = 0;
        unsigned n = ks::choose(3, "count");
        for (unsigned i = 0; i < n; i++) {
          unsigned k = ks::range(0, N - 1, "sender");
          v.push_back(uid(1, k));
          for (unsigned j = 0; j < N; j++) if (j == k && !in[j]) { in[j] = true; added++; }
        }
        ks::check(s.add_senders(v) == added, "add_senders reports the number of senders added");
        break;
      }
    }
    check_set(s, in);
  }
  ks::check(s.get_receiver_uid() == uid(2, 0), "the receiver stays the same");
  ks::check(s.get_messages().empty(), "no messages appear by themselves");
}
struct Sub { bool on = false; bool in[N] = {}; };
static void endpoint() {
  auto bus = MessageBus::construct_cpu_bus();
  MessageEndpoint ep = bus->create_endpoint();
  MessageEndpoint out = bus->create_endpoint();
  Sub subs[2][2];  // receiver, type
  auto verify = [&]() {
    size_t want = 0;
    for (unsigned r = 0; r < 2; r++) for (unsigned t = 0; t < 2; t++) want += subs[r][t].on;
    const auto &all = ep.get_endpoint_subscriptions();
    ks::check(all.size() == want, "the endpoint has exactly the requested subscriptions");
    for (const auto &[key, var] : all) {
      ks::check(key == MessageEndpoint::get_subscription_key(var), "a subscription is kept under its own key");
      UID r = MessageEndpoint::get_receiver_uid(var);
      unsigned t = var.index(), ri = r == uid(2, 0) ? 0 : 1;
      ks::check(r == uid(2, ri) && subs[ri][t].on, "every subscription was requested");
      std::visit([&](const auto &s) { check_set(s, subs[ri][t].in); }, var);
    }
  };
  for (unsigned o = 0; o < knpsym_param(1); o++) {
    unsigned r = ks::choose(2, "receiver"), t = ks::choose(2, "type");
    Sub &s = subs[r][t];
    switch (ks::choose(4, "op")) {
      case 0: {
        std::vector<UID> v;
        unsigned n = ks::choose(3, "count");
        for (unsigned i = 0; i < n; i++) { unsigned k = ks::range(0, N - 1, "sender"); v.push_back(uid(1, k)); for (unsigned j = 0; j < N; j++) s.in[j] |= j == k; }
        s.on = true;
        if (t == 0) check_set(ep.subscribe<SpikeMessage>(uid(2, r), v), s.in);
        else check_set(ep.subscribe<SynapticImpactMessage>(uid(2, r), v), s.in);
        break;
      }
      case 1: {
        bool was = t == 0 ? ep.unsubscribe<SpikeMessage>(uid(2, r)) : ep.unsubscribe<SynapticImpactMessage>(uid(2, r));
        ks::check(was == s.on, "unsubscribe reports whether there was a subscription");
        s = Sub();
        break;
      }
      case 2:
        ep.remove_receiver(uid(2, r));
        subs[r][0] = subs[r][1] = Sub();
        break;
      case 3: {  // one sender leaves a subscription
        if (!s.on) break;
        unsigned k = ks::choose(N, "sender");
        size_t was = s.in[k];
        const auto &all = ep.get_endpoint_subscriptions();
        auto it = all.find(std::make_pair(size_t(t), uid(2, r)));
        ks::check(it != all.end(), "a requested subscription is found");
        size_t got = std::visit([&](const auto &x) { return const_cast<std::decay_t<decltype(x)> &>(x).remove_sender(uid(1, k)); }, it->second);
        ks::check(got == was, "removing a sender reports whether it was there");
        s.in[k] = false;
        break;
      }
    }
    verify();
  }
  // delivery follows the subscriptions
  unsigned k = ks::choose(N, "from");
  out.send_message(SpikeMessage{{uid(1, k), 3}, {ks::sym<uint32_t>("index")}});
  out.send_message(SynapticImpactMessage{{uid(1, k), 4}, uid(3, 0), uid(3, 1), false, {}});
  bus->route_messages();
  ep.receive_all_messages();
  for (unsigned r = 0; r < 2; r++) {
    ks::check(ep.unload_messages<SpikeMessage>(uid(2, r)).size() == (subs[r][0].on && subs[r][0].in[k] ? 1 : 0), "spikes go exactly to the subscribed receivers");
    ks::check(ep.unload_messages<SynapticImpactMessage>(uid(2, r)).size() == (subs[r][1].on && subs[r][1].in[k] ? 1 : 0), "impacts go exactly to the subscribed receivers");
  }
}
extern "C" void knp_harness() {
  ks::expect("end");
  if (knpsym_param(0) == 0) { if (ks::choose(2, "type")) object<SpikeMessage>(); else object<SynapticImpactMessage>(); }
  else endpoint();
  ks::reach("end");
}

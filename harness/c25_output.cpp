// C25: output channels give each message of a window once; converters reflect exactly the indexes present.
// params: 0 mode (0 channel, 1 converters, 2 channel and converter), 1 messages, 2 reads or largest output size, 3 indexes per message
#include <knp/core/message_bus.h>
#include <knp/framework/io/out_converters/convert_bitwise.h>
#include <knp/framework/io/out_converters/convert_count.h>
#include <knp/framework/io/out_converters/convert_set.h>
#include <knp/framework/io/output_channel.h>
#include "knpsym.h"
using namespace knp::core;
using namespace knp::core::messaging;
namespace out = knp::framework::io::output;
static UID uid(unsigned n) { UID u(false); u.tag.data[15] = n; return u; }
struct Msg { unsigned from; uint64_t step; uint32_t index; bool read; };
static void channel() {
  auto bus = MessageBus::construct_cpu_bus();
  auto sender = bus->create_endpoint(), target = bus->create_endpoint();
  target.subscribe<SpikeMessage>(uid(9), {uid(1), uid(2)});
  out::OutputChannel ch(uid(9), std::move(target));
  ks::check(ch.get_uid() == uid(9), "a channel has the UID it was given");
  std::vector<Msg> sent;
  const unsigned n = knpsym_param(1), reads = knpsym_param(2);
  unsigned left = n;
  for (unsigned r = 0; r < reads; r++) {
    const unsigned k = ks::choose(left + 1, "messages");
    left -= k;
    for (unsigned i = 0; i < k; i++) {
      Msg m{ks::choose(3, "from"), ks::sym<uint64_t>("step"), ks::sym<uint32_t>("index"), false};
      m.index = m.index << 4 | sent.size();  // no two are equal
      sender.send_message(SpikeMessage{{uid(1 + m.from), m.step}, {m.index}});
      if (m.from != 2) sent.push_back(m);  // the third sender is not connected
      if (i + 1 < k && ks::choose(2, "route")) bus->route_messages();
    }
    bus->route_messages();
    const auto all = ch.update();
    std::vector<Msg *> have;
    for (auto &m : sent) if (!m.read) have.push_back(&m);
    ks::check(all.size() == have.size(), "updating gives every message not yet read");
    const uint64_t from = ks::sym<uint64_t>("window_from"), to = ks::sym<uint64_t>("window_to");
    const auto got = ch.read_some_from_buffer(from, to);
    size_t at = 0;
    for (auto *m : have)
      if (m->step >= from && m->step <= to) {
        m->read = true;
        size_t found = 0;
        for (auto &g : got)
          found += (g.header_.send_time_ == m->step) & (memcmp(g.header_.sender_uid_.tag.data, uid(1 + m->from).tag.data, 16) == 0) & (g.neuron_indexes_.size() == 1 && g.neuron_indexes_[0] == m->index);
        ks::check(found >= 1, "every message of the window is read, unchanged");
        at++;
        ks::reach("read");
      }
    for (size_t i = 1; i < got.size(); i++) ks::check(got[i - 1].header_.send_time_ <= got[i].header_.send_time_, "messages are read in the order of their steps");
    ks::check(at == got.size(), "no other message is read");
  }
  size_t unread = 0;
  for (auto &m : sent) unread += !m.read;
  ks::check(ch.update().size() == unread, "reading removes exactly the messages it gave");
  ks::reach("end");
}
static void converters() {
  const unsigned n = knpsym_param(1), per = knpsym_param(3);
  const size_t size = ks::choose(knpsym_param(2) + 1, "size");
  std::vector<SpikeMessage> list;
  for (unsigned i = 0, k = ks::choose(n + 1, "messages"); i < k; i++) {
    SpikeMessage m{{uid(1), i}, {}};
    for (unsigned j = 0, c = ks::choose(per + 1, "spikes"); j < c; j++) m.neuron_indexes_.push_back(ks::sym<uint32_t>("index"));
    list.push_back(m);
  }
  std::vector<size_t> count(size, 0);
  for (auto &m : list) for (auto x : m.neuron_indexes_) for (size_t i = 0; i < size; i++) count[i] += x == i;
  const auto c = out::converter_count(list, size);
  const auto b = out::converter_bitwise(list, size);
  ks::check(c.size() == size && b.size() == size, "the result has the requested size");
  for (size_t i = 0; i < size && i < c.size() && i < b.size(); i++) {
    ks::check(c[i] == count[i], "every spike is counted for its neuron");
    ks::check(b[i] == (count[i] != 0), "exactly the bits of the neurons that spiked are set");
  }
  // the set of an output of any size
  const size_t any = ks::sym<size_t>("set_size");
  const auto s = out::ConvertToSet(any)(list);
  size_t distinct = 0;
  std::vector<uint32_t> seen;
  for (auto &m : list) for (auto x : m.neuron_indexes_) {
    bool old = false;
    for (auto y : seen) old |= x == y;
    seen.push_back(x);
    if (x >= any) continue;
    ks::check(s.count(x) == 1, "a neuron that spiked is in the set");
    distinct += !old;
  }
  ks::check(s.size() == distinct, "nothing else is in the set");
  ks::reach("end");
}
static void get() {
  auto bus = MessageBus::construct_cpu_bus();
  auto sender = bus->create_endpoint(), target = bus->create_endpoint();
  target.subscribe<SpikeMessage>(uid(9), {uid(1)});
  out::OutputChannel ch(uid(9), std::move(target));
  const unsigned n = knpsym_param(1);
  const size_t size = knpsym_param(2);
  std::vector<size_t> count(size, 0);
  const uint64_t from = ks::sym<uint64_t>("window_from"), to = ks::sym<uint64_t>("window_to");
  for (unsigned i = 0; i < n; i++) {
    const uint64_t step = ks::sym<uint64_t>("step");
    const uint32_t index = ks::sym<uint32_t>("index");
    sender.send_message(SpikeMessage{{uid(1), step}, {index}});
    for (size_t k = 0; k < size; k++) count[k] += (index == k) & (step >= from) & (step <= to);
    if (ks::choose(2, "route")) bus->route_messages();
  }
  bus->route_messages();
  out::OutputConverter<std::vector<size_t>> conv = [size](const std::vector<SpikeMessage> &l) { return out::converter_count(l, size); };
  const auto c = out::output_channel_get<std::vector<size_t>>(ch, conv, from, to);
  for (size_t k = 0; k < size; k++) ks::check(c[k] == count[k], "the converter gets exactly the messages of the window");
  const auto again = out::output_channel_get<std::vector<size_t>>(ch, conv, from, to);
  for (size_t k = 0; k < size; k++) ks::check(again[k] == 0, "a message is given once");
  ks::reach("end");
}
extern "C" void knp_harness() {
  ks::expect("end");
  switch (knpsym_param(0)) {
    case 0: ks::expect("read"); return channel();
    case 1: return converters();
    default: return get();
  }
}

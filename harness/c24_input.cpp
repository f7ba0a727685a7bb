// C24: input channels and converters turn step data into exactly the right spikes.
// params: 0 mode (0 channel, 1 sequence of integers, 2 sequence of floating point values, 3 index lines), 1 steps or calls, 2 values per step, 3 digits
#include <knp/core/message_bus.h>
#include <knp/framework/io/in_converters/index_converter.h>
#include <knp/framework/io/in_converters/sequence_converter.h>
#include <knp/framework/io/input_channel.h>
#include <knp/framework/io/input_interpreters.h>
#include "knpsym.h"
using namespace knp::core;
using namespace knp::core::messaging;
namespace in = knp::framework::io::input;
static UID uid(unsigned n) { UID u(false); u.tag.data[15] = n; return u; }
static void channel() {
  const unsigned steps = knpsym_param(1), most = knpsym_param(2);
  auto bus = MessageBus::construct_cpu_bus();
  auto target = bus->create_endpoint();
  std::vector<std::pair<uint64_t, SpikeData>> asked;
  auto gen = [&](Step s) {
    SpikeData d;
    for (unsigned i = 0, k = ks::choose(most + 1, "spikes"); i < k; i++) d.push_back(ks::sym<uint32_t>("index"));
    asked.emplace_back(s, d);
    return d;
  };
  in::InputChannel ch(uid(1), bus->create_endpoint(), gen);
  in::InputChannel idle(uid(2), bus->create_endpoint(), [](Step) { return SpikeData{7}; });
  in::connect_input(ch, target, uid(9));
  ks::check(memcmp(ch.get_uid().tag.data, uid(1).tag.data, 16) == 0, "a channel has the UID it was given");
  for (unsigned i = 0; i < steps; i++) {
    const uint64_t step = ks::sym<uint64_t>("step");
    const bool sent = ch.send(step);
    if (ks::choose(2, "other")) idle.send(step);
    ks::check(asked.size() == i + 1 && asked[i].first == step, "the generator is asked once for the step");
    ks::check(sent == !asked[i].second.empty(), "a channel sends exactly when there are spikes");
    bus->route_messages();
    target.receive_all_messages();
    const auto got = target.unload_messages<SpikeMessage>(uid(9));
    ks::check(got.size() == (sent ? 1 : 0), "one message per step with spikes");
    for (auto &m : got) {
      ks::check(memcmp(m.header_.sender_uid_.tag.data, uid(1).tag.data, 16) == 0, "the sender is the channel");
      ks::check(m.header_.send_time_ == step, "the message is stamped with the step");
      bool same = m.neuron_indexes_.size() == asked[i].second.size();
      for (size_t j = 0; same && j < asked[i].second.size(); j++) same = m.neuron_indexes_[j] == asked[i].second[j];
      ks::check(same, "the message holds the spikes of the generator");
    }
  }
  ks::reach("end");
}
static std::string number(unsigned digits, unsigned long &value) {
  std::string s;
  value = 0;
  for (unsigned i = 0, k = digits < 2 ? 1 : ks::choose(digits, "digits") + 1; i < k; i++) {
    const unsigned d = ks::range(0, 9, "digit");
    s.push_back('0' + d);
    value = value * 10 + d;
  }
  return s;
}
template <class V> void sequence() {
  const unsigned calls = knpsym_param(1), size = knpsym_param(2), digits = knpsym_param(3);
  const unsigned total = calls * size - ks::choose(calls * size < 2 ? 2 : 3, "missing");
  std::vector<V> values;
  std::string text;
  for (unsigned i = 0; i < total; i++) {
    unsigned long v = 0;
    if (i) text += i % size ? " " : "\n";
    if (std::is_same_v<V, float>) {
      static const char *w[] = {"0", "1", "0.5", "-2"};
      static const float f[] = {0.f, 1.f, 0.5f, -2.f};
      const unsigned k = ks::choose(4, "value");
      text += w[k];
      values.push_back((V)f[k]);
    } else {
      text += number(digits, v);
      values.push_back((V)v);
    }
  }
  if (ks::choose(2, "newline")) text += "\n";
  const bool as_bool = ks::choose(2, "as_bool");
  const V threshold = std::is_same_v<V, float> ? (V)(0.25f * ks::range(0, 8, "threshold")) : ks::sym<V>("threshold");
  std::function<bool(V)> f;
  if (as_bool) f = in::interpret_as_bool<V>; else f = in::interpret_with_threshold<V>(threshold);
  in::SequenceConverter<V> conv(std::make_unique<std::stringstream>(text), f, size);
  size_t at = 0;
  for (unsigned c = 0; c <= calls; c++) {
    const size_t now = c == 0 || !knpsym_param(4) ? size : size - 1;
    if (now != size) conv.set_size(now);
    const SpikeData got = conv(c);
    size_t k = 0;
    for (size_t i = 0; i < now && at < values.size(); i++, at++)
      if (as_bool ? values[at] != 0 : !(values[at] < threshold)) {
        ks::check(k < got.size() && got[k] == i, "a position whose value is true gives a spike");
        k++;
        ks::reach("spike");
      }
    ks::check(k == got.size(), "no other position gives a spike");
  }
  ks::reach("end");
}
static void lines() {
  const unsigned calls = knpsym_param(1), most = knpsym_param(2), digits = knpsym_param(3);
  static const char delims[] = {',', ';', ' '};
  const char delim = delims[ks::choose(3, "delimiter")];
  std::vector<std::vector<unsigned long>> want(calls);
  std::string text;
  for (unsigned i = 0; i < calls; i++) {
    const unsigned n = ks::choose(most + 1, "indexes");
    for (unsigned j = 0; j < n; j++) {
      unsigned long v;
      if (j) text.push_back(delim);
      text += number(digits, v);
      want[i].push_back(v);
    }
    if (n && ks::choose(2, "trailing")) text.push_back(delim);
    if (i + 1 < calls || ks::choose(2, "newline")) text += "\n";
  }
  in::IndexConverter conv = delim == ',' ? in::IndexConverter(std::make_unique<std::stringstream>(text)) : in::IndexConverter(std::make_unique<std::stringstream>(text), delim);
  for (unsigned i = 0; i <= calls; i++) {
    const SpikeData got = conv(i);
    const std::vector<unsigned long> none, &w = i < calls ? want[i] : none;
    ks::check(got.size() == w.size(), "a line gives as many spikes as it lists");
    for (size_t j = 0; j < w.size() && j < got.size(); j++) ks::check(got[j] == w[j], "a line gives the indexes it lists");
    if (got.size() > 1) ks::reach("several");
  }
  ks::reach("end");
}
extern "C" void knp_harness() {
  ks::expect("end");
  switch (knpsym_param(0)) {
    case 0: return channel();
    case 1: ks::expect("spike"); return sequence<int>();
    case 2: ks::expect("spike"); return sequence<float>();
    default: ks::expect("several"); return lines();
  }
}

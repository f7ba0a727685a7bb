// C05: text written by the stream operators reads back to an equal value, whatever the target held.
// params: 0 what (0 header, 1 spikes, 2 impact, 3 impact message, 4 two values in one stream), 1 largest count
#include <knp/core/messaging/messaging.h>
#include "knpsym.h"
#include <sstream>
using namespace knp::core;
using namespace knp::core::messaging;
using OT = knp::synapse_traits::OutputType;
static UID someuid(unsigned k) {
  UID u(false);
  if (k == 0) return u;
  for (int i = 0; i < 16; i++) u.tag.data[i] = k * 37 + i * 11;
  return u;
}
static bool eq(const UID &a, const UID &b) { return memcmp(a.tag.data, b.tag.data, 16) == 0; }
static const float values[] = {0.f, -1.5f, 0.1f, 3.4e38f, 1e-30f, 0.333333343f};
// a few symbolic numbers around a size at which a field could lose digits; which one rotates from field to field
static unsigned rot = 0;
static uint64_t num64(const char *n) {
  static const uint64_t base[] = {8, 0x7ffffffe, 0xfffffffe, 0x7ffffffffffffffe, 0xfffffffffffffffc};
  return base[rot++ % 5] + ks::range(0, 3, n);
}
static uint32_t num32(const char *n) {
  static const uint32_t base[] = {8, 0x7ffffffe, 0xfffffffc, 98};
  return base[rot++ % 4] + (uint32_t)ks::range(0, 3, n);
}
static SynapticImpact impact() {
  return {num64("connection"), values[ks::choose(3, "value") + 2 * (knpsym_param(1) & 1)], (OT)ks::range(0, 4, "type"), num32("from"), num32("to")};
}
static void same(const SynapticImpact &x, const SynapticImpact &y) {
  ks::check(x.connection_index_ == y.connection_index_, "impact keeps its connection index");
  ks::check(x.impact_value_ == y.impact_value_, "impact keeps its value");
  ks::check(x.synapse_type_ == y.synapse_type_, "impact keeps its synapse type");
  ks::check(x.presynaptic_neuron_index_ == y.presynaptic_neuron_index_, "impact keeps its presynaptic neuron");
  ks::check(x.postsynaptic_neuron_index_ == y.postsynaptic_neuron_index_, "impact keeps its postsynaptic neuron");
  ks::check(x == y, "impacts compare equal");
}
extern "C" void knp_harness() {
  ks::expect("end");
  rot = ks::choose(5, "size");
  const size_t most = knpsym_param(1);
  std::stringstream ss;
  ss.precision(9);
  switch (knpsym_param(0)) {
    case 0: {
      MessageHeader h{someuid(ks::choose(3, "uid")), num64("time")}, r{someuid(5), 77};
      ss << h;
      ss >> r;
      ks::check(eq(h.sender_uid_, r.sender_uid_), "header keeps its sender");
      ks::check(h.send_time_ == r.send_time_, "header keeps its time");
      break;
    }
    case 1: {
      SpikeMessage m{{someuid(ks::choose(2, "uid")), num64("time")}, {}}, r{{someuid(5), 77}, {}};
      size_t n = ks::choose(most + 1, "count"), old = ks::choose(most + 1, "old");
      for (size_t i = 0; i < n; i++) m.neuron_indexes_.push_back(num32("index"));
      for (size_t i = 0; i < old; i++) r.neuron_indexes_.push_back(1000 + i);
      ss << m;
      ss >> r;
      ks::check(eq(m.header_.sender_uid_, r.header_.sender_uid_), "spike message keeps its sender");
      ks::check(m.header_.send_time_ == r.header_.send_time_, "spike message keeps its time");
      ks::check(m.neuron_indexes_.size() == r.neuron_indexes_.size(), "spike message keeps the number of spikes");
      for (size_t i = 0; i < n; i++) ks::check(m.neuron_indexes_[i] == r.neuron_indexes_[i], "spike message keeps every index in order");
      ks::check(m == r, "spike messages compare equal");
      break;
    }
    case 2: {
      SynapticImpact m = impact(), r{5, 6, OT::DOPAMINE, 7, 8};
      ss << m;
      ss >> r;
      same(m, r);
      break;
    }
    case 3: {
      SynapticImpactMessage m{{someuid(1), num64("time")}, someuid(2), someuid(3), ks::sym<bool>("forcing"), {}}, r{{someuid(5), 77}, someuid(6), someuid(7), ks::choose(2, "oldforcing") != 0, {}};
      size_t n = ks::choose(most + 1, "count"), old = ks::choose(most + 1, "old");
      for (size_t i = 0; i < n; i++) m.impacts_.push_back({i ? 0xfffffffff0ull + i : i + 1, values[1 + i], (OT)(i ? 1 : ks::range(0, 4, "type")), num32("from"), uint32_t(8 + i)});
      for (size_t i = 0; i < old; i++) r.impacts_.push_back({9, 9, OT::BLOCKING, 9, 9});
      ss << m;
      ss >> r;
      ks::check(eq(m.header_.sender_uid_, r.header_.sender_uid_), "impact message keeps its sender");
      ks::check(m.header_.send_time_ == r.header_.send_time_, "impact message keeps its time");
      ks::check(eq(m.presynaptic_population_uid_, r.presynaptic_population_uid_), "impact message keeps the presynaptic population");
      ks::check(eq(m.postsynaptic_population_uid_, r.postsynaptic_population_uid_), "impact message keeps the postsynaptic population");
      ks::check(m.is_forcing_ == r.is_forcing_, "impact message keeps the forcing flag");
      ks::check(m.impacts_.size() == r.impacts_.size(), "impact message keeps the number of impacts");
      for (size_t i = 0; i < n; i++) same(m.impacts_[i], r.impacts_[i]);
      ks::check(m == r, "impact messages compare equal");
      break;
    }
    default: {  // values one after another in the same stream
      SpikeMessage a{{someuid(1), num64("time")}, {}}, b = a, r;
      size_t n = ks::choose(most + 1, "count");
      for (size_t i = 0; i < n; i++) a.neuron_indexes_.push_back(num32("index"));
      b.header_.send_time_ = num64("time");
      b.neuron_indexes_.push_back(11);
      ss << a << b;
      ss >> r;
      ks::check(r == a, "the first of two messages reads back");
      ss >> r;
      ks::check(r == b, "the second of two messages reads back");
    }
  }
  ks::check(!ss.fail(), "reading succeeds");
  ks::reach("end");
}

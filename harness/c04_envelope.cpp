// C04: packing and extracting gives back the same message. params: 0 largest count, 1 message type
#include <knp/core/messaging/message_envelope.h>
#include "knpsym.h"
using namespace knp::core;
using namespace knp::core::messaging;
using OT = knp::synapse_traits::OutputType;
static UID symuid(const char *n) {
  UID u(false);
  uint64_t a = ks::sym<uint64_t>(n), b = ks::sym<uint64_t>(n);
  memcpy(u.tag.data, &a, 8);
  memcpy(u.tag.data + 8, &b, 8);
  return u;
}
static bool eq(const UID &a, const UID &b) { return memcmp(a.tag.data, b.tag.data, 16) == 0; }
static void same(const SpikeMessage &a, const SpikeMessage &b) {
  ks::check(eq(a.header_.sender_uid_, b.header_.sender_uid_), "spike message keeps its sender");
  ks::check(a.header_.send_time_ == b.header_.send_time_, "spike message keeps its time");
  ks::check(a.neuron_indexes_.size() == b.neuron_indexes_.size(), "spike message keeps the number of spikes");
  for (size_t i = 0; i < b.neuron_indexes_.size(); i++) { ks::check(a.neuron_indexes_[i] == b.neuron_indexes_[i], "spike message keeps every index in order"); ks::obs("index", a.neuron_indexes_[i]); }
}
static void same(const SynapticImpactMessage &a, const SynapticImpactMessage &b) {
  ks::check(eq(a.header_.sender_uid_, b.header_.sender_uid_), "impact message keeps its sender");
  ks::check(a.header_.send_time_ == b.header_.send_time_, "impact message keeps its time");
  ks::check(eq(a.presynaptic_population_uid_, b.presynaptic_population_uid_), "impact message keeps the presynaptic population");
  ks::check(eq(a.postsynaptic_population_uid_, b.postsynaptic_population_uid_), "impact message keeps the postsynaptic population");
  ks::check(a.is_forcing_ == b.is_forcing_, "impact message keeps the forcing flag");
  ks::check(a.impacts_.size() == b.impacts_.size(), "impact message keeps the number of impacts");
  for (size_t i = 0; i < b.impacts_.size(); i++) {
    const SynapticImpact &x = a.impacts_[i], &y = b.impacts_[i];
    ks::check(x.connection_index_ == y.connection_index_, "impact keeps its connection index");
    ks::check(ks::same(x.impact_value_, y.impact_value_), "impact keeps its value");
    ks::check(x.synapse_type_ == y.synapse_type_, "impact keeps its synapse type");
    ks::check(x.presynaptic_neuron_index_ == y.presynaptic_neuron_index_, "impact keeps its presynaptic neuron");
    ks::check(x.postsynaptic_neuron_index_ == y.postsynaptic_neuron_index_, "impact keeps its postsynaptic neuron");
    ks::obs("value", x.impact_value_);
  }
}
template <class M> void go(const M &m) {
  std::vector<uint8_t> env = pack_to_envelope(m);
  const MessageVariant v = ks::choose(2, "api") ? extract_from_envelope(env) : extract_from_envelope(env.data());
  ks::check(std::holds_alternative<M>(v), "the extracted message has the type of the packed one");
  same(std::get<M>(v), m);
  ks::reach("end");
}
extern "C" void knp_harness() {
  ks::expect("end");
  const size_t n = ks::choose(knpsym_param(0) + 1, "count");
  if (knpsym_param(1) == 0) {
    SpikeMessage m{{symuid("sender"), ks::sym<uint64_t>("time")}, {}};
    for (size_t i = 0; i < n; i++) m.neuron_indexes_.push_back(ks::sym<uint32_t>("index"));
    go(m);
  } else {
    SynapticImpactMessage m{{symuid("sender"), ks::sym<uint64_t>("time")}, symuid("pre"), symuid("post"), ks::sym<bool>("forcing"), {}};
    for (size_t i = 0; i < n; i++)
      m.impacts_.push_back({ks::sym<uint64_t>("connection"), ks::sym<float>("value"), (OT)ks::range(0, 4, "type"), ks::sym<uint32_t>("from"), ks::sym<uint32_t>("to")});
    go(m);
  }
}

// What the backend harnesses share: a single-threaded backend driven through its public interface.
#pragma once
#include <knp/backends/cpu-single-threaded/backend.h>
#ifdef KNP_MT
#include <knp/backends/cpu-multi-threaded/backend.h>
#endif
#include <knp/core/messaging/messaging.h>
#include "knpsym.h"
#include <vector>
namespace nt = knp::neuron_traits;
namespace st = knp::synapse_traits;
using knp::core::UID;
using knp::core::messaging::SpikeMessage;
using knp::core::messaging::SynapticImpact;
using knp::core::messaging::SynapticImpactMessage;
using OT = st::OutputType;
inline UID mkuid(unsigned k) {
  std::array<uint8_t, 16> d{};
  for (int i = 0; i < 16; i++) d[i] = k * 29 + i * 7 + 1;
  return UID(d);
}
template <class Base> struct Opened : Base {
  using Base::Base;
  using Base::_init;
  using Base::_step;
};
using ST = Opened<knp::backends::single_threaded_cpu::SingleThreadedCPUBackend>;
// The backend under test: with KNP_MT the multi-threaded one, one schedule of its threads (C15 is about the others).
#ifdef KNP_MT
using MTBase = Opened<knp::backends::multi_threaded_cpu::MultiThreadedCPUBackend>;
struct BK : MTBase {
  BK() : MTBase((knpsym_one_schedule(1), 1), 1, 1) {}
  // a step of this backend does not look for new messages before it calculates the populations
  void arrive() { get_message_bus().route_messages(); get_message_endpoint().receive_all_messages(); }
};
#else
struct BK : ST { void arrive() {} };
#endif
// Lets a backend begin near a boundary of the step counter; 0 where the counter cannot be set.
template <class B> auto set_step(B &b, uint64_t s, int) -> decltype(b.step_ = s, uint64_t()) { b.step_ = s; return s; }
template <class B> uint64_t set_step(B &, uint64_t, long) { return 0; }
template <class B> uint64_t first_step(B &b) {
  static const uint64_t from[] = {(uint64_t(1) << 31) - 2, (uint64_t(1) << 32) - 2, (uint64_t(1) << 63) - 2};
  return set_step(b, from[ks::choose(3, "first_step")], 0);
}
inline bool ueq(const UID &a, const UID &b) { return memcmp(a.tag.data, b.tag.data, 16) == 0; }
// sends messages to the bus of a backend and reads what others sent
struct Spy {
  knp::core::MessageEndpoint ep;
  UID me = mkuid(100);
  explicit Spy(knp::core::Backend &b) : ep(b.get_message_bus().create_endpoint()) {}
  template <class M> void watch(const UID &who) { ep.subscribe<M>(me, {who}); }
  template <class M> std::vector<M> take() { ep.receive_all_messages(); return ep.unload_messages<M>(me); }
};

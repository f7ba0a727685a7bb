// A model of what KNP uses of Intel PCM: sockets that are on line or not, and a counter of energy.
#pragma once
#include <unistd.h>
#include <cassert>
#include <cstdint>
#include <string>
namespace pcm {
struct SocketCounterState { uint64_t energy = 0; };
inline unsigned pcm_sockets = 1, pcm_online = 1;  // number of sockets, a bit for every socket on line
inline uint64_t pcm_energy = 0;
inline bool pcm_metrics = true;
class PCM {
public:
  enum ErrorCode { Success = 0, MSRAccessDenied = 1, PMUBusy = 2, UnknownError };
  enum ProgramMode { DEFAULT_EVENTS = 0 };
  static PCM *getInstance() { static PCM p; return &p; }
  ErrorCode program(ProgramMode, const void *, bool, int) { return Success; }
  std::string getCPUBrandString() { return "Some CPU"; }
  std::string getCPUFamilyModelString() { return "Model-6-1"; }
  uint32_t getNumSockets() { return pcm_sockets; }
  bool isSocketOnline(int32_t n) { return pcm_online >> n & 1; }
  bool packageEnergyMetricsAvailable() { return pcm_metrics; }
  SocketCounterState getSocketCounterState(uint32_t n) { SocketCounterState s; s.energy = pcm_energy * (n + 1); return s; }
};
inline double getConsumedJoules(const SocketCounterState &a, const SocketCounterState &b) { return double(b.energy - a.energy); }
}  // namespace pcm

// API used by the harnesses. Under the engine these are intercepted; natively they replay a recorded input file.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <type_traits>
extern "C" {
void knpsym_make(void *p, size_t n, const char *name);
unsigned knpsym_choose(unsigned n, const char *name);  // 0..n-1, one path each
void knpsym_assume(int c);
void knpsym_assert(int c, const char *msg);
void knpsym_fail(const char *msg);
void knpsym_observe(const char *tag, uint64_t bits, int kind);  // kind 0 integer, 1 float, 2 double
void knpsym_reach(const char *tag);
void knpsym_expect(const char *tag);
unsigned long knpsym_param(unsigned i);
int knpsym_is_symbolic();
void knpsym_symbolic_random(int on);  // from now on random bytes are symbolic inputs
void knpsym_one_schedule(int on);  // from now on: threads run in a fixed order
void knpsym_yield();
void knpsym_block(void *addr, unsigned val);
int knpsym_thread_create(void (*fn)(void *), void *arg);
int knpsym_thread_done(int id);
int knpsym_self();
}
namespace ks {
template <class T> T sym(const char *name) {
  static_assert(std::is_trivially_copyable_v<T> && sizeof(T) <= 16);
  T v;
  knpsym_make(&v, sizeof v, name);
  return v;
}
template <> inline bool sym<bool>(const char *name) {
  uint8_t b;
  knpsym_make(&b, 1, name);
  return (b & 1) != 0;
}
inline uint64_t range(uint64_t lo, uint64_t hi, const char *name) {  // symbolic, lo <= v <= hi
  uint64_t n = hi - lo, mask = 1;
  if (n == 0) return lo;
  while (mask < n) mask = mask * 2 + 1;
  uint64_t v;
  if (mask < 256) { uint8_t b; knpsym_make(&b, 1, name); v = b & mask; }
  else { knpsym_make(&v, 8, name); v &= mask; }
  if (mask != n) knpsym_assume(v <= n);
  return lo + v;
}
inline unsigned choose(unsigned n, const char *name) { return knpsym_choose(n, name); }
inline void check(bool c, const char *msg) { knpsym_assert(c, msg); }
inline void obs(const char *t, float v) { uint32_t b; memcpy(&b, &v, 4); knpsym_observe(t, b, 1); }
inline void obs(const char *t, double v) { uint64_t b; memcpy(&b, &v, 8); knpsym_observe(t, b, 2); }
template <class T, class = std::enable_if_t<std::is_integral_v<T> || std::is_enum_v<T>>> void obs(const char *t, T v) { knpsym_observe(t, (uint64_t)v, 0); }
inline void expect(const char *t) { knpsym_expect(t); }
inline void reach(const char *t) { knpsym_reach(t); }
// a finite number
inline float finite(const char *name) { float f = sym<float>(name); uint32_t b; memcpy(&b, &f, 4); knpsym_assume((b & 0x7f800000u) != 0x7f800000u); return f; }
inline double dfinite(const char *name) { double f = sym<double>(name); uint64_t b; memcpy(&b, &f, 8); knpsym_assume((b & 0x7ff0000000000000ull) != 0x7ff0000000000000ull); return f; }
// bitwise equality; NaN payloads are not compared
inline bool same(float a, float b) { uint32_t x, y; memcpy(&x, &a, 4); memcpy(&y, &b, 4); return (x == y) | ((a != a) & (b != b)); }
inline bool same(double a, double b) { uint64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return (x == y) | ((a != a) & (b != b)); }
}  // namespace ks

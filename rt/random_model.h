// Model of the randomness of the environment: every generator and distribution of <random> that the repository uses gives an arbitrary value of its range.
// Force-included before the code under test; the replay program uses the same file.
#pragma once
#include <algorithm>
#include <random>
#include <iterator>
#include <cstdint>
#include <boost/uuid/uuid_generators.hpp>
#include <boost/uuid/uuid.hpp>
#include <boost/uuid/uuid_io.hpp>
extern "C" {
void knpsym_make(void *p, unsigned long n, const char *name);
void knpsym_assume(int c);
}
namespace std {
struct knp_random_engine {
  using result_type = uint32_t;
  static constexpr result_type default_seed = 5489u;
  knp_random_engine() = default;
  template <class S> explicit knp_random_engine(S &&) {}
  knp_random_engine(const knp_random_engine &) = default;
  knp_random_engine &operator=(const knp_random_engine &) = default;
  template <class S> void seed(S &&) {}
  void seed() {}
  static constexpr result_type min() { return 0; }
  static constexpr result_type max() { return 0xffffffffu; }
  result_type operator()() { result_type v; knpsym_make(&v, sizeof v, "random"); return v; }
  void discard(unsigned long long) {}
};
struct knp_random_device {
  using result_type = unsigned int;
  knp_random_device() = default;
  template <class S> explicit knp_random_device(S &&) {}
  static constexpr result_type min() { return 0; }
  static constexpr result_type max() { return 0xffffffffu; }
  result_type operator()() { result_type v; knpsym_make(&v, sizeof v, "random"); return v; }
  double entropy() const { return 32; }
};
template <class T> struct knp_pick {  // a value of [a, b]
  static T get(T a, T b) {
    uint64_t n = uint64_t(b) - uint64_t(a), mask = 1;
    if (n == 0) return a;
#ifdef KNP_SMALL_RANDOM  // bound: draws from an enormous range are below KNP_SMALL_RANDOM, a power of two
    if (n > 0xffffffffu) n = KNP_SMALL_RANDOM - 1;
#endif
    while (mask < n) mask = mask * 2 + 1;
    uint64_t v = 0;
    if (mask < 256) { uint8_t x; knpsym_make(&x, 1, "random"); v = x & mask; }
    else { knpsym_make(&v, 8, "random"); v &= mask; }
    if (mask != n) knpsym_assume(v <= n);
    return T(uint64_t(a) + v);
  }
};
template <class T = int> struct knp_uniform_int {
  using result_type = T;
  struct param_type { T a_, b_; using distribution_type = knp_uniform_int; explicit param_type(T a = 0, T b = numeric_limits<T>::max()) : a_(a), b_(b) {} T a() const { return a_; } T b() const { return b_; } };
  param_type p;
  explicit knp_uniform_int(T a = 0, T b = numeric_limits<T>::max()) : p(a, b) {}
  explicit knp_uniform_int(const param_type &q) : p(q) {}
  template <class G> T operator()(G &) { return knp_pick<T>::get(p.a_, p.b_); }
  template <class G> T operator()(G &, const param_type &q) { return knp_pick<T>::get(q.a_, q.b_); }
  T a() const { return p.a_; }
  T b() const { return p.b_; }
  T min() const { return p.a_; }
  T max() const { return p.b_; }
  param_type param() const { return p; }
  void param(const param_type &q) { p = q; }
  void reset() {}
};
template <class T = double> struct knp_uniform_real {  // a value of [a, b), a + (b - a) * k / 2^16
  using result_type = T;
  struct param_type { T a_, b_; explicit param_type(T a = 0, T b = 1) : a_(a), b_(b) {} };
  param_type p;
  explicit knp_uniform_real(T a = 0, T b = 1) : p(a, b) {}
  template <class G> T operator()(G &) { uint16_t k; knpsym_make(&k, 2, "random"); return p.a_ + (p.b_ - p.a_) * (T(k) / T(65536)); }
  T min() const { return p.a_; }
  T max() const { return p.b_; }
  void reset() {}
};
template <class It, class G> void knp_shuffle(It a, It b, G &&) {
  for (auto n = b - a; n > 1; n--) iter_swap(a + (n - 1), a + knp_pick<size_t>::get(0, size_t(n - 1)));
}
template <class It, class Out, class N, class G> Out knp_sample(It a, It b, Out out, N n, G &&) {  // selection sampling keeps the order
  auto left = std::distance(a, b);
  for (; a != b && n > 0; ++a, --left)
    if (N(left) <= n || knp_pick<size_t>::get(0, 1)) { *out++ = *a; --n; }
  return out;
}
}  // namespace std
#define mt19937 knp_random_engine
#define default_random_engine knp_random_engine
#define random_device knp_random_device
#define uniform_int_distribution knp_uniform_int
#define uniform_real_distribution knp_uniform_real
#define shuffle knp_shuffle
#define sample knp_sample

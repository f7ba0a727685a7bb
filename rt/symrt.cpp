// The part of libstdc++ that lives in the shared library, as bitcode for the engine. Containers keep libstdc++'s
// layout; the ordered tree is a plain (unbalanced) search tree, which does not change iteration order.
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <exception>
#include <functional>
#include <map>
#include <new>
#include <stdexcept>
#include <string>
#include <system_error>
#include <typeinfo>
#include <unordered_map>
#include <list>
#include <ios>
#include <future>
#include "knpsym.h"

template class std::basic_string<char>;
template std::string std::operator+(const char *, const std::string &);
template std::string std::operator+(const std::string &, const std::string &);

extern "C" {
void knpsym_rt_throw_bad_alloc() { throw std::bad_alloc(); }
void knpsym_rt_throw_bad_cast() { throw std::bad_cast(); }
}

namespace std {
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }

static char *dupstr(const char *p) { size_t n = strlen(p) + 1; char *q = (char *)malloc(n); memcpy(q, p, n); return q; }
__cow_string::__cow_string() : _M_p(dupstr("")) {}
__cow_string::__cow_string(const std::string &s) : _M_p(dupstr(s.c_str())) {}
__cow_string::__cow_string(const char *s, size_t n) { char *q = (char *)malloc(n + 1); memcpy(q, s, n); q[n] = 0; _M_p = q; }
__cow_string::__cow_string(const __cow_string &o) noexcept : _M_p(dupstr(o._M_p)) {}
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { _M_p = dupstr(o._M_p); return *this; }
__cow_string::~__cow_string() {}
#define EXC(E, B) \
  E::E(const string &s) : B(s) {} \
  E::E(const char *s) : B(s) {} \
  E::~E() noexcept {}
logic_error::logic_error(const string &s) : _M_msg(s) {}
logic_error::logic_error(const char *s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(const logic_error &o) noexcept : _M_msg(o._M_msg) {}
logic_error::logic_error(logic_error &&o) noexcept : _M_msg(o._M_msg) {}
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { return *(const char *const *)&_M_msg; }
runtime_error::runtime_error(const string &s) : _M_msg(s) {}
runtime_error::runtime_error(const char *s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const runtime_error &o) noexcept : _M_msg(o._M_msg) {}
runtime_error::runtime_error(runtime_error &&o) noexcept : _M_msg(o._M_msg) {}
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return *(const char *const *)&_M_msg; }
EXC(domain_error, logic_error)
EXC(invalid_argument, logic_error)
EXC(length_error, logic_error)
EXC(out_of_range, logic_error)
EXC(range_error, runtime_error)
EXC(overflow_error, runtime_error)
EXC(underflow_error, runtime_error)
future_error::~future_error() noexcept {}
const char *future_error::what() const noexcept { return "future_error"; }

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_cast(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }
void __throw_underflow_error(const char *s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_system_error(int) { throw runtime_error("system_error"); }
void __throw_future_error(int) { throw logic_error("future_error"); }

const nothrow_t nothrow{};

// ---- ordered tree
typedef _Rb_tree_node_base *BP;
typedef const _Rb_tree_node_base *CBP;
static BP inc(BP x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  BP y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
static BP dec(BP x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { BP y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  BP y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() { return inc(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return inc(const_cast<BP>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() { return dec(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return dec(const_cast<BP>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
  // neighbours first: they decide leftmost / rightmost
  BP next = nullptr, prev = nullptr;
  if (h._M_left == z) next = inc(z);
  if (h._M_right == z) prev = dec(z);
  auto replace = [&](BP u, BP v) {  // v takes u's place below u's parent
    if (h._M_parent == u) h._M_parent = v;
    else if (u->_M_parent->_M_left == u) u->_M_parent->_M_left = v;
    else u->_M_parent->_M_right = v;
    if (v) v->_M_parent = u->_M_parent;
  };
  if (!z->_M_left) replace(z, z->_M_right);
  else if (!z->_M_right) replace(z, z->_M_left);
  else {
    BP y = z->_M_right;
    while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) {
      replace(y, y->_M_right);
      y->_M_right = z->_M_right;
      y->_M_right->_M_parent = y;
    }
    replace(z, y);
    y->_M_left = z->_M_left;
    y->_M_left->_M_parent = y;
  }
  if (!h._M_parent) { h._M_left = &h; h._M_right = &h; return z; }
  if (next) h._M_left = next;
  if (prev) h._M_right = prev;
  return z;
}

// ---- lists
namespace __detail {
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
  _List_node_base *xs[2] = {x._M_next, x._M_prev}, *ys[2] = {y._M_next, y._M_prev};
  bool xe = x._M_next == &x, ye = y._M_next == &y;
  if (ye) { x._M_next = x._M_prev = &x; } else { x._M_next = ys[0]; x._M_prev = ys[1]; x._M_next->_M_prev = x._M_prev->_M_next = &x; }
  if (xe) { y._M_next = y._M_prev = &y; } else { y._M_next = xs[0]; y._M_prev = xs[1]; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
}
void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept {
  if (this != last) {
    last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
    _List_node_base *t = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t;
  }
}
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }

// ---- hashing: same growth as libstdc++, so iteration orders agree with the native library
static const unsigned short primes[] = {
#include "primes.inc"
};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  static const unsigned char fast[] = {2, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13};
  if (n < sizeof fast) {
    if (n == 0) return 1;
    _M_next_resize = (size_t)(fast[n] * (double)_M_max_load_factor);
    return fast[n];
  }
  for (unsigned short p : primes) if (p >= n) { _M_next_resize = p; return p; }
  __builtin_trap();
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (ne + ni > _M_next_resize) {
    size_t mb = ne + ni > (_M_next_resize ? 0 : 11) ? ne + ni : (_M_next_resize ? 0 : 11);
    if (mb >= nb) {
      size_t want = mb + 1 > nb * 2 ? mb + 1 : nb * 2;
      return {true, _M_next_bkt(want)};
    }
    _M_next_resize = nb;
    return {false, 0};
  }
  return {false, 0};
}
}  // namespace __detail
static inline size_t ld(const char *p, size_t n) { size_t r = 0; --n; do r = (r << 8) + (unsigned char)p[n]; while (--n < n + 1 && n != (size_t)-1); return r; }
size_t _Hash_bytes(const void *ptr, size_t len, size_t seed) {
  const size_t mul = (((size_t)0xc6a4a793UL) << 32UL) + (size_t)0x5bd1e995UL;
  const char *buf = (const char *)ptr;
  const size_t al = len & ~(size_t)7;
  const char *end = buf + al;
  size_t h = seed ^ (len * mul);
  auto mix = [](size_t v) { return v ^ (v >> 47); };
  for (const char *p = buf; p != end; p += 8) { size_t d; memcpy(&d, p, 8); d = mix(d * mul) * mul; h ^= d; h *= mul; }
  if (len & 7) { size_t d = ld(end, len & 7); h ^= d; h *= mul; }
  h = mix(h) * mul;
  h = mix(h);
  return h;
}
}  // namespace std
// Entry of the cases with a repeat: the harness runs again in the state the first run left behind.
extern "C" {
unsigned long knpsym_param(unsigned i);
void knp_harness();
void knpsym_rt_repeat() {
  for (unsigned long n = 0; n <= knpsym_param(15); n++) knp_harness();
}
}

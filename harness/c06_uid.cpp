// C06: UID laws. params: 0 part
#include <knp/core/uid.h>
#include "knpsym.h"
#include <set>
#include <unordered_set>
using knp::core::UID;
static UID symuid(const char *n) {
  std::array<uint8_t, 16> d;
  uint64_t a = ks::sym<uint64_t>(n), b = ks::sym<uint64_t>(n);
  memcpy(d.data(), &a, 8);
  memcpy(d.data() + 8, &b, 8);
  return UID(d);
}
static bool eq(const UID &a, const UID &b) {
  uint64_t x[2], y[2];
  memcpy(x, a.tag.data, 16);
  memcpy(y, b.tag.data, 16);
  return (x[0] == y[0]) & (x[1] == y[1]);
}
extern "C" void knp_harness() {
  ks::expect("end");
  switch (knpsym_param(0)) {
    case 0: {
      const UID a = symuid("a"), b = symuid("b");
      ks::check((a == b) == eq(a, b), "equality compares every byte");
      ks::check((a != b) == !eq(a, b), "inequality is the negation of equality");
      bool lt = a < b, gt = b < a;
      ks::check(int(lt) + int(gt) + int(a == b) == 1, "exactly one of less, greater and equal holds");
      ks::check(!(a < a), "nothing is less than itself");
      ks::check(bool(a) == (eq(a, UID(false)) == false), "a UID is true exactly when it is not empty");
      ks::check(!bool(UID(false)), "the empty UID is false");
      UID c(a);
      ks::check(c == a && eq(c, a), "a copy is equal");
      c = b;
      ks::check(eq(c, b), "assignment copies");
      const boost::uuids::uuid &u = a;
      ks::check(eq(UID(u), a) && eq(UID(boost::uuids::uuid(u)), a), "conversion to and from the UUID keeps the value");
      break;
    }
    case 1: {  // transitivity on three values
      const unsigned n = knpsym_param(1), off = n == 16 ? 0 : ks::choose(2, "offset") * (16 - n);
      UID a(false), b(false), c(false);
      for (unsigned i = off; i < off + n; i++) a.tag.data[i] = ks::sym<uint8_t>("a"), b.tag.data[i] = ks::sym<uint8_t>("b"), c.tag.data[i] = ks::sym<uint8_t>("c");
      if (a < b && b < c) ks::check(a < c, "the order is transitive");
      break;
    }
    case 2: {  // hash: equal values made in different ways
      UID a = symuid("a");
      boost::uuids::uuid u;
      memcpy(u.data, a.tag.data, 16);
      struct { uint64_t noise; UID v; } p{ks::sym<uint64_t>("noise"), UID(u)}, q{ks::sym<uint64_t>("noise"), a};
      ks::check(knp::core::uid_hash()(p.v) == knp::core::uid_hash()(q.v), "equal UIDs hash equally");
      break;
    }
    case 3: {  // generator
      using G = knp::core::continuously_uid_generator;
      uint64_t v = ks::sym<uint64_t>("start");
      knpsym_assume(v != 0);  // zero is the empty UID
      knpsym_assume(v < 0xfffffffffffffff0ull);
      G::reset(v);
      std::vector<UID> got;
      G g, h;
      for (unsigned i = 0; i < knpsym_param(1); i++) got.push_back(UID(ks::choose(2, "which") ? g() : h()));
      for (size_t i = 0; i < got.size(); i++) {
        for (size_t j = 0; j < i; j++) ks::check(!eq(got[i], got[j]), "the continuous generator never repeats a UID");
        ks::check(bool(got[i]), "the continuous generator gives no empty UID");
      }
      // calls in between and a second generator do not matter; a reset starts the same sequence again
      G::reset(v);
      for (size_t i = 0; i < got.size(); i++) ks::check(eq(UID(g()), got[i]), "a reset to the same value gives the same UIDs again");
      G::reset();
      UID one(g());
      G::reset(1);
      ks::check(eq(one, UID(h())), "the default start is 1");
      break;
    }
    case 4: {  // random UIDs are not empty for any random bits
      knpsym_symbolic_random(1);
      UID a(true), b;
      knpsym_symbolic_random(0);
      ks::check(bool(a), "a random UID is valid");
      ks::check(bool(b), "a default UID is valid");
      ks::check((a.tag.data[6] >> 4) == 4 && (a.tag.data[8] >> 6) == 2, "a random UID is a version 4 UUID");
      break;
    }
    case 5: {  // text
      UID a(false);
      unsigned pos = ks::choose(16, "position");
      for (int i = 0; i < 16; i++) a.tag.data[i] = 0x10 * i + 15 - i;
      a.tag.data[pos] = ks::sym<uint8_t>("byte");
      std::string s(a);
      const char *hex = "0123456789abcdef";
      std::string want;
      for (int i = 0; i < 16; i++) {
        if (i == 4 || i == 6 || i == 8 || i == 10) want += '-';
        want += hex[a.tag.data[i] >> 4];
        want += hex[a.tag.data[i] & 15];
      }
      ks::check(s.size() == 36 && want.size() == 36, "text of a UID has 36 characters");
      bool all = true;
      for (int i = 0; i < 36; i++) all &= s[i] == want[i];
      ks::check(all, "text of a UID is its canonical form");
      std::stringstream ss;
      ss << a;
      UID b(true);
      ss >> b;
      ks::check(!ss.fail() && eq(a, b), "text of a UID reads back");
      break;
    }
    case 6: {  // containers keyed by UIDs keep distinct UIDs apart
      UID a(false), b(false);
      a.tag.data[ks::choose(16, "pa")] = ks::choose(2, "a");
      b.tag.data[ks::choose(16, "pb")] = ks::choose(2, "b");
      std::unordered_set<UID, knp::core::uid_hash> h{a, b};
      std::set<UID> t{a, b};
      size_t want = eq(a, b) ? 1 : 2;
      ks::check(h.size() == want, "hash set keeps distinct UIDs apart");
      ks::check(t.size() == want, "ordered set keeps distinct UIDs apart");
      ks::check(h.count(a) == 1 && h.count(b) == 1 && t.count(a) == 1 && t.count(b) == 1, "both are found");
      break;
    }
  }
  ks::reach("end");
}

// Hash-consed bit-vector / floating-point expression DAG of knpsym.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <unordered_map>
#include <vector>

typedef unsigned __int128 u128;
typedef uint64_t u64;
typedef int64_t i64;

enum Op : uint8_t {
  OConst, OVar,
  OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem,
  OAnd, OOr, OXor, OShl, OLShr, OAShr, ONot,
  OEq, OUlt, OUle, OSlt, OSle,
  OIte, OConcat, OExtract, OZExt, OSExt,
  // floating point arithmetic: operands and results are IEEE bit patterns
  OFAdd, OFMul, OFDiv, OFRem, OFSqrt, OFMA, OFNeg, OFAbs, OFRnd,
  OFPExt, OFPTrunc, OSIToFP, OUIToFP, OFPToSI, OFPToUI, OFunc,
  // floating point comparisons (result 1 bit)
  OFEq, OFLt, OFLe, OFUno,
  OLAST
};

struct Expr {
  uint32_t id;
  Op op;
  uint8_t n;
  uint16_t w;
  Expr *a[3];
  u64 v, v2;  // constant low/high, extract offset, var index, func id, rounding kind
  uint32_t hash;
  bool sym;      // contains a variable
  bool fparith;  // contains floating point arithmetic below (needs the precise theory)
  Expr *next;
  bool isConst() const { return op == OConst; }
  u128 cval() const { return ((u128)v2 << 64) | v; }
  bool isTrue() const { return op == OConst && v == 1 && w == 1; }
  bool isFalse() const { return op == OConst && v == 0 && w == 1; }
};

struct VarInfo {
  std::string name;
  unsigned w;
  Expr *e;
};
extern std::vector<VarInfo> gVars;
extern std::vector<Expr *> gExprs;
extern std::vector<std::string> gFuncs;

static inline u128 maskW(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline u64 mask64(unsigned w) { return w >= 64 ? ~(u64)0 : (((u64)1 << w) - 1); }
static inline __int128 sextW(u128 x, unsigned w) {
  if (w >= 128) return (__int128)x;
  u128 m = (u128)1 << (w - 1);
  x &= maskW(w);
  return (__int128)((x ^ m) - m);
}

Expr *mkConst(u128 v, unsigned w);
Expr *mkVar(const std::string &name, unsigned w);
Expr *pooledVar(const std::string &name, unsigned w, u64 n);
Expr *mkBin(Op op, Expr *a, Expr *b);
Expr *mkNot(Expr *a);
Expr *mkIte(Expr *c, Expr *a, Expr *b);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkExtract(Expr *e, unsigned off, unsigned w);
Expr *mkZExt(Expr *e, unsigned w);
Expr *mkSExt(Expr *e, unsigned w);
Expr *mkF1(Op op, Expr *a, unsigned w, u64 kind = 0);
Expr *mkFNeg(Expr *a);
Expr *mkFBin(Op op, Expr *a, Expr *b);
Expr *mkFMA(Expr *a, Expr *b, Expr *c);
Expr *mkFunc(const std::string &name, Expr *a, Expr *b, unsigned w);
Expr *mkFCmp(Op op, Expr *a, Expr *b);
static inline Expr *mkBool(bool b) { return mkConst(b, 1); }
static inline Expr *mkAnd(Expr *a, Expr *b) { return mkBin(OAnd, a, b); }
static inline Expr *mkOr(Expr *a, Expr *b) { return mkBin(OOr, a, b); }
static inline Expr *mkEq(Expr *a, Expr *b) { return mkBin(OEq, a, b); }

// Model: values of variables.
extern u64 gModelVer;
struct Model {
  std::vector<u128> val;  // by variable index
  std::vector<bool> has;
  u64 ver = 0;
  u128 get(unsigned i) const { return i < val.size() ? val[i] : 0; }
  void set(unsigned i, u128 x) {
    if (val.size() <= i) { val.resize(i + 1, 0); has.resize(i + 1, false); }
    val[i] = x; has[i] = true; ver = ++gModelVer;
  }
};
// Evaluates with the true IEEE semantics of the host. One evaluator at a time; memo shared by model version.
struct Evaluator {
  const Model *m;
  explicit Evaluator(const Model *mm);
  u128 eval(Expr *e);
};
u128 evalOp(const Expr *e, const u128 *args);
std::string exprStr(Expr *e, int depth = 6);
bool isOpaqueFP(Op op);
const std::vector<uint32_t> &exprVars(Expr *e);      // sorted; opaque FP nodes count as own variable (id | 1<<31)
const std::vector<uint32_t> &exprTrueVars(Expr *e);  // sorted; real variables below

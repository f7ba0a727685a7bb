#include "expr.h"
#include <algorithm>
#include <cmath>
#include <cstring>

std::vector<VarInfo> gVars;
std::vector<Expr *> gExprs;
std::vector<std::string> gFuncs;

static std::vector<Expr *> table(1 << 16, nullptr);

static uint32_t hashOf(Op op, unsigned w, u64 v, u64 v2, Expr **a, int n) {
  u64 h = op * 0x9E3779B97F4A7C15ull + w * 0xC2B2AE3D27D4EB4Full;
  h ^= (v + 0x165667B19E3779F9ull + (h << 6) + (h >> 2));
  h *= 0xff51afd7ed558ccdull;
  h ^= (v2 + 0x165667B19E3779F9ull + (h << 6) + (h >> 2));
  for (int i = 0; i < n; i++) { h ^= a[i]->id + 0x9E3779B9u + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; }
  return (uint32_t)(h ^ (h >> 32));
}
bool isOpaqueFP(Op op) {
  switch (op) {
    case OFAdd: case OFMul: case OFDiv: case OFRem: case OFSqrt: case OFMA: case OFRnd: case OFPExt: case OFPTrunc:
    case OSIToFP: case OUIToFP: case OFPToSI: case OFPToUI: case OFunc: return true;
    default: return false;
  }
}
static Expr *intern(Op op, unsigned w, u64 v, u64 v2, Expr *a0 = nullptr, Expr *a1 = nullptr, Expr *a2 = nullptr) {
  Expr *a[3] = {a0, a1, a2};
  int n = a2 ? 3 : a1 ? 2 : a0 ? 1 : 0;
  uint32_t h = hashOf(op, w, v, v2, a, n);
  size_t b = h & (table.size() - 1);
  for (Expr *e = table[b]; e; e = e->next)
    if (e->hash == h && e->op == op && e->w == w && e->v == v && e->v2 == v2 && e->a[0] == a0 && e->a[1] == a1 && e->a[2] == a2)
      return e;
  Expr *e = new Expr;
  e->id = gExprs.size();
  e->op = op; e->n = n; e->w = w; e->a[0] = a0; e->a[1] = a1; e->a[2] = a2; e->v = v; e->v2 = v2; e->hash = h;
  e->sym = op == OVar; e->fparith = isOpaqueFP(op);
  for (int i = 0; i < n; i++) { e->sym |= a[i]->sym; e->fparith |= a[i]->fparith; }
  e->next = table[b]; table[b] = e;
  gExprs.push_back(e);
  if (gExprs.size() > table.size()) {
    std::vector<Expr *> t2(table.size() * 2, nullptr);
    for (Expr *x : gExprs) { size_t bb = x->hash & (t2.size() - 1); x->next = t2[bb]; t2[bb] = x; }
    table.swap(t2);
  }
  return e;
}
Expr *mkConst(u128 v, unsigned w) { v &= maskW(w); return intern(OConst, w, (u64)v, (u64)(v >> 64)); }
Expr *mkVar(const std::string &name, unsigned w) {
  u64 idx = gVars.size();
  Expr *e = intern(OVar, w, idx, 0);
  gVars.push_back({name, w, e});
  return e;
}

// The same variable for the n-th input of every path: paths share terms, models and cached answers.
Expr *pooledVar(const std::string &name, unsigned w, u64 n) {
  static std::unordered_map<std::string, Expr *> pool;
  Expr *&e = pool[name + " " + std::to_string(w) + " " + std::to_string(n)];
  if (!e) e = mkVar(name, w);
  return e;
}

// ---------- evaluation -----------------------------------------------------
static float asF(u128 x) { uint32_t u = (uint32_t)x; float f; memcpy(&f, &u, 4); return f; }
static double asD(u128 x) { u64 u = (u64)x; double f; memcpy(&f, &u, 8); return f; }
static u128 fromF(float f) { if (f != f) return 0x7fc00000u; uint32_t u; memcpy(&u, &f, 4); return u; }
static u128 fromD(double f) { if (f != f) return 0x7ff8000000000000ull; u64 u; memcpy(&u, &f, 8); return u; }
static double rnd(double x, u64 k) { switch (k) { case 0: return floor(x); case 1: return ceil(x); case 2: return trunc(x); case 3: return nearbyint(x); default: return round(x); } }
static float rndf(float x, u64 k) { switch (k) { case 0: return floorf(x); case 1: return ceilf(x); case 2: return truncf(x); case 3: return nearbyintf(x); default: return roundf(x); } }

static double callFunc(const std::string &n, double a, double b) {
  if (n == "exp") return exp(a); if (n == "exp2") return exp2(a); if (n == "log") return log(a); if (n == "log2") return log2(a);
  if (n == "log10") return log10(a); if (n == "pow") return pow(a, b); if (n == "sin") return sin(a); if (n == "cos") return cos(a);
  if (n == "tan") return tan(a); if (n == "atan2") return atan2(a, b); if (n == "tanh") return tanh(a);
  return 0;
}
static float callFuncF(const std::string &n, float a, float b) {
  if (n == "exp") return expf(a); if (n == "exp2") return exp2f(a); if (n == "log") return logf(a); if (n == "log2") return log2f(a);
  if (n == "log10") return log10f(a); if (n == "pow") return powf(a, b); if (n == "sin") return sinf(a); if (n == "cos") return cosf(a);
  if (n == "tan") return tanf(a); if (n == "atan2") return atan2f(a, b); if (n == "tanh") return tanhf(a);
  return 0;
}

u128 evalOp(const Expr *e, const u128 *x) {
  unsigned w = e->w;
  unsigned aw = e->n ? e->a[0]->w : 0;
  u128 M = maskW(w);
  switch (e->op) {
    case OConst: return e->cval();
    case OAdd: return (x[0] + x[1]) & M;
    case OSub: return (x[0] - x[1]) & M;
    case OMul: return (x[0] * x[1]) & M;
    case OUDiv: return x[1] ? x[0] / x[1] : M;
    case OURem: return x[1] ? x[0] % x[1] : x[0];
    case OSDiv: { __int128 p = sextW(x[0], w), q = sextW(x[1], w); if (!q) return p < 0 ? 1 : M; if (q == -1) return (u128)(-p) & M; return (u128)(p / q) & M; }
    case OSRem: { __int128 p = sextW(x[0], w), q = sextW(x[1], w); if (!q) return x[0]; if (q == -1) return 0; return (u128)(p % q) & M; }
    case OAnd: return x[0] & x[1];
    case OOr: return x[0] | x[1];
    case OXor: return x[0] ^ x[1];
    case ONot: return ~x[0] & M;
    case OShl: return x[1] >= w ? 0 : (x[0] << (unsigned)x[1]) & M;
    case OLShr: return x[1] >= w ? 0 : x[0] >> (unsigned)x[1];
    case OAShr: { unsigned s = x[1] >= w ? w - 1 : (unsigned)x[1]; return (u128)(sextW(x[0], w) >> s) & M; }
    case OEq: return x[0] == x[1];
    case OUlt: return x[0] < x[1];
    case OUle: return x[0] <= x[1];
    case OSlt: return sextW(x[0], aw) < sextW(x[1], aw);
    case OSle: return sextW(x[0], aw) <= sextW(x[1], aw);
    case OIte: return x[0] ? x[1] : x[2];
    case OConcat: return (x[0] << e->a[1]->w) | x[1];
    case OExtract: return (x[0] >> e->v) & M;
    case OZExt: return x[0];
    case OSExt: return (u128)sextW(x[0], aw) & M;
    case OFAdd: return w == 32 ? fromF(asF(x[0]) + asF(x[1])) : fromD(asD(x[0]) + asD(x[1]));
    case OFMul: return w == 32 ? fromF(asF(x[0]) * asF(x[1])) : fromD(asD(x[0]) * asD(x[1]));
    case OFDiv: return w == 32 ? fromF(asF(x[0]) / asF(x[1])) : fromD(asD(x[0]) / asD(x[1]));
    case OFRem: return w == 32 ? fromF(fmodf(asF(x[0]), asF(x[1]))) : fromD(fmod(asD(x[0]), asD(x[1])));
    case OFSqrt: return w == 32 ? fromF(sqrtf(asF(x[0]))) : fromD(sqrt(asD(x[0])));
    case OFMA: return w == 32 ? fromF(fmaf(asF(x[0]), asF(x[1]), asF(x[2]))) : fromD(fma(asD(x[0]), asD(x[1]), asD(x[2])));
    case OFNeg: return x[0] ^ ((u128)1 << (w - 1));
    case OFAbs: return x[0] & (M >> 1);
    case OFRnd: return w == 32 ? fromF(rndf(asF(x[0]), e->v)) : fromD(rnd(asD(x[0]), e->v));
    case OFPExt: return fromD((double)asF(x[0]));
    case OFPTrunc: return fromF((float)asD(x[0]));
    case OSIToFP: { __int128 p = sextW(x[0], aw); return w == 32 ? fromF((float)p) : fromD((double)p); }
    case OUIToFP: { if (aw <= 64) { u64 p = (u64)x[0]; return w == 32 ? fromF((float)p) : fromD((double)p); } return w == 32 ? fromF((float)x[0]) : fromD((double)x[0]); }
    case OFPToSI: { double d = aw == 32 ? asF(x[0]) : asD(x[0]); if (!(d > -1.8e38 && d < 1.8e38)) return 0; return (u128)(__int128)d & M; }
    case OFPToUI: { double d = aw == 32 ? asF(x[0]) : asD(x[0]); if (!(d > -1 && d < 3.4e38)) return (d < 0 && d > -1.8e38) ? (u128)(__int128)d & M : 0; return (u128)d & M; }
    case OFunc: return w == 32 ? fromF(callFuncF(gFuncs[e->v], asF(x[0]), e->n > 1 ? asF(x[1]) : 0)) : fromD(callFunc(gFuncs[e->v], asD(x[0]), e->n > 1 ? asD(x[1]) : 0));
    case OFEq: return aw == 32 ? asF(x[0]) == asF(x[1]) : asD(x[0]) == asD(x[1]);
    case OFLt: return aw == 32 ? asF(x[0]) < asF(x[1]) : asD(x[0]) < asD(x[1]);
    case OFLe: return aw == 32 ? asF(x[0]) <= asF(x[1]) : asD(x[0]) <= asD(x[1]);
    case OFUno: return aw == 32 ? (std::isnan(asF(x[0])) || std::isnan(asF(x[1]))) : (std::isnan(asD(x[0])) || std::isnan(asD(x[1])));
    default: fprintf(stderr, "evalOp %d\n", e->op); abort();
  }
}
u64 gModelVer = 0;
static std::vector<u128> memo;
static std::vector<uint32_t> stamp;
static uint32_t gen = 1;
static u64 curVer = ~(u64)0;
Evaluator::Evaluator(const Model *mm) : m(mm) { if (mm->ver != curVer) { curVer = mm->ver; gen++; } }
u128 Evaluator::eval(Expr *root) {
  if (root->op == OConst) return root->cval();
  if (m->ver != curVer) { curVer = m->ver; gen++; }
  if (memo.size() < gExprs.size()) { size_t n = gExprs.size() * 3 / 2 + 1024; memo.resize(n); stamp.resize(n, 0); }
  if (stamp[root->id] == gen) return memo[root->id];
  auto done = [&](Expr *e) { return stamp[e->id] == gen; };
  static std::vector<Expr *> st;
  st.clear(); st.push_back(root);
  while (!st.empty()) {
    Expr *e = st.back();
    if (done(e)) { st.pop_back(); continue; }
    if (e->op == OConst) { memo[e->id] = e->cval(); stamp[e->id] = gen; st.pop_back(); continue; }
    if (e->op == OVar) { memo[e->id] = m->get(e->v) & maskW(e->w); stamp[e->id] = gen; st.pop_back(); continue; }
    if (e->op == OIte && done(e->a[0])) {
      Expr *c = memo[e->a[0]->id] ? e->a[1] : e->a[2];
      if (!done(c)) { st.push_back(c); continue; }
      memo[e->id] = memo[c->id]; stamp[e->id] = gen; st.pop_back(); continue;
    }
    bool ok = true;
    int lim = e->op == OIte ? 1 : e->n;
    for (int i = 0; i < lim; i++) if (!done(e->a[i])) { st.push_back(e->a[i]); ok = false; }
    if (!ok || e->op == OIte) continue;
    u128 x[3];
    for (int i = 0; i < e->n; i++) x[i] = memo[e->a[i]->id];
    memo[e->id] = evalOp(e, x); stamp[e->id] = gen; st.pop_back();
  }
  return memo[root->id];
}

// ---------- ranges ---------------------------------------------------------
static u128 umaxOf(Expr *e, int d = 0) {
  u128 M = maskW(e->w);
  if (e->op == OConst) return e->cval();
  if (d > 6) return M;
  switch (e->op) {
    case OZExt: return umaxOf(e->a[0], d + 1);
    case OAnd: return std::min(umaxOf(e->a[0], d + 1), umaxOf(e->a[1], d + 1));
    case OIte: return std::max(umaxOf(e->a[1], d + 1), umaxOf(e->a[2], d + 1));
    case OURem: if (e->a[1]->isConst() && e->a[1]->cval()) return std::min(e->a[1]->cval() - 1, umaxOf(e->a[0], d + 1)); return M;
    case OUDiv: if (e->a[1]->isConst() && e->a[1]->cval()) return umaxOf(e->a[0], d + 1) / e->a[1]->cval(); return M;
    case OLShr: if (e->a[1]->isConst() && e->a[1]->cval() < e->w) return umaxOf(e->a[0], d + 1) >> (unsigned)e->a[1]->cval(); return M;
    case OAdd: { u128 p = umaxOf(e->a[0], d + 1), q = umaxOf(e->a[1], d + 1); if (e->w < 128 && p + q <= M) return p + q; return M; }
    case OMul: { u128 p = umaxOf(e->a[0], d + 1), q = umaxOf(e->a[1], d + 1); if (e->w <= 64 && p <= ~(u64)0 && q <= ~(u64)0 && p * q <= M) return p * q; return M; }
    case OShl: { if (e->a[1]->isConst() && e->a[1]->cval() < 64 && e->w <= 64) { u128 p = umaxOf(e->a[0], d + 1) << (unsigned)e->a[1]->cval(); if (p <= M) return p; } return M; }
    case OOr: case OXor: { u128 p = umaxOf(e->a[0], d + 1) | umaxOf(e->a[1], d + 1); p |= p >> 1; p |= p >> 2; p |= p >> 4; p |= p >> 8; p |= p >> 16; p |= p >> 32; p |= p >> 64; return p; }
    case OConcat: return (umaxOf(e->a[0], d + 1) << e->a[1]->w) | maskW(e->a[1]->w);
    case OExtract: if (e->v == 0) { u128 p = umaxOf(e->a[0], d + 1); return p <= M ? p : M; } return M;
    default: return M;
  }
}
static u128 uminOf(Expr *e, int d = 0) {
  if (e->op == OConst) return e->cval();
  if (d > 4) return 0;
  switch (e->op) {
    case OZExt: return uminOf(e->a[0], d + 1);
    case OIte: return std::min(uminOf(e->a[1], d + 1), uminOf(e->a[2], d + 1));
    case OOr: return std::max(uminOf(e->a[0], d + 1), uminOf(e->a[1], d + 1));
    case OAdd: { u128 p = umaxOf(e->a[0]), q = umaxOf(e->a[1]); if (e->w < 128 && p + q <= maskW(e->w)) return uminOf(e->a[0], d + 1) + uminOf(e->a[1], d + 1); return 0; }
    default: return 0;
  }
}

// ---------- builders -------------------------------------------------------
static Expr *foldN(Op op, unsigned w, u64 v, Expr *a, Expr *b = nullptr, Expr *c = nullptr) {
  Expr t; t.op = op; t.w = w; t.v = v; t.v2 = 0; t.a[0] = a; t.a[1] = b; t.a[2] = c; t.n = c ? 3 : b ? 2 : 1;
  u128 x[3] = {a->cval(), b ? b->cval() : 0, c ? c->cval() : 0};
  return mkConst(evalOp(&t, x), w);
}
Expr *mkNot(Expr *a) {
  if (a->isConst()) return mkConst(~a->cval(), a->w);
  if (a->op == ONot) return a->a[0];
  if (a->w == 1) {
    if (a->op == OUlt) return mkBin(OUle, a->a[1], a->a[0]);
    if (a->op == OUle) return mkBin(OUlt, a->a[1], a->a[0]);
    if (a->op == OSlt) return mkBin(OSle, a->a[1], a->a[0]);
    if (a->op == OSle) return mkBin(OSlt, a->a[1], a->a[0]);
  }
  return intern(ONot, a->w, 0, 0, a);
}
static bool isComm(Op op) { return op == OAdd || op == OMul || op == OAnd || op == OOr || op == OXor || op == OEq; }

Expr *mkBin(Op op, Expr *a, Expr *b) {
  unsigned w = a->w;
  if (a->w != b->w) { fprintf(stderr, "mkBin width mismatch op %d %d %d\n", op, a->w, b->w); abort(); }
  bool cmp = op >= OEq && op <= OSle;
  unsigned rw = cmp ? 1 : w;
  if (a->isConst() && b->isConst()) return foldN(op, rw, 0, a, b);
  if (isComm(op)) {  // constant to the right, otherwise ordered by id
    if (a->isConst() || (!b->isConst() && a->id > b->id)) std::swap(a, b);
  }
  u128 M = maskW(w);
  bool bc = b->isConst();
  u128 bv = bc ? b->cval() : 0;
  if (w > 8 && (op == OURem || op == OUDiv || op == OMul || cmp)) {  // work in the smallest width that holds both operands
    u128 ua = umaxOf(a), ub = umaxOf(b);
    bool sgn = op == OSlt || op == OSle;
    u128 need = op == OMul ? (ua <= 0xffffffffu && ub <= 0xffffffffu ? ua * ub : M) : std::max(ua, ub);
    unsigned k = 1;
    while (k < w && (need >> k)) k++;
    if (sgn && k < w) { op = op == OSlt ? OUlt : OUle; sgn = false; return mkBin(op, a, b); }
    if (!sgn && k < w && k + 4 <= w && !(op == OMul && bc && (bv & (bv - 1)) == 0)) {
      Expr *x = mkExtract(a, 0, k), *y = mkExtract(b, 0, k);
      if (x->w == k && y->w == k) {
        Expr *r = mkBin(op, x, y);
        return cmp ? r : mkZExt(r, w);
      }
    }
  }
  switch (op) {
    case OAdd:
      if (bc && bv == 0) return a;
      if (bc && a->op == OAdd && a->a[1]->isConst()) return mkBin(OAdd, a->a[0], mkConst(a->a[1]->cval() + bv, w));
      if (bc && a->op == OIte && a->a[1]->isConst() && a->a[2]->isConst()) return mkIte(a->a[0], mkBin(OAdd, a->a[1], b), mkBin(OAdd, a->a[2], b));
      if (!bc && a->op == OAdd && a->a[1]->isConst()) return mkBin(OAdd, mkBin(OAdd, a->a[0], b), a->a[1]);
      if (!bc && b->op == OAdd && b->a[1]->isConst()) return mkBin(OAdd, mkBin(OAdd, a, b->a[0]), b->a[1]);
      if (b->op == OSub && b->a[1] == a) return b->a[0];
      if (a->op == OSub && a->a[1] == b) return a->a[0];
      if (w == 1) return mkBin(OXor, a, b);
      break;
    case OSub:
      if (a == b) return mkConst(0, w);
      if (bc) return mkBin(OAdd, a, mkConst((~bv + 1) & M, w));
      if (a->op == OAdd) { if (a->a[0] == b) return a->a[1]; if (a->a[1] == b) return a->a[0]; }
      if (b->op == OAdd) { if (b->a[0] == a) return mkBin(OSub, mkConst(0, w), b->a[1]); if (b->a[1] == a) return mkBin(OSub, mkConst(0, w), b->a[0]); 
        if (b->a[1]->isConst()) return mkBin(OSub, mkBin(OSub, a, b->a[1]), b->a[0]); }
      if (a->op == OAdd && b->op == OAdd && a->a[0] == b->a[0]) return mkBin(OSub, a->a[1], b->a[1]);
      if (a->op == OAdd && a->a[1]->isConst()) return mkBin(OAdd, mkBin(OSub, a->a[0], b), a->a[1]);
      if (w == 1) return mkBin(OXor, a, b);
      break;
    case OMul:
      if (bc && bv == 0) return b;
      if (bc && bv == 1) return a;
      if (bc && a->op == OMul && a->a[1]->isConst()) return mkBin(OMul, a->a[0], mkConst(a->a[1]->cval() * bv, w));
      if (bc && a->op == OIte && a->a[1]->isConst() && a->a[2]->isConst()) return mkIte(a->a[0], mkBin(OMul, a->a[1], b), mkBin(OMul, a->a[2], b));
      if (bc && (bv & (bv - 1)) == 0) { unsigned s = 0; while ((((u128)1) << s) != bv) s++; return mkBin(OShl, a, mkConst(s, w)); }
      if (bc && a->op == OAdd && a->a[1]->isConst()) return mkBin(OAdd, mkBin(OMul, a->a[0], b), mkConst(a->a[1]->cval() * bv, w));
      if (w == 1) return mkBin(OAnd, a, b);
      break;
    case OUDiv:
      if (bc && bv == 1) return a;
      if (bc && bv && umaxOf(a) < bv) return mkConst(0, w);
      if (bc && bv && (bv & (bv - 1)) == 0) { unsigned s = 0; while ((((u128)1) << s) != bv) s++; return mkBin(OLShr, a, mkConst(s, w)); }
      break;
    case OSDiv:
      if (bc && bv == 1) return a;
      if (bc && bv && umaxOf(a) <= M >> 1 && bv <= M >> 1) return mkBin(OUDiv, a, b);
      break;
    case OURem:
      if (bc && bv == 1) return mkConst(0, w);
      if (bc && bv && umaxOf(a) < bv) return a;
      if (bc && bv && (bv & (bv - 1)) == 0) return mkBin(OAnd, a, mkConst(bv - 1, w));
      break;
    case OSRem:
      if (bc && bv && umaxOf(a) <= M >> 1 && bv <= M >> 1) return mkBin(OURem, a, b);
      break;
    case OAnd:
      if (a == b) return a;
      if (bc && bv == 0) return b;
      if (bc && bv == M) return a;
      if (bc && a->op == OAnd && a->a[1]->isConst()) return mkBin(OAnd, a->a[0], mkConst(a->a[1]->cval() & bv, w));
      if (a->op == ONot && a->a[0] == b) return mkConst(0, w);
      if (b->op == ONot && b->a[0] == a) return mkConst(0, w);
      if (w == 1) {
        if (b->op == OAnd && (b->a[0] == a || b->a[1] == a)) return b;
        if (a->op == OAnd && (a->a[0] == b || a->a[1] == b)) return a;
        if (a->op == OOr && (a->a[0] == b || a->a[1] == b)) return b;
        if (b->op == OOr && (b->a[0] == a || b->a[1] == a)) return a;
      }
      if (bc && w > 1) {
        if (a->op == OZExt) { unsigned iw = a->a[0]->w; if ((bv & maskW(iw)) == maskW(iw)) return a; return mkZExt(mkBin(OAnd, a->a[0], mkConst(bv, iw)), w); }
        u128 p = bv + 1;
        if ((p & bv) == 0) {  // low mask
          unsigned k = 0; while ((((u128)1) << k) != p) k++;
          if (umaxOf(a) <= bv) return a;
          return mkZExt(mkExtract(a, 0, k), w);
        }
        if (a->op == OConcat || a->op == OIte) {
          if (a->op == OConcat) { unsigned lw = a->a[1]->w; return mkConcat(mkBin(OAnd, a->a[0], mkConst(bv >> lw, a->a[0]->w)), mkBin(OAnd, a->a[1], mkConst(bv, lw))); }
          if (a->a[1]->isConst() && a->a[2]->isConst()) return mkIte(a->a[0], mkBin(OAnd, a->a[1], b), mkBin(OAnd, a->a[2], b));
        }
      }
      break;
    case OOr:
      if (a == b) return a;
      if (bc && bv == 0) return a;
      if (bc && bv == M) return b;
      if (a->op == ONot && a->a[0] == b) return mkConst(M, w);
      if (b->op == ONot && b->a[0] == a) return mkConst(M, w);
      if (w == 1) {
        if (b->op == OOr && (b->a[0] == a || b->a[1] == a)) return b;
        if (a->op == OOr && (a->a[0] == b || a->a[1] == b)) return a;
        if (a->op == OAnd && (a->a[0] == b || a->a[1] == b)) return b;
        if (b->op == OAnd && (b->a[0] == a || b->a[1] == a)) return a;
      }
      // zext(lo) | (x << k)  with non-overlapping bits -> concat
      for (int t = 0; t < 2; t++) {
        Expr *p = t ? b : a, *q = t ? a : b;
        if (p->op == OZExt && q->op == OShl && q->a[1]->isConst() && q->a[1]->cval() == p->a[0]->w && p->a[0]->w < w) {
          unsigned lw = p->a[0]->w; return mkConcat(mkExtract(q->a[0], 0, w - lw), p->a[0]);
        }
        if (p->op == OZExt && q->op == OConcat && q->a[1]->isConst() && q->a[1]->cval() == 0 && q->a[1]->w >= p->a[0]->w)
          return mkConcat(q->a[0], mkExtract(p, 0, q->a[1]->w));
      }
      break;
    case OXor:
      if (a == b) return mkConst(0, w);
      if (bc && bv == 0) return a;
      if (bc && bv == M) return mkNot(a);
      if (bc && a->op == OXor && a->a[1]->isConst()) return mkBin(OXor, a->a[0], mkConst(a->a[1]->cval() ^ bv, w));
      break;
    case OShl:
      if (bc && bv == 0) return a;
      if (bc && bv >= w) return mkConst(0, w);
      if (bc) { unsigned s = (unsigned)bv;
        if (a->op == OShl && a->a[1]->isConst()) { u128 t = a->a[1]->cval() + bv; return t >= w ? mkConst(0, w) : mkBin(OShl, a->a[0], mkConst(t, w)); }
        if (a->op == OZExt && a->a[0]->w + s <= w) { Expr *r = mkConcat(a->a[0], mkConst(0, s)); return mkZExt(r, w); }
      }
      break;
    case OLShr:
      if (bc && bv == 0) return a;
      if (bc && bv >= w) return mkConst(0, w);
      if (bc) return mkZExt(mkExtract(a, (unsigned)bv, w - (unsigned)bv), w);
      break;
    case OAShr:
      if (bc && bv == 0) return a;
      if (bc && bv < w) return mkSExt(mkExtract(a, (unsigned)bv, w - (unsigned)bv), w);
      if (bc && bv >= w) return mkSExt(mkExtract(a, w - 1, 1), w);
      break;
    case OEq:
      if (a == b) return mkBool(true);
      if (w == 1) { if (bc) return bv ? a : mkNot(a); if (a->op == ONot && a->a[0] == b) return mkBool(false); if (b->op == ONot && b->a[0] == a) return mkBool(false); }
      if (bc) {
        if (bv > umaxOf(a) || bv < uminOf(a)) return mkBool(false);
        if (a->op == OZExt) return mkEq(a->a[0], mkConst(bv, a->a[0]->w));
        if (a->op == OSExt) { unsigned iw = a->a[0]->w; u128 t = (u128)sextW(bv & maskW(iw), iw) & M; if (t != bv) return mkBool(false); return mkEq(a->a[0], mkConst(bv, iw)); }
        if (a->op == OAdd && a->a[1]->isConst()) return mkEq(a->a[0], mkConst(bv - a->a[1]->cval(), w));
        if (a->op == OSub && a->a[0]->isConst()) return mkEq(a->a[1], mkConst(a->a[0]->cval() - bv, w));
        if (a->op == OSub && bv == 0) return mkEq(a->a[0], a->a[1]);
        if (a->op == OXor && a->a[1]->isConst()) return mkEq(a->a[0], mkConst(bv ^ a->a[1]->cval(), w));
        if (a->op == OXor && bv == 0) return mkEq(a->a[0], a->a[1]);
        if (a->op == ONot) return mkEq(a->a[0], mkConst(~bv, w));
        if (a->op == OOr && bv == 0) return mkAnd(mkEq(a->a[0], b), mkEq(a->a[1], b));
        if (a->op == OConcat) { unsigned lw = a->a[1]->w; return mkAnd(mkEq(a->a[0], mkConst(bv >> lw, a->a[0]->w)), mkEq(a->a[1], mkConst(bv, lw))); }
        if (a->op == OIte) {
          if (a->a[1]->isConst()) { if (a->a[1]->cval() == bv) return mkOr(a->a[0], mkEq(a->a[2], b)); return mkAnd(mkNot(a->a[0]), mkEq(a->a[2], b)); }
          if (a->a[2]->isConst()) { if (a->a[2]->cval() == bv) return mkOr(mkNot(a->a[0]), mkEq(a->a[1], b)); return mkAnd(a->a[0], mkEq(a->a[1], b)); }
        }
        if (a->op == OFNeg) return mkEq(a->a[0], mkConst(bv ^ ((u128)1 << (w - 1)), w));
      } else {
        if (a->op == OZExt && b->op == OZExt && a->a[0]->w == b->a[0]->w) return mkEq(a->a[0], b->a[0]);
        if (a->op == OSExt && b->op == OSExt && a->a[0]->w == b->a[0]->w) return mkEq(a->a[0], b->a[0]);
        if (a->op == OConcat && b->op == OConcat && a->a[1]->w == b->a[1]->w) return mkAnd(mkEq(a->a[0], b->a[0]), mkEq(a->a[1], b->a[1]));
        if (a->op == OAdd && b->op == OAdd) { if (a->a[0] == b->a[0]) return mkEq(a->a[1], b->a[1]); if (a->a[1] == b->a[1]) return mkEq(a->a[0], b->a[0]); }
        if (a->op == OAdd && a->a[1]->isConst() && a->a[0] == b) return mkBool(a->a[1]->cval() == 0);
        if (b->op == OAdd && b->a[1]->isConst() && b->a[0] == a) return mkBool(b->a[1]->cval() == 0);
        if (a->op == OFNeg && b->op == OFNeg) return mkEq(a->a[0], b->a[0]);
      }
      break;
    case OUlt:
      if (a == b) return mkBool(false);
      if (bc && bv == 0) return mkBool(false);
      if (bc && bv == 1) return mkEq(a, mkConst(0, w));
      if (a->isConst() && a->cval() == M) return mkBool(false);
      if (umaxOf(a) < uminOf(b)) return mkBool(true);
      if (uminOf(a) >= umaxOf(b)) return mkBool(false);
      if (a->isConst() && a->cval() == 0) return mkNot(mkEq(b, mkConst(0, w)));
      if (a->op == OZExt && b->op == OZExt && a->a[0]->w == b->a[0]->w) return mkBin(OUlt, a->a[0], b->a[0]);
      if (a->op == OZExt && bc) return mkBin(OUlt, a->a[0], mkConst(bv, a->a[0]->w));
      if (b->op == OZExt && a->isConst()) return mkBin(OUlt, mkConst(a->cval(), b->a[0]->w), b->a[0]);
      if (w == 1) return mkAnd(mkNot(a), b);
      break;
    case OUle:
      if (a == b) return mkBool(true);
      if (a->isConst() && a->cval() == 0) return mkBool(true);
      if (bc && bv == M) return mkBool(true);
      if (bc && bv == 0) return mkEq(a, b);
      if (umaxOf(a) <= uminOf(b)) return mkBool(true);
      if (uminOf(a) > umaxOf(b)) return mkBool(false);
      if (bc) return mkBin(OUlt, a, mkConst(bv + 1, w));
      if (a->isConst()) return mkBin(OUlt, mkConst(a->cval() - 1, w), b);
      if (a->op == OZExt && b->op == OZExt && a->a[0]->w == b->a[0]->w) return mkBin(OUle, a->a[0], b->a[0]);
      if (w == 1) return mkOr(mkNot(a), b);
      break;
    case OSlt:
      if (a == b) return mkBool(false);
      if (umaxOf(a) <= M >> 1 && umaxOf(b) <= M >> 1) return mkBin(OUlt, a, b);
      if (bc && bv == 0) return mkEq(mkExtract(a, w - 1, 1), mkConst(1, 1));
      if (bc && umaxOf(a) <= M >> 1 && bv > M >> 1) return mkBool(false);
      if (a->isConst() && a->cval() > M >> 1 && umaxOf(b) <= M >> 1) return mkBool(true);
      if (a->op == OSExt && b->op == OSExt && a->a[0]->w == b->a[0]->w) return mkBin(OSlt, a->a[0], b->a[0]);
      break;
    case OSle:
      if (a == b) return mkBool(true);
      if (umaxOf(a) <= M >> 1 && umaxOf(b) <= M >> 1) return mkBin(OUle, a, b);
      if (bc && umaxOf(a) <= M >> 1 && bv > M >> 1) return mkBool(false);
      if (a->isConst() && a->cval() > M >> 1 && umaxOf(b) <= M >> 1) return mkBool(true);
      if (bc && bv != M >> 1) return mkBin(OSlt, a, mkConst(bv + 1, w));
      if (a->op == OSExt && b->op == OSExt && a->a[0]->w == b->a[0]->w) return mkBin(OSle, a->a[0], b->a[0]);
      break;
    default: break;
  }
  return intern(op, rw, 0, 0, a, b);
}
Expr *mkIte(Expr *c, Expr *a, Expr *b) {
  if (c->isConst()) return c->v ? a : b;
  if (a == b) return a;
  if (c->op == ONot) return mkIte(c->a[0], b, a);
  if (a->w == 1) {
    if (a->isTrue()) return mkOr(c, b);
    if (a->isFalse()) return mkAnd(mkNot(c), b);
    if (b->isTrue()) return mkOr(mkNot(c), a);
    if (b->isFalse()) return mkAnd(c, a);
    if (a == c) return mkOr(c, b);
    if (b == c) return mkAnd(c, a);
  }
  if (a->op == OIte && a->a[0] == c) a = a->a[1];
  if (b->op == OIte && b->a[0] == c) b = b->a[2];
  if (a == b) return a;
  if (a->isConst() && b->isConst() && a->w > 1 && a->cval() == 1 && b->cval() == 0) return mkZExt(c, a->w);
  if (b->op == OIte && b->a[1] == a) return mkIte(mkOr(c, b->a[0]), a, b->a[2]);
  if (a->op == OZExt && b->op == OZExt && a->a[0]->w == b->a[0]->w) return mkZExt(mkIte(c, a->a[0], b->a[0]), a->w);
  return intern(OIte, a->w, 0, 0, c, a, b);
}
Expr *mkConcat(Expr *hi, Expr *lo) {
  unsigned w = hi->w + lo->w;
  if (w > 128) { fprintf(stderr, "concat too wide\n"); abort(); }
  if (hi->isConst() && lo->isConst()) return mkConst((hi->cval() << lo->w) | lo->cval(), w);
  if (hi->isConst() && hi->cval() == 0) return mkZExt(lo, w);
  if (hi->op == OExtract && lo->op == OExtract && hi->a[0] == lo->a[0] && hi->v == lo->v + lo->w) return mkExtract(lo->a[0], lo->v, w);
  if (hi->op == OExtract && hi->a[0] == lo && hi->v == lo->w) return mkExtract(lo, 0, w);
  if (lo->op == OConcat && hi->op == OExtract && lo->a[0]->op == OExtract && hi->a[0] == lo->a[0]->a[0] && hi->v == lo->a[0]->v + lo->a[0]->w)
    return mkConcat(mkExtract(hi->a[0], lo->a[0]->v, hi->w + lo->a[0]->w), lo->a[1]);
  if (hi->op == OConcat) return mkConcat(hi->a[0], mkConcat(hi->a[1], lo));  // right-assoc
  if (lo->op == OConcat && hi->isConst() && lo->a[0]->isConst()) return mkConcat(mkConcat(hi, lo->a[0]), lo->a[1]);
  if (hi->op == OIte && lo->op == OIte && hi->a[0] == lo->a[0]) return mkIte(hi->a[0], mkConcat(hi->a[1], lo->a[1]), mkConcat(hi->a[2], lo->a[2]));
  if (hi->op == OZExt) return mkZExt(mkConcat(hi->a[0], lo), w);
  return intern(OConcat, w, 0, 0, hi, lo);
}
Expr *mkExtract(Expr *e, unsigned off, unsigned w) {
  if (off == 0 && w == e->w) return e;
  if (off + w > e->w) { fprintf(stderr, "bad extract %u+%u of %u\n", off, w, e->w); abort(); }
  if (e->isConst()) return mkConst(e->cval() >> off, w);
  switch (e->op) {
    case OExtract: return mkExtract(e->a[0], e->v + off, w);
    case OConcat: {
      unsigned lw = e->a[1]->w;
      if (off + w <= lw) return mkExtract(e->a[1], off, w);
      if (off >= lw) return mkExtract(e->a[0], off - lw, w);
      return mkConcat(mkExtract(e->a[0], 0, off + w - lw), mkExtract(e->a[1], off, lw - off));
    }
    case OZExt: {
      unsigned iw = e->a[0]->w;
      if (off >= iw) return mkConst(0, w);
      if (off + w <= iw) return mkExtract(e->a[0], off, w);
      return mkZExt(mkExtract(e->a[0], off, iw - off), w);
    }
    case OSExt: {
      unsigned iw = e->a[0]->w;
      if (off + w <= iw) return mkExtract(e->a[0], off, w);
      if (off >= iw) return mkSExt(mkExtract(e->a[0], iw - 1, 1), w);
      return mkSExt(mkExtract(e->a[0], off, iw - off), w);
    }
    case OIte: if (e->a[1]->isConst() || e->a[2]->isConst() || e->a[1]->op == OConcat || e->a[2]->op == OConcat || e->a[1]->op == OZExt || e->a[2]->op == OZExt) return mkIte(e->a[0], mkExtract(e->a[1], off, w), mkExtract(e->a[2], off, w)); break;
    case OAnd: case OOr: case OXor: if (e->a[1]->isConst() || e->a[0]->op == OConcat || e->a[1]->op == OConcat || e->a[0]->op == OZExt || e->a[1]->op == OZExt) return mkBin(e->op, mkExtract(e->a[0], off, w), mkExtract(e->a[1], off, w)); break;
    case ONot: return mkNot(mkExtract(e->a[0], off, w));
    case OShl: if (e->a[1]->isConst()) { unsigned s = (unsigned)e->a[1]->cval(); if (off >= s) return mkExtract(e->a[0], off - s, w); if (off + w <= s) return mkConst(0, w); } break;
    case OAdd: case OSub: case OMul: if (off == 0) return mkBin(e->op, mkExtract(e->a[0], 0, w), mkExtract(e->a[1], 0, w)); break;
    default: break;
  }
  return intern(OExtract, w, off, 0, e);
}
Expr *mkZExt(Expr *e, unsigned w) {
  if (w == e->w) return e;
  if (e->isConst()) return mkConst(e->cval(), w);
  if (e->op == OZExt) return mkZExt(e->a[0], w);
  return intern(OZExt, w, 0, 0, e);
}
Expr *mkSExt(Expr *e, unsigned w) {
  if (w == e->w) return e;
  if (e->isConst()) return mkConst((u128)sextW(e->cval(), e->w), w);
  if (e->op == OSExt) return mkSExt(e->a[0], w);
  if (e->op == OZExt) return mkZExt(e->a[0], w);
  if (umaxOf(e) <= maskW(e->w) >> 1) return mkZExt(e, w);
  return intern(OSExt, w, 0, 0, e);
}
Expr *mkFNeg(Expr *a) {
  if (a->isConst()) return foldN(OFNeg, a->w, 0, a);
  if (a->op == OFNeg) return a->a[0];
  return intern(OFNeg, a->w, 0, 0, a);
}
Expr *mkF1(Op op, Expr *a, unsigned w, u64 kind) {
  if (a->isConst()) return foldN(op, w, kind, a);
  if (op == OFNeg) return mkFNeg(a);
  if (op == OFAbs) { if (a->op == OFNeg || a->op == OFAbs) return mkF1(OFAbs, a->a[0], w, 0); }
  if (op == OFPTrunc && a->op == OFPExt && a->a[0]->w == w) return a->a[0];
  if ((op == OFPExt || op == OFPTrunc) && a->op == OFNeg) return mkFNeg(mkF1(op, a->a[0], w, kind));
  if (op == OUIToFP && a->op == OZExt) return mkF1(op, a->a[0], w, kind);
  if (op == OSIToFP && a->op == OSExt) return mkF1(op, a->a[0], w, kind);
  if (op == OSIToFP && a->op == OZExt) return mkF1(OUIToFP, a->a[0], w, kind);
  if (op == OUIToFP && a->w == 1) return mkIte(a, mkF1(OUIToFP, mkConst(1, 8), w), mkConst(0, w));
  if (a->op == OIte && a->a[1]->isConst() && a->a[2]->isConst()) return mkIte(a->a[0], mkF1(op, a->a[1], w, kind), mkF1(op, a->a[2], w, kind));
  return intern(op, w, kind, 0, a);
}
static bool fIs(Expr *e, double d) {
  if (!e->isConst()) return false;
  u128 c = e->w == 32 ? fromF((float)d) : fromD(d);
  return e->cval() == c;
}
Expr *mkFBin(Op op, Expr *a, Expr *b) {
  unsigned w = a->w;
  if (a->isConst() && b->isConst()) return foldN(op, w, 0, a, b);
  if (op == OFMul || op == OFDiv) {
    bool neg = false;
    if (a->op == OFNeg) { neg = !neg; a = a->a[0]; }
    if (b->op == OFNeg) { neg = !neg; b = b->a[0]; }
    if (a->isConst() && (a->cval() >> (w - 1))) { neg = !neg; a = mkFNeg(a); }
    if (b->isConst() && (b->cval() >> (w - 1))) { neg = !neg; b = mkFNeg(b); }
    if (neg) return mkFNeg(mkFBin(op, a, b));
    if (fIs(b, 1.0)) return a;
    if (op == OFMul && fIs(a, 1.0)) return b;
    if (op == OFDiv && b->isConst()) {  // division by a power of two is an exact multiplication
      double d = w == 32 ? asF(b->cval()) : asD(b->cval());
      int ex; double m = frexp(d, &ex);
      if (m == 0.5 && ex > -100 && ex < 100) return mkFBin(OFMul, a, mkConst(w == 32 ? fromF((float)(1.0 / d)) : fromD(1.0 / d), w));
    }
  }
  if (op == OFAdd) {
    if (a->isConst() && a->cval() == (u128)1 << (w - 1)) return b;
    if (b->isConst() && b->cval() == (u128)1 << (w - 1)) return a;
    if (a == b) return mkFBin(OFMul, a, mkConst(w == 32 ? fromF(2.F) : fromD(2.), w));
  }
  if ((op == OFAdd || op == OFMul) && a->id > b->id) std::swap(a, b);
  // Push through an ite with constant arms so that constants keep folding.
  for (int t = 0; t < 2; t++) {
    Expr *p = t ? b : a, *q = t ? a : b;
    if (p->op == OIte && q->isConst() && (p->a[1]->isConst() || p->a[2]->isConst())) {
      Expr *x = t ? mkFBin(op, a, p->a[1]) : mkFBin(op, p->a[1], b), *y = t ? mkFBin(op, a, p->a[2]) : mkFBin(op, p->a[2], b);
      return mkIte(p->a[0], x, y);
    }
  }
  return intern(op, w, 0, 0, a, b);
}
Expr *mkFMA(Expr *a, Expr *b, Expr *c) {
  if (a->isConst() && b->isConst() && c->isConst()) return foldN(OFMA, a->w, 0, a, b, c);
  if (a->id > b->id) std::swap(a, b);
  return intern(OFMA, a->w, 0, 0, a, b, c);
}
Expr *mkFunc(const std::string &name, Expr *a, Expr *b, unsigned w) {
  u64 id = 0;
  for (; id < gFuncs.size(); id++) if (gFuncs[id] == name) break;
  if (id == gFuncs.size()) gFuncs.push_back(name);
  if (a->isConst() && (!b || b->isConst())) return foldN(OFunc, w, id, a, b);
  return intern(OFunc, w, id, 0, a, b);
}
static bool neverNaN(Expr *e, int d = 0) {
  if (e->isConst()) { return e->w == 32 ? !std::isnan(asF(e->cval())) : !std::isnan(asD(e->cval())); }
  if (d > 4) return false;
  switch (e->op) {
    case OUIToFP: case OSIToFP: return true;
    case OFNeg: case OFAbs: case OFPExt: case OFPTrunc: return neverNaN(e->a[0], d + 1);
    case OIte: return neverNaN(e->a[1], d + 1) && neverNaN(e->a[2], d + 1);
    default: return false;
  }
}
Expr *mkFCmp(Op op, Expr *a, Expr *b) {
  if (a->isConst() && b->isConst()) return foldN(op, 1, 0, a, b);
  if (a->op == OFPExt && b->op == OFPExt) return mkFCmp(op, a->a[0], b->a[0]);
  if (a->w == 64) {
    if (a->op == OFPExt && b->isConst()) { double d = asD(b->cval()); float f = (float)d; if ((double)f == d) return mkFCmp(op, a->a[0], mkConst(fromF(f), 32)); }
    if (b->op == OFPExt && a->isConst()) { double d = asD(a->cval()); float f = (float)d; if ((double)f == d) return mkFCmp(op, mkConst(fromF(f), 32), b->a[0]); }
  }
  if (op == OFUno) {
    if (neverNaN(a) && neverNaN(b)) return mkBool(false);
    if (neverNaN(b)) b = a;
    if (neverNaN(a)) a = b;
    if (a->op == OFNeg || a->op == OFAbs) return mkFCmp(op, a->a[0], b == a ? a->a[0] : b);
    if (a->id > b->id) std::swap(a, b);
  }
  if (op == OFEq && a->id > b->id) std::swap(a, b);
  if (a == b) {
    if (op == OFLt) return mkBool(false);
    if (op == OFEq || op == OFLe) return mkNot(mkFCmp(OFUno, a, a));
  }
  if (a->op == OFNeg && b->op == OFNeg) { if (op == OFLt || op == OFLe) return mkFCmp(op, b->a[0], a->a[0]); return mkFCmp(op, a->a[0], b->a[0]); }
  for (int t = 0; t < 2; t++) {
    Expr *p = t ? b : a, *q = t ? a : b;
    if (p->op == OIte && q->isConst() && (p->a[1]->isConst() || p->a[2]->isConst())) {
      Expr *x = t ? mkFCmp(op, a, p->a[1]) : mkFCmp(op, p->a[1], b), *y = t ? mkFCmp(op, a, p->a[2]) : mkFCmp(op, p->a[2], b);
      return mkIte(p->a[0], x, y);
    }
  }
  return intern(op, 1, 0, 0, a, b);
}
static const char *opn[] = {"const", "var", "+", "-", "*", "u/", "s/", "u%", "s%", "&", "|", "^", "<<", ">>u", ">>s", "~", "==", "u<", "u<=", "s<", "s<=", "ite", "++", "ext", "zx", "sx",
  "f+", "f*", "f/", "f%", "fsqrt", "fma", "fneg", "fabs", "frnd", "fpext", "fptrunc", "sitofp", "uitofp", "fptosi", "fptoui", "func", "f==", "f<", "f<=", "funo"};
std::string exprStr(Expr *e, int d) {
  char b[64];
  if (e->op == OConst) { snprintf(b, 64, "0x%llx:%d", (unsigned long long)e->v, e->w); return b; }
  if (e->op == OVar) return gVars[e->v].name + "#" + std::to_string(e->v);
  if (d == 0) return "…";
  std::string s = std::string("(") + opn[e->op];
  if (e->op == OExtract) s += "[" + std::to_string(e->v) + "+" + std::to_string(e->w) + "]";
  for (int i = 0; i < e->n; i++) s += " " + exprStr(e->a[i], d - 1);
  return s + ")";
}
static std::vector<std::vector<uint32_t> *> varCache, tvarCache;
static const std::vector<uint32_t> &varsOf(Expr *e, std::vector<std::vector<uint32_t> *> &cache, bool opaque) {
  if (cache.size() < gExprs.size()) cache.resize(gExprs.size() + 1024, nullptr);
  if (cache[e->id]) return *cache[e->id];
  static std::vector<uint32_t> empty;
  std::vector<Expr *> st{e};
  while (!st.empty()) {
    Expr *x = st.back();
    if (cache[x->id]) { st.pop_back(); continue; }
    if (!x->sym) { cache[x->id] = &empty; st.pop_back(); continue; }
    if (x->op == OVar) { cache[x->id] = new std::vector<uint32_t>{(uint32_t)x->v}; st.pop_back(); continue; }
    if (opaque && isOpaqueFP(x->op)) { cache[x->id] = new std::vector<uint32_t>{x->id | 0x80000000u}; st.pop_back(); continue; }
    bool ok = true;
    for (int i = 0; i < x->n; i++) if (!cache[x->a[i]->id]) { st.push_back(x->a[i]); ok = false; }
    if (!ok) continue;
    if (x->n == 1) { cache[x->id] = cache[x->a[0]->id]; st.pop_back(); continue; }
    std::vector<uint32_t> r = *cache[x->a[0]->id];
    const std::vector<uint32_t> *same = cache[x->a[0]->id];
    for (int i = 1; i < x->n; i++) {
      auto &o = *cache[x->a[i]->id];
      if (&o == same || o.empty()) continue;
      std::vector<uint32_t> t; t.reserve(r.size() + o.size());
      std::set_union(r.begin(), r.end(), o.begin(), o.end(), std::back_inserter(t));
      r.swap(t);
    }
    cache[x->id] = r.size() == same->size() ? const_cast<std::vector<uint32_t> *>(same) : new std::vector<uint32_t>(std::move(r));
    st.pop_back();
  }
  return *cache[e->id];
}
const std::vector<uint32_t> &exprVars(Expr *e) { return varsOf(e, varCache, true); }
const std::vector<uint32_t> &exprTrueVars(Expr *e) { return varsOf(e, tvarCache, false); }

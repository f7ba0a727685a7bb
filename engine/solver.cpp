#include "solver.h"
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstring>
#include <set>

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "Z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }

Solver::Solver() {
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  ctx = Z3_mk_context(cfg);
  Z3_set_error_handler(ctx, errh);
  Z3_del_config(cfg);
}
Z3_ast Solver::bvNum(u128 v, unsigned w) {
  char b[64]; char *p = b + 63; *p = 0;
  if (v == 0) *--p = '0';
  while (v) { *--p = '0' + (int)(v % 10); v /= 10; }
  return Z3_mk_numeral(ctx, p, Z3_mk_bv_sort(ctx, w));
}
Z3_sort Solver::fpSort(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(ctx) : Z3_mk_fpa_sort_64(ctx); }
Z3_ast Solver::fromBool(Z3_ast b) { return Z3_mk_ite(ctx, b, bvNum(1, 1), bvNum(0, 1)); }
// Width-1 expressions are converted to Bool sort; everything wider to bit-vectors.
Z3_ast Solver::asBool(Z3_ast a) { return a; }

Z3_ast Solver::conv(Expr *root, bool precise) {
  auto &memo = precise ? preMemo : absMemo;
  if (memo.size() < gExprs.size()) memo.resize(gExprs.size() + 4096, nullptr);
  if (memo[root->id]) return memo[root->id];
  std::vector<Expr *> st{root};
  while (!st.empty()) {
    Expr *e = st.back();
    if (memo[e->id]) { st.pop_back(); continue; }
    bool ok = true;
    if (!(isOpaqueFP(e->op) && (!precise || e->op == OFunc || e->op == OFRem)))
      for (int i = 0; i < e->n; i++) if (!memo[e->a[i]->id]) { st.push_back(e->a[i]); ok = false; }
    if (!ok) continue;
    memo[e->id] = convNode(e, precise);
    Z3_inc_ref(ctx, memo[e->id]);
    st.pop_back();
  }
  return memo[root->id];
}
Z3_ast Solver::convFP(Expr *e) {
  if (preFP.size() < gExprs.size()) preFP.resize(gExprs.size() + 4096, nullptr);
  if (preFP[e->id]) return preFP[e->id];
  Z3_ast rm = Z3_mk_fpa_rne(ctx), r;
  switch (e->op) {
    case OFAdd: r = Z3_mk_fpa_add(ctx, rm, convFP(e->a[0]), convFP(e->a[1])); break;
    case OFMul: r = Z3_mk_fpa_mul(ctx, rm, convFP(e->a[0]), convFP(e->a[1])); break;
    case OFDiv: r = Z3_mk_fpa_div(ctx, rm, convFP(e->a[0]), convFP(e->a[1])); break;
    case OFMA: r = Z3_mk_fpa_fma(ctx, rm, convFP(e->a[0]), convFP(e->a[1]), convFP(e->a[2])); break;
    case OFSqrt: r = Z3_mk_fpa_sqrt(ctx, rm, convFP(e->a[0])); break;
    case OFNeg: r = Z3_mk_fpa_neg(ctx, convFP(e->a[0])); break;
    case OFAbs: r = Z3_mk_fpa_abs(ctx, convFP(e->a[0])); break;
    case OFPExt: case OFPTrunc: r = Z3_mk_fpa_to_fp_float(ctx, rm, convFP(e->a[0]), fpSort(e->w)); break;
    case OSIToFP: r = Z3_mk_fpa_to_fp_signed(ctx, rm, conv(e->a[0], true), fpSort(e->w)); break;
    case OUIToFP: r = Z3_mk_fpa_to_fp_unsigned(ctx, rm, conv(e->a[0], true), fpSort(e->w)); break;
    case OFRnd: {
      Z3_ast m = e->v == 0 ? Z3_mk_fpa_rtn(ctx) : e->v == 1 ? Z3_mk_fpa_rtp(ctx) : e->v == 2 ? Z3_mk_fpa_rtz(ctx) : e->v == 3 ? rm : Z3_mk_fpa_rna(ctx);
      r = Z3_mk_fpa_round_to_integral(ctx, m, convFP(e->a[0])); break;
    }
    case OIte: r = Z3_mk_ite(ctx, conv(e->a[0], true), convFP(e->a[1]), convFP(e->a[2])); break;
    default: r = Z3_mk_fpa_to_fp_bv(ctx, conv(e, true), fpSort(e->w)); break;
  }
  Z3_inc_ref(ctx, r);
  if (preFP.size() < gExprs.size()) preFP.resize(gExprs.size() + 4096, nullptr);
  return preFP[e->id] = r;
}
Z3_ast Solver::convNode(Expr *e, bool precise) {
  auto &memo = precise ? preMemo : absMemo;
  Z3_ast x[3] = {nullptr, nullptr, nullptr};
  for (int i = 0; i < e->n; i++) x[i] = memo[e->a[i]->id];
  unsigned w = e->w;
  auto bin = [&](Z3_ast (*f)(Z3_context, Z3_ast, Z3_ast)) { return f(ctx, x[0], x[1]); };
  auto B2V = [&](int i) { return e->a[i]->w == 1 ? fromBool(x[i]) : x[i]; };
  auto V2B = [&](Z3_ast v) { return Z3_mk_eq(ctx, v, bvNum(1, 1)); };
  Z3_ast t2[2];
  auto T2 = [&](Z3_ast p, Z3_ast q) -> Z3_ast * { t2[0] = p; t2[1] = q; return t2; };
  auto freshOpaque = [&]() {
    std::string n = "op" + std::to_string(e->id);
    return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), Z3_mk_bv_sort(ctx, w));
  };
  if (isOpaqueFP(e->op)) {
    if (!precise || e->op == OFunc || e->op == OFRem) return freshOpaque();
    if (e->op == OFPToSI) return Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), convFP(e->a[0]), w);
    if (e->op == OFPToUI) return Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), convFP(e->a[0]), w);
    return Z3_mk_fpa_to_ieee_bv(ctx, convFP(e));
  }
  switch (e->op) {
    case OConst: if (w == 1) return e->v ? Z3_mk_true(ctx) : Z3_mk_false(ctx); return bvNum(e->cval(), w);
    case OVar: { std::string n = "v" + std::to_string(e->v); return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), w == 1 ? Z3_mk_bool_sort(ctx) : Z3_mk_bv_sort(ctx, w)); }
    case OAdd: return bin(Z3_mk_bvadd);
    case OSub: return bin(Z3_mk_bvsub);
    case OMul: return bin(Z3_mk_bvmul);
    case OUDiv: return bin(Z3_mk_bvudiv);
    case OSDiv: return bin(Z3_mk_bvsdiv);
    case OURem: return bin(Z3_mk_bvurem);
    case OSRem: return bin(Z3_mk_bvsrem);
    case OAnd: if (w == 1) return Z3_mk_and(ctx, 2, x); return bin(Z3_mk_bvand);
    case OOr: if (w == 1) return Z3_mk_or(ctx, 2, x); return bin(Z3_mk_bvor);
    case OXor: if (w == 1) return Z3_mk_xor(ctx, x[0], x[1]); return bin(Z3_mk_bvxor);
    case ONot: if (w == 1) return Z3_mk_not(ctx, x[0]); return Z3_mk_bvnot(ctx, x[0]);
    case OShl: if (w == 1) return Z3_mk_and(ctx, 2, T2(x[0], Z3_mk_not(ctx, x[1]))); return bin(Z3_mk_bvshl);
    case OLShr: if (w == 1) return Z3_mk_and(ctx, 2, T2(x[0], Z3_mk_not(ctx, x[1]))); return bin(Z3_mk_bvlshr);
    case OAShr: if (w == 1) return x[0]; return bin(Z3_mk_bvashr);
    case OEq: return Z3_mk_eq(ctx, x[0], x[1]);
    case OUlt: if (e->a[0]->w == 1) return Z3_mk_and(ctx, 2, T2(Z3_mk_not(ctx, x[0]), x[1])); return bin(Z3_mk_bvult);
    case OUle: if (e->a[0]->w == 1) return Z3_mk_or(ctx, 2, T2(Z3_mk_not(ctx, x[0]), x[1])); return bin(Z3_mk_bvule);
    case OSlt: if (e->a[0]->w == 1) return Z3_mk_and(ctx, 2, T2(x[0], Z3_mk_not(ctx, x[1]))); return bin(Z3_mk_bvslt);
    case OSle: if (e->a[0]->w == 1) return Z3_mk_or(ctx, 2, T2(x[0], Z3_mk_not(ctx, x[1]))); return bin(Z3_mk_bvsle);
    case OIte: return Z3_mk_ite(ctx, x[0], x[1], x[2]);
    case OConcat: return Z3_mk_concat(ctx, B2V(0), B2V(1));
    case OExtract: { Z3_ast r = Z3_mk_extract(ctx, e->v + w - 1, e->v, x[0]); return w == 1 ? V2B(r) : r; }
    case OZExt: return e->a[0]->w == 1 ? Z3_mk_ite(ctx, x[0], bvNum(1, w), bvNum(0, w)) : Z3_mk_zero_ext(ctx, w - e->a[0]->w, x[0]);
    case OSExt: return e->a[0]->w == 1 ? Z3_mk_ite(ctx, x[0], bvNum(maskW(w), w), bvNum(0, w)) : Z3_mk_sign_ext(ctx, w - e->a[0]->w, x[0]);
    case OFNeg: return Z3_mk_bvxor(ctx, x[0], bvNum((u128)1 << (w - 1), w));
    case OFAbs: return Z3_mk_bvand(ctx, x[0], bvNum(maskW(w) >> 1, w));
    case OFEq: case OFLt: case OFLe: case OFUno: {
      if (precise && (e->a[0]->fparith || e->a[1]->fparith)) {
        Z3_ast p = convFP(e->a[0]), q = convFP(e->a[1]);
        if (e->op == OFEq) return Z3_mk_fpa_eq(ctx, p, q);
        if (e->op == OFLt) return Z3_mk_fpa_lt(ctx, p, q);
        if (e->op == OFLe) return Z3_mk_fpa_leq(ctx, p, q);
        Z3_ast o[2] = {Z3_mk_fpa_is_nan(ctx, p), Z3_mk_fpa_is_nan(ctx, q)};
        return Z3_mk_or(ctx, 2, o);
      }
      unsigned aw = e->a[0]->w;
      u128 inf = aw == 32 ? (u128)0x7f800000u : (u128)0x7ff0000000000000ull;
      Z3_ast infn = bvNum(inf, aw), am = bvNum(maskW(aw) >> 1, aw), zero = bvNum(0, aw);
      Z3_ast aa = Z3_mk_bvand(ctx, x[0], am), ba = Z3_mk_bvand(ctx, x[1], am);
      Z3_ast nan2[2] = {Z3_mk_bvugt(ctx, aa, infn), Z3_mk_bvugt(ctx, ba, infn)};
      Z3_ast uno = Z3_mk_or(ctx, 2, nan2);
      if (e->op == OFUno) return uno;
      Z3_ast ord = Z3_mk_not(ctx, uno);
      Z3_ast z2[2] = {Z3_mk_eq(ctx, aa, zero), Z3_mk_eq(ctx, ba, zero)};
      Z3_ast bothz = Z3_mk_and(ctx, 2, z2);
      Z3_ast eqb = Z3_mk_eq(ctx, x[0], x[1]);
      Z3_ast eqo[2] = {eqb, bothz};
      Z3_ast eq = Z3_mk_or(ctx, 2, eqo);
      if (e->op == OFEq) { Z3_ast r[2] = {ord, eq}; return Z3_mk_and(ctx, 2, r); }
      Z3_ast sa = Z3_mk_bvslt(ctx, x[0], zero), sb = Z3_mk_bvslt(ctx, x[1], zero);
      Z3_ast lt = Z3_mk_ite(ctx, sa, Z3_mk_ite(ctx, sb, Z3_mk_bvult(ctx, x[1], x[0]), Z3_mk_true(ctx)),
                            Z3_mk_ite(ctx, sb, Z3_mk_false(ctx), Z3_mk_bvult(ctx, x[0], x[1])));
      if (e->op == OFLt) { Z3_ast r[3] = {ord, lt, Z3_mk_not(ctx, bothz)}; return Z3_mk_and(ctx, 3, r); }
      Z3_ast le[2] = {lt, eq};
      Z3_ast r[2] = {ord, Z3_mk_or(ctx, 2, le)};
      return Z3_mk_and(ctx, 2, r);
    }
    default: fprintf(stderr, "convNode %d\n", e->op); abort();
  }
}
std::vector<Expr *> Solver::slice(const std::vector<Expr *> &pc, Expr *cond, bool trueVars) {
  auto vars = [&](Expr *e) -> const std::vector<uint32_t> & { return trueVars ? exprTrueVars(e) : exprVars(e); };
  std::vector<Expr *> out;
  if (!cond) { out = pc; return out; }
  std::set<uint32_t> vs(vars(cond).begin(), vars(cond).end());
  std::vector<char> in(pc.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < pc.size(); i++) {
      if (in[i]) continue;
      for (uint32_t v : vars(pc[i])) if (vs.count(v)) {
        in[i] = 1; ch = true; vs.insert(vars(pc[i]).begin(), vars(pc[i]).end()); break;
      }
    }
  }
  for (size_t i = 0; i < pc.size(); i++) if (in[i]) out.push_back(pc[i]);
  out.push_back(cond);
  return out;
}
Res Solver::run(const std::vector<Expr *> &cs, bool precise, unsigned tmo, Model *m) {
  double t0 = now();
  bool anyFP = false;
  if (precise) for (Expr *c : cs) anyFP |= c->fparith;
  Z3_symbol logic = Z3_mk_string_symbol(ctx, precise && anyFP ? "QF_FPBV" : "QF_BV");
  Z3_solver s = Z3_mk_solver_for_logic(ctx, logic);
  Z3_solver_inc_ref(ctx, s);
  Z3_params p = Z3_mk_params(ctx);
  Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), tmo);
  Z3_solver_set_params(ctx, s, p);
  Z3_params_dec_ref(ctx, p);
  for (Expr *c : cs) Z3_solver_assert(ctx, s, conv(c, precise));
  Z3_lbool r = Z3_solver_check(ctx, s);
  Res res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
  if (res == SAT && m) {
    Z3_model zm = Z3_solver_get_model(ctx, s);
    Z3_model_inc_ref(ctx, zm);
    std::set<uint32_t> vs;
    for (Expr *c : cs) for (uint32_t v : exprTrueVars(c)) vs.insert(v);
    for (uint32_t v : vs) {
      Expr *ve = gVars[v].e;
      Z3_ast out;
      if (!Z3_model_eval(ctx, zm, conv(ve, precise), true, &out)) continue;
      Z3_inc_ref(ctx, out);
      u128 val = 0;
      if (ve->w == 1) val = Z3_get_bool_value(ctx, out) == Z3_L_TRUE;
      else { const char *str = Z3_get_numeral_string(ctx, out); for (; *str; str++) if (*str >= '0' && *str <= '9') val = val * 10 + (*str - '0'); }
      m->set(v, val);
      Z3_dec_ref(ctx, out);
    }
    Z3_model_dec_ref(ctx, zm);
  }
  Z3_solver_dec_ref(ctx, s);
  double dt = now() - t0;
  if (precise) { st.preciseCalls++; st.precisetime += dt; if (res == UNKNOWN) st.preciseUnknown++; }
  else { st.z3calls++; st.z3time += dt; }
  return res;
}
Res Solver::checkAbstract(const std::vector<Expr *> &pc, Expr *cond, Model *m) {
  st.queries++;
  if (cond && cond->isFalse()) return UNSAT;
  if (cond && cond->isConst() && !m) return SAT;
  std::vector<Expr *> cs = slice(pc, cond, false);
  std::vector<uint32_t> ids;
  for (Expr *c : cs) ids.push_back(c->id);
  std::sort(ids.begin(), ids.end());
  ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
  std::string key((const char *)ids.data(), ids.size() * 4);
  auto it = cache.find(key);
  if (it != cache.end()) {
    st.cacheHits++;
    if (m && it->second.first == SAT) for (auto &p : it->second.second) m->set(p.first, p.second);
    return it->second.first;
  }
  Model mm;
  Res r = run(cs, false, timeoutMs, &mm);
  Sparse sp;
  if (r == SAT) for (size_t i = 0; i < mm.val.size(); i++) if (mm.has[i]) sp.push_back({(uint32_t)i, mm.val[i]});
  if (cache.size() > 2000000) cache.clear();
  cache[key] = {r, std::move(sp)};
  if (m && r == SAT) for (size_t i = 0; i < mm.val.size(); i++) if (mm.has[i]) m->set(i, mm.val[i]);
  return r;
}
static bool holds(const std::vector<Expr *> &cs, const Model &m) {
  Evaluator ev(&m);
  for (Expr *c : cs) if (!ev.eval(c)) return false;
  return true;
}
Res Solver::checkPrecise(const std::vector<Expr *> &pc, Expr *cond, Model *m, unsigned tmo) {
  std::vector<Expr *> cs = slice(pc, cond, true);
  Model mm;
  Res r = run(cs, true, tmo, &mm);
  if (r == SAT) {
    if (!holds(cs, mm)) return UNKNOWN;  // spurious (uninterpreted functions)
    if (m) for (size_t i = 0; i < mm.val.size(); i++) if (mm.has[i]) m->set(i, mm.val[i]);
  }
  return r;
}
bool Solver::search(const std::vector<Expr *> &cs, const Model &base, Model *out, double seconds) {
  double t0 = now();
  std::set<uint32_t> vs;
  for (Expr *c : cs) for (uint32_t v : exprTrueVars(c)) vs.insert(v);
  std::vector<uint32_t> vars(vs.begin(), vs.end());
  static const double nice[] = {0, 1, -1, 0.5, -0.5, 2, -2, 3, 10, -10, 0.25, 0.1, 1.5, 100, -100, 0.75, 0.9, 1.1, 7, 1e-3, 1000, 1e6, -0.0};
  auto cost = [&](const Model &m, std::vector<Expr *> *bad) { Evaluator ev(&m); int k = 0; for (Expr *c : cs) if (!ev.eval(c)) { k++; if (bad) bad->push_back(c); } return k; };
  Model cur = base;
  for (uint32_t v : vars) cur.set(v, base.get(v));
  std::vector<Expr *> bad;
  int best = cost(cur, &bad);
  if (best == 0) { *out = cur; st.searchHits++; return true; }
  if (vars.empty()) return false;
  int stall = 0;
  while (now() - t0 < seconds) {
    // change a few variables of a violated constraint
    Model t = cur;
    Expr *b = bad[rng() % bad.size()];
    auto &bvs = exprTrueVars(b);
    if (bvs.empty()) return false;
    int k = 1 + rng() % 3;
    for (int i = 0; i < k; i++) {
      uint32_t v = bvs[rng() % bvs.size()];
      unsigned w = gVars[v].w;
      u128 val;
      unsigned mode = rng() % 8;
      if ((w == 32 || w == 64) && mode < 5) {
        double d = mode < 3 ? nice[rng() % (sizeof(nice) / sizeof(*nice))] : ((double)(i64)(rng() % 2001) - 1000) / (mode == 3 ? 100 : 7);
        if (w == 32) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); val = u; } else { u64 u; memcpy(&u, &d, 8); val = u; }
      } else if (mode == 5) val = rng() % 8;
      else if (mode == 6) val = t.get(v) ^ ((u128)1 << (rng() % w));
      else val = ((u128)rng() << 64 | rng());
      t.set(v, val & maskW(w));
    }
    std::vector<Expr *> nb;
    int c = cost(t, &nb);
    if (c == 0) { *out = t; st.searchHits++; st.searchtime += now() - t0; return true; }
    if (c <= best) { stall = c < best ? 0 : stall + 1; best = c; cur = t; bad = nb; }
    else if (++stall > 400) { stall = 0; cur = t; best = c; bad = nb; }
  }
  st.searchtime += now() - t0;
  return false;
}

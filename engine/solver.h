#pragma once
#include "expr.h"
#include <map>
#include <random>
#include <unordered_map>
#include <z3.h>

enum Res { SAT, UNSAT, UNKNOWN };
struct SolverStats {
  u64 queries = 0, z3calls = 0, cacheHits = 0, modelHits = 0, preciseCalls = 0, preciseUnknown = 0, searchHits = 0, structural = 0;
  double z3time = 0, precisetime = 0, searchtime = 0;
};
struct Solver {
  Z3_context ctx = nullptr;
  SolverStats st;
  unsigned timeoutMs = 20000, preciseTimeoutMs = 20000;
  std::mt19937_64 rng;
  Solver();
  void seed(u64 s) { rng.seed(s); }
  // Feasibility of pc && cond, FP arithmetic abstracted to opaque values. m gets values of real variables when SAT.
  Res checkAbstract(const std::vector<Expr *> &pc, Expr *cond, Model *m);
  // With the true FP semantics; SAT results are verified by evaluation.
  Res checkPrecise(const std::vector<Expr *> &pc, Expr *cond, Model *m, unsigned tmo);
  // Looks for a real model near `base` by evaluation only.
  bool search(const std::vector<Expr *> &cs, const Model &base, Model *out, double seconds);
 private:
  std::vector<Z3_ast> absMemo, preMemo, preFP;
  typedef std::vector<std::pair<uint32_t, u128>> Sparse;
  std::unordered_map<std::string, std::pair<Res, Sparse>> cache;
  std::vector<Expr *> slice(const std::vector<Expr *> &pc, Expr *cond, bool trueVars);
  Z3_ast conv(Expr *e, bool precise);
  Z3_ast convFP(Expr *e);
  Z3_ast asBool(Z3_ast bv1);
  Z3_ast fromBool(Z3_ast b);
  Z3_sort fpSort(unsigned w);
  Z3_ast bvNum(u128 v, unsigned w);
  Z3_ast convNode(Expr *e, bool precise);
  Res run(const std::vector<Expr *> &cs, bool precise, unsigned tmo, Model *m);
};

#include <cfloat>
#include <cmath>
#include <cerrno>
// Runtime environment of the executed code: allocation, exceptions, knpsym API, a few C library functions.
#include "exec.h"
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/IntrinsicInst.h>
#include <cmath>
#include <cstring>
#include <unistd.h>
using namespace llvm;

void Executor::H(const std::string &n, std::function<void(State &, KInst &, std::vector<Val> &)> f) {
  handlers[n] = hfun.size();
  hfun.push_back(std::move(f));
}
static const u64 ALLOC_LIMIT = 1ull << 28;

static void callRt(Executor &E, State &s, const char *fn) {
  Function *F = E.M->getFunction(fn);
  if (!F || F->isDeclaration()) { E.unsupported(s, std::string("missing runtime function ") + fn); return; }
  std::vector<Val> none;
  E.pushCall(s, E.getK(F), none);
}
static void doAlloc(Executor &E, State &s, KInst &k, Val sz, unsigned how, bool zero, bool nothrow, u64 align = 16) {
  u64 n;
  if (!sz.conc()) {
    State *other;
    int r = E.fork(s, mkBin(OUlt, mkConst(ALLOC_LIMIT, 64), sz.e), other);
    if (r == 2) E.pending.push_back(other);
    if (r) { if (nothrow) E.ret(s, k, VC(0)); else callRt(E, s, "knpsym_rt_throw_bad_alloc"); return; }
    if (!E.concretize(s, sz, 64, n, true)) return;
  } else n = sz.c;
  if (n > ALLOC_LIMIT) { if (nothrow) E.ret(s, k, VC(0)); else callRt(E, s, "knpsym_rt_throw_bad_alloc"); return; }
  u64 a = s.mem.alloc(n, std::max<u64>(16, align), K_HEAP, zero);
  s.mem.writable(a)->how = how;
  E.ret(s, k, VC(a));
}
static bool doFree(Executor &E, State &s, Val p, unsigned how) {
  if (!p.conc()) { u64 v; if (!E.concretize(s, p, 64, v, true)) return false; p = VC(v); }
  if (!p.c) return true;
  MemObj *o = s.mem.find(p.c);
  if (!o || o->base != p.c || o->kind != K_HEAP) { E.error(s, "memory", "free of a pointer that was not allocated"); return false; }
  if (o->freed) { E.error(s, "memory", "double free"); return false; }
  if (E.opt.races && !s.T().vc.empty() && !E.watch(s, p.c, o->size, true)) { E.error(s, "race", "memory is freed while another thread may use it"); return false; }
  o = s.mem.find(p.c);
  if (o->how != how) { E.error(s, "memory", "mismatched allocation and deallocation"); return false; }
  o = s.mem.writable(p.c);
  o->freed = true;
  std::vector<uint8_t>().swap(o->data); std::vector<uint8_t>().swap(o->tag); std::vector<SymByte>().swap(o->sym); std::vector<Granule>().swap(o->seen);
  return true;
}
static Expr *byteAt(Executor &E, State &s, u64 a, unsigned n, bool &ok) {
  MemObj *o = E.checkAccess(s, a, n, false, ok);
  if (!ok) return nullptr;
  u64 c;
  Expr *e = E.loadBits(s, o, a, n, &c);
  return e ? e : mkConst(c, n * 8);
}
static u64 nextRand(State &s) {
  u64 z = (s.prng += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

void Executor::defHandlers() {
  typedef std::vector<Val> A;
#define HND(name) H(name, [this](State &s, KInst &k, A &a)
  // ---- knpsym API
  HND("knpsym_make") {
    u64 p = a[0].c, n = a[1].c;
    if (!a[0].conc() || !a[1].conc() || n == 0 || n > 16) { unsupported(s, "knpsym_make arguments"); return; }
    std::string nm = cstr(s, a[2].c);
    bool ok; checkAccess(s, p, n, true, ok); if (!ok) return;
    Expr *v = pooledVar(nm, n * 8, s.inputs.size());
    s.inputs.push_back({nm, (unsigned)n, v});
    storeBits(s, s.mem.writable(p), p, n, VE(v), n * 8);
    finishCall(s, k);
  });
  HND("knpsym_choose") {
    u64 n = a[0].c; 
    std::string nm = cstr(s, a[1].c);
    if (!a[0].conc() || n == 0) { unsupported(s, "knpsym_choose argument"); return; }
    for (u64 i = n; i-- > 1;) {
      State *c = clone(s);
      c->inputs.push_back({nm, 4, mkConst(i, 32)});
      ret(*c, k, VC(i));
      pending.push_back(c);
      S.forks++;
    }
    s.inputs.push_back({nm, 4, mkConst(0, 32)});
    ret(s, k, VC(0));
  });
  HND("knpsym_assume") {
    Expr *c = mkNot(mkEq(toE(a[0], 32), mkConst(0, 32)));
    if (!assume(s, c)) { S.infeasible++; kill(s); return; }
    finishCall(s, k);
  });
  HND("knpsym_assert") {
    Expr *c = mkNot(mkEq(toE(a[0], 32), mkConst(0, 32)));
    checkAssert(s, c, "assert", cstr(s, a[1].c));
    if (dead) return;
    if (!c->isTrue() && !assume(s, c)) { S.errors++; kill(s); return; }
    finishCall(s, k);
  });
  HND("knpsym_fail") { checkAssert(s, mkBool(false), "assert", cstr(s, a[0].c)); S.errors++; kill(s); });
  HND("knpsym_observe") {
    s.obs.push_back({cstr(s, a[0].c), toE(a[1], 64), (int)a[2].c});
    finishCall(s, k);
  });
  HND("knpsym_reach") { s.reached.insert(cstr(s, a[0].c)); reached.insert(cstr(s, a[0].c)); finishCall(s, k); });
  HND("knpsym_expect") { expected.insert(cstr(s, a[0].c)); finishCall(s, k); });
  HND("knpsym_param") { ret(s, k, VC(a[0].c < opt.params.size() ? opt.params[a[0].c] : 0)); });
  HND("knpsym_symbolic_random") { s.symRandom = a[0].c != 0; finishCall(s, k); });
  HND("knpsym_is_symbolic") { ret(s, k, VC(1)); });
  HND("knpsym_yield") { finishCall(s, k); schedule(s, true); });
  HND("knpsym_block") { s.T().blockAddr = a[0].c; s.T().blockVal = a[1].c; finishCall(s, k); schedule(s, true); });
  HND("knpsym_one_schedule") { s.oneSchedule = a[0].c != 0; finishCall(s, k); });
  HND("knpsym_acquire") { acquire(s, a[0].c); finishCall(s, k); });
  HND("knpsym_release") { release(s, a[0].c); finishCall(s, k); });
  HND("knpsym_unwatched") { s.T().unwatched += (int)a[0].c; finishCall(s, k); });
  HND("knpsym_self") { ret(s, k, VC(s.cur)); });
  HND("knpsym_thread_done") { ret(s, k, VC(a[0].c < s.th.size() && s.th[a[0].c].done)); });
  HND("knpsym_thread_create") {
    auto it = faddr.find(a[0].c);
    if (it == faddr.end()) { unsupported(s, "thread function"); return; }
    int id = s.th.size();
    finishCall(s, k.dest >= 0 ? (setReg(s, k, VC(id)), k) : k);
    int cur = s.cur;
    s.th.emplace_back();
    if (opt.races) {
      Thread &P = s.T();
      if (P.vc.size() < s.th.size()) P.vc.resize(s.th.size());
      s.th[id].vc = P.vc;
      s.th[id].vc[id] = 1;
      P.vc[cur]++;
    }
    s.cur = id;
    A args{a[1]};
    pushCall(s, getK(it->second), args);
    s.cur = cur;
  });
  // ---- allocation
  for (const char *n : {"_Znwm", "_Znam"}) { unsigned h = n[3] == 'w' ? 1 : 2; H(n, [this, h](State &s, KInst &k, A &a) { doAlloc(*this, s, k, a[0], h, false, false); }); }
  for (const char *n : {"_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"}) { unsigned h = n[3] == 'w' ? 1 : 2; H(n, [this, h](State &s, KInst &k, A &a) { doAlloc(*this, s, k, a[0], h, false, true); }); }
  for (const char *n : {"_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"}) { unsigned h = n[3] == 'w' ? 1 : 2; H(n, [this, h](State &s, KInst &k, A &a) { doAlloc(*this, s, k, a[0], h, false, false, a[1].c); }); }
  for (const char *n : {"_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) {
    unsigned h = n[3] == 'l' ? 1 : 2;
    H(n, [this, h](State &s, KInst &k, A &a) { if (doFree(*this, s, a[0], h)) finishCall(s, k); });
  }
  HND("malloc") { doAlloc(*this, s, k, a[0], 0, false, true); });
  HND("calloc") { doAlloc(*this, s, k, VE(mkBin(OMul, toE(a[0], 64), toE(a[1], 64))), 0, true, true); });
  HND("aligned_alloc") { doAlloc(*this, s, k, a[1], 0, false, true, a[0].c); });
  HND("realloc") {
    u64 n; if (!concretize(s, a[1], 64, n, true)) return;
    u64 old = a[0].c, osz = 0;
    if (old) { MemObj *o = s.mem.find(old); if (!o || o->base != old || o->freed) { error(s, "memory", "realloc of an invalid pointer"); return; } osz = o->size; }
    u64 p = s.mem.alloc(n, 16, K_HEAP, false);
    bool ok; memcpyC(s, p, old, std::min(n, osz), ok); if (!ok) return;
    if (old && !doFree(*this, s, VC(old), 0)) return;
    ret(s, k, VC(p));
  });
  HND("free") { if (doFree(*this, s, a[0], 0)) finishCall(s, k); });
  // ---- memory functions
  for (const char *n : {"memcpy", "memmove"}) H(n, [this](State &s, KInst &k, A &a) {
    u64 c, d, sr;
    if (!concretize(s, a[2], 64, c, true) || !concretize(s, a[0], 64, d, true) || !concretize(s, a[1], 64, sr, true)) return;
    bool ok = true; if (c) memcpyC(s, d, sr, c, ok);
    if (ok) ret(s, k, VC(d));
  });
  HND("memset") {
    u64 c, d;
    if (!concretize(s, a[2], 64, c, true) || !concretize(s, a[0], 64, d, true)) return;
    if (c) {
      bool ok; checkAccess(s, d, c, true, ok); if (!ok) return;
      MemObj *o = s.mem.writable(d);
      Val b = a[1].conc() ? VC(a[1].c & 255) : VE(mkExtract(a[1].e, 0, 8));
      for (u64 i = 0; i < c; i++) storeBits(s, o, d + i, 1, b, 8);
    }
    ret(s, k, VC(d));
  });
  HND("bcmp") {
    u64 n, p, q;
    if (!concretize(s, a[2], 64, n, true) || !concretize(s, a[0], 64, p, true) || !concretize(s, a[1], 64, q, true)) return;
    Expr *eq = mkBool(true);
    for (u64 i = 0; i < n;) {
      unsigned c = n - i >= 8 ? 8 : n - i >= 4 ? 4 : 1;
      bool ok; Expr *x = byteAt(*this, s, p + i, c, ok); if (!ok) return;
      Expr *y = byteAt(*this, s, q + i, c, ok); if (!ok) return;
      eq = mkAnd(eq, mkEq(x, y));
      i += c;
    }
    ret(s, k, VE(mkZExt(mkNot(eq), 32)));
  });
  HND("memcmp") {
    u64 n, p, q;
    if (!concretize(s, a[2], 64, n, true) || !concretize(s, a[0], 64, p, true) || !concretize(s, a[1], 64, q, true)) return;
    Expr *r = mkConst(0, 32);
    for (u64 i = n; i-- > 0;) {
      bool ok; Expr *x = byteAt(*this, s, p + i, 1, ok); if (!ok) return;
      Expr *y = byteAt(*this, s, q + i, 1, ok); if (!ok) return;
      r = mkIte(mkEq(x, y), r, mkIte(mkBin(OUlt, x, y), mkConst(0xffffffffu, 32), mkConst(1, 32)));
    }
    ret(s, k, VE(r));
  });
  // ---- exceptions
  HND("__cxa_allocate_exception") { u64 p = s.mem.alloc(a[0].c, 16, K_EXC, false); ret(s, k, VC(p)); });
  HND("__cxa_free_exception") { finishCall(s, k); });
  HND("__cxa_throw") { s.exc[a[0].c] = {a[1].c, a[0].c}; raise(s, a[0].c); });
  HND("__cxa_begin_catch") {
    u64 e = a[0].c;
    s.T().caught.push_back(e);
    u64 want = 0;
    for (auto &t : typeIds) if (t.second == s.T().excSel) want = t.first;
    i64 off = want ? baseOff(s, s.exc[e].ti, want) : 0;
    ret(s, k, VC(e + off));
  });
  HND("__cxa_get_exception_ptr") {
    u64 e = a[0].c, want = 0;
    for (auto &t : typeIds) if (t.second == s.T().excSel) want = t.first;
    ret(s, k, VC(e + (want ? baseOff(s, s.exc[e].ti, want) : 0)));
  });
  HND("__cxa_end_catch") { if (!s.T().caught.empty()) s.T().caught.pop_back(); finishCall(s, k); });
  HND("__cxa_rethrow") { if (s.T().caught.empty()) { error(s, "terminate", "rethrow without exception"); return; } raise(s, s.T().caught.back()); });
  HND("_ZSt9terminatev") { error(s, "terminate", "std::terminate called"); });
  HND("__clang_call_terminate") { error(s, "terminate", "exception leaves a noexcept function"); });
  HND("_ZSt19uncaught_exceptionsv") { ret(s, k, VC(0)); });
  HND("_ZSt18uncaught_exceptionv") { ret(s, k, VC(0)); });
  HND("_ZSt17current_exceptionv") {  // sret: exception_ptr is one pointer
    bool ok; checkAccess(s, a[0].c, 8, true, ok); if (!ok) return;
    storeBits(s, s.mem.writable(a[0].c), a[0].c, 8, VC(s.T().caught.empty() ? 0 : s.T().caught.back()), 64);
    finishCall(s, k);
  });
  for (const char *n : {"_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", "_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv"}) H(n, [this](State &s, KInst &k, A &) { finishCall(s, k); });
  for (const char *n : {"_ZNSt15__exception_ptr13exception_ptrC1ERKS0_", "_ZNSt15__exception_ptr13exception_ptrC2ERKS0_", "_ZNSt15__exception_ptr13exception_ptraSERKS0_"}) H(n, [this](State &s, KInst &k, A &a) {
    bool ok; memcpyC(s, a[0].c, a[1].c, 8, ok); if (!ok) return;
    if (k.dest >= 0) setReg(s, k, a[0]);
    finishCall(s, k);
  });
  for (const char *n : {"_ZNSt15__exception_ptr13exception_ptrC1Ev", "_ZNSt15__exception_ptr13exception_ptrC2Ev", "_ZNSt15__exception_ptr13exception_ptrD1Ev", "_ZNSt15__exception_ptr13exception_ptrD2Ev"}) {
    bool ctor = std::string(n).find("D") == std::string::npos || std::string(n).find("C1Ev") != std::string::npos || std::string(n).find("C2Ev") != std::string::npos;
    H(n, [this, ctor](State &s, KInst &k, A &a) {
      if (ctor) { bool ok; checkAccess(s, a[0].c, 8, true, ok); if (!ok) return; storeBits(s, s.mem.writable(a[0].c), a[0].c, 8, VC(0), 64); }
      finishCall(s, k);
    });
  }
  HND("_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE") {
    bool ok; MemObj *o = checkAccess(s, a[0].c, 8, false, ok); if (!ok) return;
    u64 c = 0; loadBits(s, o, a[0].c, 8, &c);
    if (!s.exc.count(c)) { error(s, "terminate", "rethrow of an empty exception_ptr"); return; }
    raise(s, c);
  });
  HND("__cxa_pure_virtual") { error(s, "memory", "pure virtual function called"); });
  HND("__cxa_bad_cast") { callRt(*this, s, "knpsym_rt_throw_bad_cast"); });
  HND("__cxa_throw_bad_array_new_length") { callRt(*this, s, "knpsym_rt_throw_bad_alloc"); });
  // ---- process
  HND("abort") { error(s, "abort", "abort called"); });
  HND("exit") { error(s, "exit", "exit called"); });
  HND("__assert_fail") { error(s, "assert_fail", "assert failed: " + cstr(s, a[0].c)); });
  HND("__stack_chk_fail") { error(s, "memory", "stack smashed"); });
  HND("__cxa_atexit") { ret(s, k, VC(0)); });
  HND("__cxa_thread_atexit") { ret(s, k, VC(0)); });
  HND("atexit") { ret(s, k, VC(0)); });
  HND("__dynamic_cast") {
    u64 src = a[0].c, out = 0;
    auto word = [&](u64 p, u64 &v) { MemObj *o = s.mem.find(p); if (!o || p + 8 > o->base + o->size) return false; memcpy(&v, &o->data[p - o->base], 8); return true; };
    u64 vp, top, ti;
    if (src && word(src, vp) && word(vp - 16, top) && word(vp - 8, ti) && typeMatch(s, ti, a[2].c)) out = src + top + baseOff(s, ti, a[2].c);
    ret(s, k, VC(out));
  });
  HND("__cxa_guard_acquire") {
    bool ok; MemObj *o = checkAccess(s, a[0].c, 1, false, ok); if (!ok) return;
    u64 c = 0; loadBits(s, o, a[0].c, 1, &c);
    ret(s, k, VC(c == 0));
  });
  HND("__cxa_guard_release") { storeBits(s, s.mem.writable(a[0].c), a[0].c, 1, VC(1), 8); finishCall(s, k); });
  HND("__cxa_guard_abort") { finishCall(s, k); });
  HND("__errno_location") { ret(s, k, VC(errnoAddr)); });
  HND("getrandom") {
    u64 n; if (!concretize(s, a[1], 64, n, true)) return;
    bool ok; checkAccess(s, a[0].c, n, true, ok); if (!ok) return;
    MemObj *o = s.mem.writable(a[0].c);
    for (u64 i = 0; i < n; i += 8) {
      if (s.symRandom) {
        unsigned m = std::min<u64>(8, n - i);
        Expr *v = pooledVar("random", m * 8, s.inputs.size());
        s.inputs.push_back({"random", m, v});
        storeBits(s, o, a[0].c + i, m, VE(v), m * 8);
        continue;
      }
      u64 r = nextRand(s); storeBits(s, o, a[0].c + i, std::min<u64>(8, n - i), VC(r), 64);
    }
    ret(s, k, VC(n));
  });
  for (const char *n : {"_ZNSt6chrono3_V212system_clock3nowEv", "_ZNSt6chrono3_V212steady_clock3nowEv"}) H(n, [this](State &s, KInst &k, A &) { ret(s, k, VC(1700000000000000000ull + (s.clock += 1000000))); });
  for (const char *n : {"nanosleep", "sched_yield", "usleep"}) H(n, [this](State &s, KInst &k, A &) { ret(s, k, VC(0)); schedule(s, true); });
  HND("knpsym_format_double") {  // out, size, fmt, has_prec, prec, value
    u64 v, n, pr; if (!concretize(s, a[5], 64, v, true) || !concretize(s, a[1], 64, n, true) || !concretize(s, a[4], 32, pr, true)) return;
    double d; memcpy(&d, &v, 8);
    std::string fmt = cstr(s, a[2].c);
    std::vector<char> buf(2000);
    int len = a[3].c ? snprintf(buf.data(), buf.size(), fmt.c_str(), (int)pr, d) : snprintf(buf.data(), buf.size(), fmt.c_str(), d);
    u64 wr = n ? std::min<u64>(n, len + 1) : 0;
    if (wr) {
      bool ok; checkAccess(s, a[0].c, wr, true, ok); if (!ok) return;
      MemObj *o = s.mem.writable(a[0].c);
      for (u64 i = 0; i < wr; i++) storeBits(s, o, a[0].c + i, 1, VC(i + 1 == wr ? 0 : (unsigned char)buf[i]), 8);
    }
    ret(s, k, VC((uint32_t)len));
  });
  HND("knpsym_parse_double") {  // text, result, is_float
    std::string t;
    for (u64 i = 0; i < 100; i++) {
      bool ok; checkAccess(s, a[0].c + i, 1, false, ok); if (!ok) return;
      MemObj *o = s.mem.find(a[0].c + i);
      u64 cv = 0; Expr *ce = loadBits(s, o, a[0].c + i, 1, &cv);
      Val c = ce ? VE(ce) : VC(cv);
      u64 v; if (!concretize(s, c, 8, v, true)) return;
      if (!v) break;
      t += (char)v;
    }
    char *end = nullptr;
    errno = 0;
    double d = a[2].c ? strtof(t.c_str(), &end) : strtod(t.c_str(), &end);
    bool good = !t.empty() && end == t.c_str() + t.size();
    int r = !good ? 0 : 1;
    if (!good) d = 0;
    else if (std::isinf(d)) { r = 2; d = a[2].c ? (d > 0 ? FLT_MAX : -FLT_MAX) : (d > 0 ? DBL_MAX : -DBL_MAX); }
    u64 bits; memcpy(&bits, &d, 8);
    bool ok; checkAccess(s, a[1].c, 8, true, ok); if (!ok) return;
    storeBits(s, s.mem.writable(a[1].c), a[1].c, 8, VC(bits), 64);
    ret(s, k, VC(r));
  });
  HND("time") { ret(s, k, VC(1700000000)); });
#undef HND
}

// ------------------------------------------------------------------ initialisation
static void initGlobalMem(Executor &E, State &s, u64 addr, const Constant *C) {
  Type *T = C->getType();
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;  // memory is zero already
  if (auto *CA = dyn_cast<ConstantAggregate>(C)) {
    for (unsigned i = 0; i < CA->getNumOperands(); i++) {
      u64 off;
      if (auto *ST = dyn_cast<StructType>(T)) off = E.DL->getStructLayout(ST)->getElementOffset(i);
      else if (auto *AT = dyn_cast<ArrayType>(T)) off = i * E.DL->getTypeAllocSize(AT->getElementType());
      else off = i * E.DL->getTypeSizeInBits(cast<VectorType>(T)->getElementType()) / 8;
      initGlobalMem(E, s, addr + off, CA->getOperand(i));
    }
    return;
  }
  if (auto *CD = dyn_cast<ConstantDataSequential>(C)) {
    StringRef d = CD->getRawDataValues();
    MemObj *o = s.mem.writable(addr);
    memcpy(&o->data[addr - o->base], d.data(), d.size());
    return;
  }
  if (T->isX86_FP80Ty()) return;
  Val v = E.evalConst(C);
  E.storeT(s, s.mem.writable(addr), addr, T, v);
}
void Executor::init() {
  defHandlers();
  base = new State;
  State &s = *base;
  s.id = nextState++;
  u64 fa = 0x100000;
  for (Function &F : *M) { gaddr[&F] = fa; faddr[fa] = &F; fa += 16; }
  std::vector<GlobalVariable *> gv;
  for (GlobalVariable &G : M->globals()) {
    std::string n = G.getName().str();
    if (n.find("llvm.") == 0) continue;
    u64 size = G.hasInitializer() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 512;
    gaddr[&G] = s.mem.alloc(size, std::max<u64>(16, G.getAlign() ? G.getAlign()->value() : 16), K_GLOBAL, true);
    gv.push_back(&G);
  }
  errnoAddr = s.mem.alloc(8, 16, K_GLOBAL, true);
  auto addrOf = [&](const char *n) -> u64 { auto *G = M->getNamedValue(n); return G && gaddr.count(G) ? gaddr[G] : 0; };
  siVT = addrOf("_ZTVN10__cxxabiv120__si_class_type_infoE");
  vmiVT = addrOf("_ZTVN10__cxxabiv121__vmi_class_type_infoE");
  clVT = addrOf("_ZTVN10__cxxabiv117__class_type_infoE");
  for (auto *G : gv) {
    std::string n = G->getName().str();
    u64 a = gaddr[G];
    if (G->hasInitializer()) initGlobalMem(*this, s, a, G->getInitializer());
    else if (n.rfind("_ZTI", 0) == 0) {  // external type info: only its name matters
      std::string nm = n.substr(4);
      u64 sa = s.mem.alloc(nm.size() + 1, 16, K_GLOBAL, true);
      memcpy(s.mem.writable(sa)->data.data(), nm.c_str(), nm.size() + 1);
      storeBits(s, s.mem.writable(a), a + 8, 8, VC(sa), 64);
      externalTI.insert(n);
    } else if (n == "__libc_single_threaded") storeBits(s, s.mem.writable(a), a, 1, VC(opt.races ? 0 : 1), 8);
  }
  for (auto *G : gv) if (G->isConstant() && G->hasInitializer()) s.mem.writable(gaddr[G])->ro = true;
  // run static constructors concretely in order, then the entry point
  std::vector<std::pair<u64, Function *>> ctors;
  if (auto *G = M->getNamedGlobal("llvm.global_ctors"))
    if (auto *CA = dyn_cast<ConstantArray>(G->getInitializer()))
      for (auto &op : CA->operands()) {
        auto *CS = cast<ConstantStruct>(op);
        if (auto *F = dyn_cast<Function>(CS->getOperand(1)->stripPointerCasts())) ctors.push_back({cast<ConstantInt>(CS->getOperand(0))->getZExtValue(), F});
      }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto &x, auto &y) { return x.first < y.first; });
  Function *EF = M->getFunction(opt.entry);
  if (!EF || EF->isDeclaration()) { fprintf(stderr, "no entry function %s\n", opt.entry.c_str()); exit(2); }
  s.th.emplace_back();
  std::vector<Val> none;
  pushCall(s, getK(EF), none);
  // constructors run on top of the entry frame: returning from them must not advance the entry's pc, so run each separately
  for (auto &c : ctors) {
    s.th.emplace_back();
    s.cur = s.th.size() - 1;
    pushCall(s, getK(c.second), none);
    while (!s.th.back().st.empty() && !dead) {
      if (s.th.back().st.size() == 1) {
        Frame &f = s.F();
        if (f.bb->insts[f.pc].opc == Instruction::Ret) { popFrame(s); break; }
      }
      if (!step(s)) break;
      if (!pending.empty()) { fprintf(stderr, "static constructor forks: %s\n", c.second->getName().str().c_str()); exit(2); }
    }
    if (dead) {
      fprintf(stderr, "static constructor failed: %s\n", c.second->getName().str().c_str());
      for (auto &u : unsupportedMsgs) fprintf(stderr, "  unsupported: %s\n", u.first.c_str());
      for (auto &v : violations) fprintf(stderr, "  %s %s at %s\n", v.kind.c_str(), v.msg.c_str(), v.where.c_str());
      exit(2);
    }
    s.th.pop_back();
    s.cur = 0;
  }
  s.steps = 0;
}

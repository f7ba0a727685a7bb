#include "exec.h"
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/Support/raw_ostream.h>
#include <cmath>
#include <cstring>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <atomic>
using namespace llvm;

static float F32(u64 c) { uint32_t u = (uint32_t)c; float f; memcpy(&f, &u, 4); return f; }
static double F64(u64 c) { double d; memcpy(&d, &c, 8); return d; }
static u64 B32(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static u64 B64(double d) { u64 u; memcpy(&u, &d, 8); return u; }
static i64 SX(u64 v, unsigned w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }

Val Executor::fp2(Op op, const Val &a, const Val &b, unsigned w) {
  if (a.conc() && b.conc()) {
    if (w == 32) { float x = F32(a.c), y = F32(b.c); return VC(B32(op == OFAdd ? x + y : op == OFMul ? x * y : op == OFDiv ? x / y : fmodf(x, y))); }
    double x = F64(a.c), y = F64(b.c);
    return VC(B64(op == OFAdd ? x + y : op == OFMul ? x * y : op == OFDiv ? x / y : fmod(x, y)));
  }
  return VE(mkFBin(op, toE(a, w), toE(b, w)));
}
Val Executor::fp1(Op op, const Val &a, unsigned w, u64 kind, unsigned rw) { return VE(mkF1(op, toE(a, w), rw ? rw : w, kind)); }

Val Executor::binop(State &s, unsigned opc, const Val &a, const Val &b, unsigned w, KInst &k) {
  if (a.isAgg()) {
    auto *VT = cast<FixedVectorType>(k.I->getType());
    unsigned ew = DL->getTypeSizeInBits(VT->getElementType());
    Agg *r = new Agg;
    for (size_t i = 0; i < a.agg()->v.size(); i++) r->v.push_back(binop(s, opc, a.agg()->v[i], b.agg()->v[i], ew, k));
    return VA(r);
  }
  switch (opc) {
    case Instruction::FAdd: return fp2(OFAdd, a, b, w);
    case Instruction::FSub:
      if (a.conc() && b.conc()) return w == 32 ? VC(B32(F32(a.c) - F32(b.c))) : VC(B64(F64(a.c) - F64(b.c)));
      return VE(mkFBin(OFAdd, toE(a, w), mkFNeg(toE(b, w))));
    case Instruction::FMul: return fp2(OFMul, a, b, w);
    case Instruction::FDiv: return fp2(OFDiv, a, b, w);
    case Instruction::FRem: return fp2(OFRem, a, b, w);
    default: break;
  }
  if (a.conc() && b.conc() && w <= 64) {
    u64 x = a.c, y = b.c, M = mask64(w);
    switch (opc) {
      case Instruction::Add: return VC((x + y) & M);
      case Instruction::Sub: return VC((x - y) & M);
      case Instruction::Mul: return VC((x * y) & M);
      case Instruction::And: return VC(x & y);
      case Instruction::Or: return VC(x | y);
      case Instruction::Xor: return VC(x ^ y);
      case Instruction::Shl: return VC(y >= w ? 0 : (x << y) & M);
      case Instruction::LShr: return VC(y >= w ? 0 : x >> y);
      case Instruction::AShr: return VC((u64)(SX(x, w) >> (y >= w ? w - 1 : y)) & M);
      case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
        if (!y) { error(s, "div0", "integer division by zero"); return VC(0); }
        if (opc == Instruction::UDiv) return VC(x / y);
        if (opc == Instruction::URem) return VC(x % y);
        { i64 p = SX(x, w), q = SX(y, w); if (q == -1) return VC(opc == Instruction::SDiv ? (0 - x) & M : 0); return VC((u64)(opc == Instruction::SDiv ? p / q : p % q) & M); }
    }
  }
  Expr *x = toE(a, w), *y = toE(b, w);
  Op op;
  switch (opc) {
    case Instruction::Add: op = OAdd; break;
    case Instruction::Sub: op = OSub; break;
    case Instruction::Mul: op = OMul; break;
    case Instruction::And: op = OAnd; break;
    case Instruction::Or: op = OOr; break;
    case Instruction::Xor: op = OXor; break;
    case Instruction::Shl: op = OShl; break;
    case Instruction::LShr: op = OLShr; break;
    case Instruction::AShr: op = OAShr; break;
    case Instruction::UDiv: op = OUDiv; break;
    case Instruction::SDiv: op = OSDiv; break;
    case Instruction::URem: op = OURem; break;
    case Instruction::SRem: op = OSRem; break;
    default: unsupported(s, "binop"); return VC(0);
  }
  if (op == OUDiv || op == OSDiv || op == OURem || op == OSRem) {
    Expr *z = mkEq(y, mkConst(0, w));
    if (!z->isFalse()) {
      if (may(s, z, nullptr) != UNSAT) checkAssert(s, mkNot(z), "div0", "integer division by zero");
      if (!assume(s, mkNot(z))) { kill(s); return VC(0); }
    }
  }
  return VE(mkBin(op, x, y));
}
Val Executor::icmp(unsigned pred, const Val &a, const Val &b, unsigned w) {
  if (a.isAgg()) {
    Agg *r = new Agg;
    for (size_t i = 0; i < a.agg()->v.size(); i++) r->v.push_back(icmp(pred, a.agg()->v[i], b.agg()->v[i], w));
    return VA(r);
  }
  if (a.conc() && b.conc()) {
    u64 x = a.c, y = b.c;
    i64 p = SX(x, w), q = SX(y, w);
    switch (pred) {
      case CmpInst::ICMP_EQ: return VC(x == y);
      case CmpInst::ICMP_NE: return VC(x != y);
      case CmpInst::ICMP_ULT: return VC(x < y);
      case CmpInst::ICMP_ULE: return VC(x <= y);
      case CmpInst::ICMP_UGT: return VC(x > y);
      case CmpInst::ICMP_UGE: return VC(x >= y);
      case CmpInst::ICMP_SLT: return VC(p < q);
      case CmpInst::ICMP_SLE: return VC(p <= q);
      case CmpInst::ICMP_SGT: return VC(p > q);
      default: return VC(p >= q);
    }
  }
  Expr *x = toE(a, w), *y = toE(b, w);
  switch (pred) {
    case CmpInst::ICMP_EQ: return VE(mkEq(x, y));
    case CmpInst::ICMP_NE: return VE(mkNot(mkEq(x, y)));
    case CmpInst::ICMP_ULT: return VE(mkBin(OUlt, x, y));
    case CmpInst::ICMP_ULE: return VE(mkBin(OUle, x, y));
    case CmpInst::ICMP_UGT: return VE(mkBin(OUlt, y, x));
    case CmpInst::ICMP_UGE: return VE(mkBin(OUle, y, x));
    case CmpInst::ICMP_SLT: return VE(mkBin(OSlt, x, y));
    case CmpInst::ICMP_SLE: return VE(mkBin(OSle, x, y));
    case CmpInst::ICMP_SGT: return VE(mkBin(OSlt, y, x));
    default: return VE(mkBin(OSle, y, x));
  }
}
Val Executor::fcmp(unsigned pred, const Val &a, const Val &b, unsigned w) {
  if (a.isAgg()) {
    Agg *r = new Agg;
    for (size_t i = 0; i < a.agg()->v.size(); i++) r->v.push_back(fcmp(pred, a.agg()->v[i], b.agg()->v[i], w));
    return VA(r);
  }
  Expr *x = toE(a, w), *y = toE(b, w), *r;
  switch (pred) {
    case CmpInst::FCMP_FALSE: r = mkBool(false); break;
    case CmpInst::FCMP_TRUE: r = mkBool(true); break;
    case CmpInst::FCMP_OEQ: r = mkFCmp(OFEq, x, y); break;
    case CmpInst::FCMP_OGT: r = mkFCmp(OFLt, y, x); break;
    case CmpInst::FCMP_OGE: r = mkFCmp(OFLe, y, x); break;
    case CmpInst::FCMP_OLT: r = mkFCmp(OFLt, x, y); break;
    case CmpInst::FCMP_OLE: r = mkFCmp(OFLe, x, y); break;
    case CmpInst::FCMP_ONE: r = mkNot(mkOr(mkFCmp(OFEq, x, y), mkFCmp(OFUno, x, y))); break;
    case CmpInst::FCMP_ORD: r = mkNot(mkFCmp(OFUno, x, y)); break;
    case CmpInst::FCMP_UNO: r = mkFCmp(OFUno, x, y); break;
    case CmpInst::FCMP_UEQ: r = mkOr(mkFCmp(OFEq, x, y), mkFCmp(OFUno, x, y)); break;
    case CmpInst::FCMP_UGT: r = mkNot(mkFCmp(OFLe, x, y)); break;
    case CmpInst::FCMP_UGE: r = mkNot(mkFCmp(OFLt, x, y)); break;
    case CmpInst::FCMP_ULT: r = mkNot(mkFCmp(OFLe, y, x)); break;
    case CmpInst::FCMP_ULE: r = mkNot(mkFCmp(OFLt, y, x)); break;
    default: r = mkNot(mkFCmp(OFEq, x, y)); break;  // UNE
  }
  return VE(r);
}
static Val splitBits(Executor *E, Expr *e, unsigned n, unsigned ew) {
  Agg *r = new Agg;
  for (unsigned i = 0; i < n; i++) r->v.push_back(VE(mkExtract(e, i * ew, ew)));
  return VA(r);
}
Val Executor::castop(unsigned opc, const Val &a, unsigned sw, unsigned dw, KInst &k) {
  if (opc == Instruction::BitCast) {
    Type *ST = k.I->getOperand(0)->getType(), *DT = k.I->getType();
    if (ST == DT) return a;
    bool sv = ST->isVectorTy(), dv = DT->isVectorTy();
    if (!sv && !dv) return a;
    unsigned total = DL->getTypeSizeInBits(ST);
    if (total > 128) { static State ds; unsupported(ds, "wide bitcast"); return a; }
    Expr *e;
    if (sv) {
      unsigned ew = DL->getTypeSizeInBits(cast<VectorType>(ST)->getElementType());
      e = nullptr;
      for (auto &x : a.agg()->v) { Expr *b = toE(x, ew); e = e ? mkConcat(b, e) : b; }
    } else e = toE(a, total);
    if (!dv) return VE(e);
    auto *VT = cast<FixedVectorType>(DT);
    return splitBits(this, e, VT->getNumElements(), DL->getTypeSizeInBits(VT->getElementType()));
  }
  if (a.isAgg()) {
    unsigned es = DL->getTypeSizeInBits(cast<VectorType>(k.I->getOperand(0)->getType())->getElementType());
    unsigned ed = DL->getTypeSizeInBits(cast<VectorType>(k.I->getType())->getElementType());
    Agg *r = new Agg;
    for (auto &x : a.agg()->v) r->v.push_back(castop(opc, x, es, ed, k));
    return VA(r);
  }
  switch (opc) {
    case Instruction::Trunc: if (a.conc()) return VC(a.c & mask64(dw)); return VE(mkExtract(a.e, 0, dw));
    case Instruction::ZExt: if (a.conc() && dw <= 64) return a; return VE(mkZExt(toE(a, sw), dw));
    case Instruction::SExt: if (a.conc() && dw <= 64) return VC((u64)SX(a.c, sw) & mask64(dw)); return VE(mkSExt(toE(a, sw), dw));
    case Instruction::PtrToInt: case Instruction::IntToPtr:
      if (dw == sw) return a;
      if (dw < sw) return a.conc() ? VC(a.c & mask64(dw)) : VE(mkExtract(a.e, 0, dw));
      return VE(mkZExt(toE(a, sw), dw));
    case Instruction::AddrSpaceCast: return a;
    case Instruction::FPExt: case Instruction::FPTrunc:
      if (dw > 64 || sw > 64) { static State ds; unsupported(ds, "long double"); return a; }
      return VE(mkF1(opc == Instruction::FPExt ? OFPExt : OFPTrunc, toE(a, sw), dw));
    case Instruction::SIToFP: return VE(mkF1(OSIToFP, toE(a, sw), dw));
    case Instruction::UIToFP: return VE(mkF1(OUIToFP, toE(a, sw), dw));
    case Instruction::FPToSI: return VE(mkF1(OFPToSI, toE(a, sw), dw));
    case Instruction::FPToUI: return VE(mkF1(OFPToUI, toE(a, sw), dw));
  }
  fprintf(stderr, "castop %u\n", opc);
  abort();
}
Val Executor::selectV(State &s, const Val &c, const Val &a, const Val &b, Type *T) {
  if (c.isAgg()) {
    Type *ET = cast<VectorType>(T)->getElementType();
    Agg *r = new Agg;
    for (size_t i = 0; i < c.agg()->v.size(); i++) r->v.push_back(selectV(s, c.agg()->v[i], a.agg()->v[i], b.agg()->v[i], ET));
    return VA(r);
  }
  if (c.conc()) return c.c & 1 ? a : b;
  if (a.isAgg()) {
    Agg *r = new Agg;
    for (size_t i = 0; i < a.agg()->v.size(); i++) {
      Type *ET = T->isStructTy() ? cast<StructType>(T)->getElementType(i) : T->isArrayTy() ? T->getArrayElementType() : cast<VectorType>(T)->getElementType();
      r->v.push_back(selectV(s, c, a.agg()->v[i], b.agg()->v[i], ET));
    }
    return VA(r);
  }
  unsigned w = scalarBits(T);
  return VE(mkIte(c.e, toE(a, w), toE(b, w)));
}

// ------------------------------------------------------------------ control
void Executor::jump(State &s, KBlock *b) {
  Frame &f = s.F();
  auto it = b->phis.find(f.bb);
  if (it != b->phis.end()) {
    std::vector<Val> tmp;
    tmp.reserve(it->second.size());
    for (auto &p : it->second) tmp.push_back(p.second >= 0 ? f.regs[p.second] : f.kf->consts[-p.second - 1]);
    for (size_t i = 0; i < tmp.size(); i++) f.regs[it->second[i].first] = tmp[i];
  }
  f.prev = f.bb; f.bb = b; f.pc = 0;
}
void Executor::pushCall(State &s, KFunc *kf, std::vector<Val> &args) {
  if (s.T().st.size() > 2000) { error(s, "memory", "stack overflow (recursion deeper than 2000)"); return; }
  kf->calls++;
  s.T().st.emplace_back();
  Frame &f = s.F();
  f.kf = kf;
  f.regs.resize(kf->nregs);
  f.bb = kf->blocks[0];
  f.pc = 0;
  for (size_t i = 0; i < kf->args.size() && i < args.size(); i++) {
    f.regs[kf->args[i]] = args[i];
    if (kf->F->hasParamAttribute(i, Attribute::ByVal)) {
      Type *T = kf->F->getParamByValType(i);
      u64 n = DL->getTypeAllocSize(T);
      u64 a = s.mem.alloc(n, 16, K_STACK, false);
      f.allocas.push_back(a);
      bool ok; memcpyC(s, a, args[i].c, n, ok);
      if (!ok) return;
      f.regs[kf->args[i]] = VC(a);
    }
  }
}
void Executor::popFrame(State &s) {
  for (u64 a : s.F().allocas) s.mem.erase(a);
  s.T().st.pop_back();
}
void Executor::doRet(State &s, Val v, bool has) {
  popFrame(s);
  if (s.T().st.empty()) {
    s.T().done = true;
    if (s.cur == 0) { complete(s); return; }
    schedule(s, true);
    return;
  }
  Frame &f = s.F();
  KInst &k = f.bb->insts[f.pc];
  if (has && k.dest >= 0) f.regs[k.dest] = v;
  finishCall(s, k);
}
void Executor::finishCall(State &s, KInst &k) {
  if (k.opc == Instruction::Invoke) jump(s, k.t0);
  else s.F().pc++;
}
std::string Executor::typeName(State &s, u64 ti) {
  MemObj *o = s.mem.find(ti);
  if (!o || ti + 16 > o->base + o->size) return "?";
  u64 np; memcpy(&np, &o->data[ti + 8 - o->base], 8);
  std::string n = cstr(s, np);
  if (!n.empty() && n[0] == '*') n = n.substr(1);
  return demangle("_Z" + n).find("_Z") == 0 ? demangle("_ZTS" + n) : demangle("_Z" + n);
}
bool Executor::typeMatch(State &s, u64 thrown, u64 want) {
  if (thrown == want) return true;
  MemObj *o = s.mem.find(thrown);
  if (!o || thrown + 16 > o->base + o->size) return false;
  auto rd = [&](u64 a, unsigned n) { u64 v = 0; if (a + n <= o->base + o->size) memcpy(&v, &o->data[a - o->base], n); return v; };
  if (typeName(s, thrown) == typeName(s, want)) return true;
  u64 vt = rd(thrown, 8);
  if (siVT && vt == siVT + 16) return typeMatch(s, rd(thrown + 16, 8), want);
  if (vmiVT && vt == vmiVT + 16) {
    u64 n = rd(thrown + 20, 4);
    for (u64 i = 0; i < n; i++) if (typeMatch(s, rd(thrown + 24 + 16 * i, 8), want)) return true;
  }
  return false;
}
// offset of base `want` inside `thrown`
static i64 baseOffset(Executor *E, State &s, u64 thrown, u64 want, bool &found) {
  found = true;
  if (thrown == want || E->typeName(s, thrown) == E->typeName(s, want)) return 0;
  MemObj *o = s.mem.find(thrown);
  found = false;
  if (!o) return 0;
  auto rd = [&](u64 a, unsigned n) { u64 v = 0; if (a + n <= o->base + o->size) memcpy(&v, &o->data[a - o->base], n); return v; };
  u64 vt = rd(thrown, 8);
  if (E->siVT && vt == E->siVT + 16) return baseOffset(E, s, rd(thrown + 16, 8), want, found);
  if (E->vmiVT && vt == E->vmiVT + 16) {
    u64 n = rd(thrown + 20, 4);
    for (u64 i = 0; i < n; i++) {
      i64 of = (i64)rd(thrown + 24 + 16 * i + 8, 8) >> 8;
      i64 r = baseOffset(E, s, rd(thrown + 24 + 16 * i, 8), want, found);
      if (found) return of + r;
    }
  }
  return 0;
}
i64 Executor::baseOff(State &s, u64 thrown, u64 want) { bool f; return baseOffset(this, s, thrown, want, f); }
bool Executor::raise(State &s, u64 exc) {
  u64 ti = s.exc[exc].ti;
  Thread &t = s.T();
  auto clauseSel = [&](LandingPadInst *LP, KFunc *kf, bool &matched) -> int {
    matched = false;
    for (unsigned i = 0; i < LP->getNumClauses(); i++) {
      if (LP->isCatch(i)) {
        u64 want = evalConst(LP->getClause(i)).c;
        if (want == 0 || typeMatch(s, ti, want)) { matched = true; if (!typeIds.count(want)) { int n = typeIds.size() + 1; typeIds[want] = n; } return typeIds[want]; }
      } else {  // filter: any type not listed matches
        auto *CA = LP->getClause(i);
        bool listed = false;
        for (unsigned j = 0; j < CA->getNumOperands(); j++) if (typeMatch(s, ti, evalConst(cast<Constant>(CA->getOperand(j))).c)) listed = true;
        if (!listed) { matched = true; return -1; }
      }
    }
    return 0;
  };
  // search phase
  bool handler = false;
  for (size_t i = t.st.size(); i-- > 0;) {
    Frame &f = t.st[i];
    if (f.pc >= f.bb->insts.size()) continue;
    KInst &k = f.bb->insts[f.pc];
    if (k.opc != Instruction::Invoke) continue;
    auto *LP = cast<InvokeInst>(k.I)->getLandingPadInst();
    bool m;
    clauseSel(LP, f.kf, m);
    if (m) { handler = true; break; }
  }
  if (!handler) { error(s, "uncaught", "uncaught exception of type " + typeName(s, ti)); return false; }
  while (!t.st.empty()) {
    Frame &f = t.st.back();
    KInst &k = f.bb->insts[f.pc];
    if (k.opc == Instruction::Invoke) {
      auto *LP = cast<InvokeInst>(k.I)->getLandingPadInst();
      bool m;
      int sel = clauseSel(LP, f.kf, m);
      if (m || LP->isCleanup()) {
        t.excPtr = exc; t.excSel = m ? sel : 0;
        jump(s, k.t1);
        return true;
      }
    }
    popFrame(s);
  }
  return false;
}
bool Executor::runnable(State &s, int t) {
  Thread &T = s.th[t];
  if (T.done) return false;
  if (!T.blockAddr) return true;
  MemObj *o = s.mem.find(T.blockAddr);
  if (!o || o->freed) return true;
  uint32_t v; memcpy(&v, &o->data[T.blockAddr - o->base], 4);
  return v != T.blockVal;
}
// Chooses the next thread to run; forks one state per choice. The current instruction must already be finished.
bool Executor::schedule(State &s, bool voluntary) {
  std::vector<int> can;
  for (size_t t = 0; t < s.th.size(); t++) if (runnable(s, t)) can.push_back(t);
  if (can.empty()) {
    s.cur = 0;
    error(s, "deadlock", "all threads are blocked");
    return false;
  }
  bool curCan = false;
  for (int t : can) curCan |= t == s.cur;
  if (s.oneSchedule) { if (!curCan) s.cur = can[0]; s.T().blockAddr = 0; return true; }
  if (curCan && (s.preempt >= opt.preemptBound)) { s.T().blockAddr = 0; return true; }
  if (can.size() > 1) {
    S.branchSym++;
    for (int t : can) {
      if (t == can[0]) continue;
      State *c = clone(s);
      c->inputs.push_back({"sched", 1, mkConst(t, 8)});
      if (curCan && t != s.cur) c->preempt++;
      c->cur = t;
      c->T().blockAddr = 0;
      pending.push_back(c);
      S.forks++;
    }
    s.inputs.push_back({"sched", 1, mkConst(can[0], 8)});
  }
  if (curCan && can[0] != s.cur) s.preempt++;
  s.cur = can[0];
  s.T().blockAddr = 0;
  return true;
}
unsigned Executor::argW(KInst &k, int i) { return DL->getTypeSizeInBits(cast<CallBase>(k.I)->getArgOperand(i)->getType()); }

static std::string tstr(Type *T) { std::string r; raw_string_ostream os(r); T->print(os); return r; }

static bool isMathName(const std::string &n, std::string &base, bool &flt, int &nargs) {
  static const char *one[] = {"exp", "exp2", "log", "log2", "log10", "sin", "cos", "tan", "tanh"};
  std::string b = n;
  flt = false;
  for (int t = 0; t < 2; t++) {
    for (auto *x : one) if (b == x) { base = b; nargs = 1; return true; }
    if (b == "pow" || b == "atan2") { base = b; nargs = 2; return true; }
    if (t == 0) { if (b.empty() || b.back() != 'f') return false; b.pop_back(); flt = true; }
  }
  return false;
}

void Executor::doCall(State &s, KInst &k) {
  auto *CB = cast<CallBase>(k.I);
  unsigned na = CB->arg_size();
  std::vector<Val> args(na);
  for (unsigned i = 0; i < na; i++) if (k.ops[i] != INT_MIN) args[i] = getOp(s, k, i);
  if (CB->isInlineAsm()) {
    auto *IA = cast<InlineAsm>(CB->getCalledOperand());
    if (IA->getAsmString().empty()) { if (k.dest >= 0) setReg(s, k, na ? args[0] : VC(0)); finishCall(s, k); return; }
    unsupported(s, "inline asm " + IA->getAsmString());
    return;
  }
  Function *F = k.callee;
  int intr = k.intr;
  if (!F) {
    Val fp = getOp(s, k, na);
    if (!fp.conc()) {
      u64 v; 
      std::vector<u64> seen;
      // resolve a symbolic function pointer: fork per feasible value
      Expr *ex = mkBool(true);
      for (int i = 0; i < 64; i++) {
        Expr *pr = pooledVar("probe", 64, 0);
        Model m;
        if (solver.checkAbstract(s.pc, mkAnd(ex, mkEq(fp.e, pr)), &m) != SAT) break;
        v = (u64)m.get(pr->v); seen.push_back(v);
        ex = mkAnd(ex, mkNot(mkEq(fp.e, mkConst(v, 64))));
      }
      for (size_t i = 0; i < seen.size(); i++) {
        State *c = clone(s);
        if (!assume(*c, mkEq(fp.e, mkConst(seen[i], 64)))) { delete c; continue; }
        int o = k.ops[na];
        if (o >= 0) c->F().regs[o] = VC(seen[i]);
        pending.push_back(c); S.forks++;
      }
      kill(s);
      return;
    }
    auto it = faddr.find(fp.c);
    if (it == faddr.end()) { error(s, "memory", "call of a null or invalid function pointer"); return; }
    F = it->second;
    auto h = handlers.find(F->getName().str());
    if (h != handlers.end()) intr = h->second + 1;
  }
  if (intr) { hfun[intr - 1](s, k, args); return; }
  if (F->isIntrinsic()) {
    Intrinsic::ID id = F->getIntrinsicID();
    Type *T = k.I->getType();
    unsigned w = T->isVoidTy() ? 0 : DL->getTypeSizeInBits(T);
    auto done = [&](Val v) { setReg(s, k, v); finishCall(s, k); };
    std::function<Val(Type *, std::vector<Val>)> elementwise = [&](Type *ET, std::vector<Val> a) -> Val {
      unsigned ew = DL->getTypeSizeInBits(ET);
      auto E = [&](int i) { return toE(a[i], ew); };
      switch (id) {
        case Intrinsic::umax: return VE(mkIte(mkBin(OUlt, E(0), E(1)), E(1), E(0)));
        case Intrinsic::umin: return VE(mkIte(mkBin(OUlt, E(0), E(1)), E(0), E(1)));
        case Intrinsic::smax: return VE(mkIte(mkBin(OSlt, E(0), E(1)), E(1), E(0)));
        case Intrinsic::smin: return VE(mkIte(mkBin(OSlt, E(0), E(1)), E(0), E(1)));
        case Intrinsic::abs: return VE(mkIte(mkBin(OSlt, E(0), mkConst(0, ew)), mkBin(OSub, mkConst(0, ew), E(0)), E(0)));
        case Intrinsic::uadd_sat: { Expr *r = mkBin(OAdd, E(0), E(1)); return VE(mkIte(mkBin(OUlt, r, E(0)), mkConst(~(u128)0, ew), r)); }
        case Intrinsic::usub_sat: return VE(mkIte(mkBin(OUlt, E(0), E(1)), mkConst(0, ew), mkBin(OSub, E(0), E(1))));
        case Intrinsic::fabs: return VE(mkF1(OFAbs, E(0), ew));
        case Intrinsic::sqrt: return VE(mkF1(OFSqrt, E(0), ew));
        case Intrinsic::floor: return VE(mkF1(OFRnd, E(0), ew, 0));
        case Intrinsic::ceil: return VE(mkF1(OFRnd, E(0), ew, 1));
        case Intrinsic::trunc: return VE(mkF1(OFRnd, E(0), ew, 2));
        case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return VE(mkF1(OFRnd, E(0), ew, 3));
        case Intrinsic::round: return VE(mkF1(OFRnd, E(0), ew, 4));
        case Intrinsic::fma: return VE(mkFMA(E(0), E(1), E(2)));
        case Intrinsic::fmuladd: return VE(mkFBin(OFAdd, mkFBin(OFMul, E(0), E(1)), E(2)));
        case Intrinsic::minnum: case Intrinsic::maxnum: {
          Expr *lt = id == Intrinsic::minnum ? mkFCmp(OFLt, E(0), E(1)) : mkFCmp(OFLt, E(1), E(0));
          return VE(mkIte(mkFCmp(OFUno, E(0), E(0)), E(1), mkIte(mkFCmp(OFUno, E(1), E(1)), E(0), mkIte(lt, E(0), E(1)))));
        }
        case Intrinsic::copysign: return VE(mkBin(OOr, mkBin(OAnd, E(0), mkConst(maskW(ew) >> 1, ew)), mkBin(OAnd, E(1), mkConst((u128)1 << (ew - 1), ew))));
        case Intrinsic::exp: return VE(mkFunc("exp", E(0), nullptr, ew));
        case Intrinsic::exp2: return VE(mkFunc("exp2", E(0), nullptr, ew));
        case Intrinsic::log: return VE(mkFunc("log", E(0), nullptr, ew));
        case Intrinsic::log2: return VE(mkFunc("log2", E(0), nullptr, ew));
        case Intrinsic::log10: return VE(mkFunc("log10", E(0), nullptr, ew));
        case Intrinsic::sin: return VE(mkFunc("sin", E(0), nullptr, ew));
        case Intrinsic::cos: return VE(mkFunc("cos", E(0), nullptr, ew));
        case Intrinsic::pow: return VE(mkFunc("pow", E(0), E(1), ew));
        case Intrinsic::bswap: { Expr *x = E(0), *r = nullptr; for (unsigned i = 0; i < ew / 8; i++) { Expr *b = mkExtract(x, i * 8, 8); r = r ? mkConcat(r, b) : b; } return VE(r); }
        case Intrinsic::ctpop: { Expr *x = E(0), *r = mkConst(0, ew); for (unsigned i = 0; i < ew; i++) r = mkBin(OAdd, r, mkZExt(mkExtract(x, i, 1), ew)); return VE(r); }
        case Intrinsic::ctlz: { Expr *x = E(0), *r = mkConst(ew, ew); for (unsigned i = 0; i < ew; i++) r = mkIte(mkExtract(x, i, 1), mkConst(ew - 1 - i, ew), r); return VE(r); }
        case Intrinsic::cttz: { Expr *x = E(0), *r = mkConst(ew, ew); for (unsigned i = ew; i-- > 0;) r = mkIte(mkExtract(x, i, 1), mkConst(i, ew), r); return VE(r); }
        case Intrinsic::bitreverse: { Expr *x = E(0), *r = nullptr; for (unsigned i = 0; i < ew; i++) { Expr *b = mkExtract(x, i, 1); r = r ? mkConcat(r, b) : b; } return VE(r); }
        case Intrinsic::fshl: case Intrinsic::fshr: {
          Expr *sh = mkBin(OURem, E(2), mkConst(ew, ew));
          Expr *inv = mkBin(OSub, mkConst(ew, ew), sh);
          Expr *z = mkEq(sh, mkConst(0, ew));
          if (id == Intrinsic::fshl) return VE(mkIte(z, E(0), mkBin(OOr, mkBin(OShl, E(0), sh), mkBin(OLShr, E(1), inv))));
          return VE(mkIte(z, E(1), mkBin(OOr, mkBin(OShl, E(0), inv), mkBin(OLShr, E(1), sh))));
        }
        default: return Val();
      }
    };
    switch (id) {
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
        u64 n, d, sr;
        if (!concretize(s, args[2], argW(k, 2), n, true)) return;
        if (!n) { finishCall(s, k); return; }
        if (!concretize(s, args[0], 64, d, true)) return;
        if (!concretize(s, args[1], 64, sr, true)) return;
        bool ok; memcpyC(s, d, sr, n, ok);
        if (ok) finishCall(s, k);
        return;
      }
      case Intrinsic::memset: case Intrinsic::memset_inline: {
        u64 n, d;
        if (!concretize(s, args[2], argW(k, 2), n, true)) return;
        if (!n) { finishCall(s, k); return; }
        if (!concretize(s, args[0], 64, d, true)) return;
        bool ok; checkAccess(s, d, n, true, ok);
        if (!ok) return;
        MemObj *o = s.mem.writable(d);
        for (u64 i = 0; i < n; i++) storeBits(s, o, d + i, 1, args[1], 8);
        finishCall(s, k);
        return;
      }
      case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::abs: case Intrinsic::uadd_sat: case Intrinsic::usub_sat:
      case Intrinsic::fabs: case Intrinsic::sqrt: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::nearbyint:
      case Intrinsic::roundeven: case Intrinsic::round: case Intrinsic::fma: case Intrinsic::fmuladd: case Intrinsic::minnum: case Intrinsic::maxnum: case Intrinsic::copysign:
      case Intrinsic::exp: case Intrinsic::exp2: case Intrinsic::log: case Intrinsic::log2: case Intrinsic::log10: case Intrinsic::sin: case Intrinsic::cos: case Intrinsic::pow:
      case Intrinsic::bswap: case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::bitreverse: case Intrinsic::fshl: case Intrinsic::fshr: {
        if (args[0].isAgg()) {
          Type *ET = cast<VectorType>(T)->getElementType();
          Agg *r = new Agg;
          for (size_t i = 0; i < args[0].agg()->v.size(); i++) {
            std::vector<Val> a;
            for (auto &x : args) a.push_back(x.isAgg() ? x.agg()->v[i] : x);
            r->v.push_back(elementwise(ET, a));
          }
          done(VA(r));
        } else done(elementwise(T, args));
        return;
      }
      case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
      case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
        unsigned ew = DL->getTypeSizeInBits(T->getStructElementType(0));
        Expr *a = toE(args[0], ew), *b = toE(args[1], ew), *r, *o;
        bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
        bool mul = id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow;
        unsigned xw = mul ? std::min(128u, ew * 2) : ew + 1;
        Expr *xa = sg ? mkSExt(a, xw) : mkZExt(a, xw), *xb = sg ? mkSExt(b, xw) : mkZExt(b, xw);
        Op op = mul ? OMul : (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? OAdd : OSub;
        if (id == Intrinsic::umul_with_overflow && b->isConst() && b->cval()) {
          r = mkBin(OMul, a, b);
          o = mkBin(OUlt, mkConst(maskW(ew) / b->cval(), ew), a);
        } else if (id == Intrinsic::usub_with_overflow) { r = mkBin(OSub, a, b); o = mkBin(OUlt, a, b); }
        else if (id == Intrinsic::uadd_with_overflow) { r = mkBin(OAdd, a, b); o = mkBin(OUlt, r, a); }
        else {
          Expr *xr = mkBin(op, xa, xb);
          r = mkExtract(xr, 0, ew);
          o = mkNot(mkEq(sg ? mkSExt(r, xw) : mkZExt(r, xw), xr));
        }
        Agg *g = new Agg; g->v = {VE(r), VE(o)};
        done(VA(g));
        return;
      }
      case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::threadlocal_address:
      case Intrinsic::expect_with_probability: case Intrinsic::ptr_annotation: case Intrinsic::annotation: done(args[0]); return;
      case Intrinsic::objectsize: done(VC(cast<ConstantInt>(CB->getArgOperand(1))->isOne() ? 0 : mask64(w))); return;
      case Intrinsic::is_constant: done(VC(args[0].conc())); return;
      case Intrinsic::eh_typeid_for: { u64 t = args[0].c; if (!typeIds.count(t)) { int n = typeIds.size() + 1; typeIds[t] = n; } done(VC(typeIds[t])); return; }
      case Intrinsic::stacksave: done(VC(0)); return;
      case Intrinsic::stackrestore: finishCall(s, k); return;
      case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: error(s, "trap", "trap instruction"); return;
      case Intrinsic::ptrmask: done(VE(mkBin(OAnd, toE(args[0], 64), toE(args[1], 64)))); return;
      case Intrinsic::vastart: { 
        // one register-save area that is already exhausted; overflow area holds all variadic arguments
        Frame &f = s.F();
        u64 area = s.mem.alloc(8 * (f.varargs.size() + 1), 16, K_STACK, true);
        f.allocas.push_back(area);
        for (size_t i = 0; i < f.varargs.size(); i++) storeBits(s, s.mem.writable(area), area + 8 * i, 8, f.varargs[i], 64);
        u64 va = args[0].c; bool ok; checkAccess(s, va, 24, true, ok); if (!ok) return;
        MemObj *o = s.mem.writable(va);
        storeBits(s, o, va, 4, VC(48), 32); storeBits(s, o, va + 4, 4, VC(304), 32); storeBits(s, o, va + 8, 8, VC(area), 64); storeBits(s, o, va + 16, 8, VC(0), 64);
        finishCall(s, k); return; }
      case Intrinsic::vaend: finishCall(s, k); return;
      case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_mul:
      case Intrinsic::vector_reduce_umax: case Intrinsic::vector_reduce_umin: case Intrinsic::vector_reduce_smax: case Intrinsic::vector_reduce_smin: {
        Expr *r = nullptr;
        for (auto &x : args[0].agg()->v) {
          Expr *e = toE(x, w);
          if (!r) { r = e; continue; }
          switch (id) {
            case Intrinsic::vector_reduce_add: r = mkBin(OAdd, r, e); break;
            case Intrinsic::vector_reduce_or: r = mkBin(OOr, r, e); break;
            case Intrinsic::vector_reduce_and: r = mkBin(OAnd, r, e); break;
            case Intrinsic::vector_reduce_xor: r = mkBin(OXor, r, e); break;
            case Intrinsic::vector_reduce_mul: r = mkBin(OMul, r, e); break;
            case Intrinsic::vector_reduce_umax: r = mkIte(mkBin(OUlt, r, e), e, r); break;
            case Intrinsic::vector_reduce_umin: r = mkIte(mkBin(OUlt, r, e), r, e); break;
            case Intrinsic::vector_reduce_smax: r = mkIte(mkBin(OSlt, r, e), e, r); break;
            default: r = mkIte(mkBin(OSlt, r, e), r, e); break;
          }
        }
        done(VE(r));
        return;
      }
      default: unsupported(s, "intrinsic " + F->getName().str()); return;
    }
  }
  if (F->isDeclaration()) {
    std::string n = F->getName().str(), b; bool flt; int nargs;
    if (isMathName(n, b, flt, nargs)) {
      unsigned w = flt ? 32 : 64;
      ret(s, k, VE(mkFunc(b, toE(args[0], w), nargs > 1 ? toE(args[1], w) : nullptr, w)));
      return;
    }
    static const struct { const char *name; unsigned w; int mode; bool toInt; } rounding[] = {
        {"sqrt", 64, -1, false}, {"sqrtf", 32, -1, false}, {"floor", 64, 0, false}, {"floorf", 32, 0, false}, {"ceil", 64, 1, false}, {"ceilf", 32, 1, false},
        {"trunc", 64, 2, false}, {"truncf", 32, 2, false}, {"round", 64, 4, false}, {"roundf", 32, 4, false}, {"lround", 64, 4, true}, {"lroundf", 32, 4, true}, {"llround", 64, 4, true}, {"llroundf", 32, 4, true}};
    for (auto &r : rounding)
      if (n == r.name) {
        Expr *x = toE(args[0], r.w);
        x = r.mode < 0 ? mkF1(OFSqrt, x, r.w) : mkF1(OFRnd, x, r.w, r.mode);
        ret(s, k, VE(r.toInt ? mkF1(OFPToSI, x, 64) : x));
        return;
      }
    unsupported(s, "external function " + demangle(n));
    return;
  }
  KFunc *kf = getK(F);
  size_t nfix = F->arg_size();
  pushCall(s, kf, args);
  if (dead) return;
  if (F->isVarArg()) for (size_t i = nfix; i < args.size(); i++) s.F().varargs.push_back(args[i]);
}

// Makes v concrete; forks one state per feasible value (all of them when forkAll).
bool Executor::concretize(State &s, Val &v, unsigned w, u64 &out, bool forkAll) {
  if (v.conc()) { out = v.c; return true; }
  std::vector<u64> vals;
  Expr *ex = mkBool(true);
  while (true) {
    Expr *pr = pooledVar("probe", w, 0);
    Model m = s.model;
    Res r;
    u64 val;
    if (vals.empty() && s.modelValid) { Evaluator ev(&s.model); val = (u64)ev.eval(v.e); }
    else {
      r = solver.checkAbstract(s.pc, mkAnd(ex, mkEq(v.e, pr)), &m);
      if (r != SAT) { if (r == UNKNOWN) { unsupported(s, "solver timeout while concretising"); return false; } break; }
      val = (u64)m.get(pr->v);
    }
    vals.push_back(val);
    ex = mkAnd(ex, mkNot(mkEq(v.e, mkConst(val, w))));
    if (vals.size() > opt.maxForkVals) { unsupported(s, "too many feasible values for a size or address"); return false; }
  }
  if (vals.empty()) { S.infeasible++; kill(s); return false; }
  if (vals.size() == 1) { addC(s, mkEq(v.e, mkConst(vals[0], w))); out = vals[0]; return true; }
  // other values: re-execute the instruction under the constraint
  for (size_t i = 1; i < vals.size(); i++) {
    State *c = clone(s);
    if (!assume(*c, mkEq(v.e, mkConst(vals[i], w)))) { delete c; continue; }
    pending.push_back(c);
    S.forks++;
  }
  if (!assume(s, mkEq(v.e, mkConst(vals[0], w)))) { kill(s); return false; }
  out = vals[0];
  v = VC(out);
  return true;
}

bool Executor::step(State &s) {
  Frame &f = s.F();
  KInst &k = f.bb->insts[f.pc];
  S.insts++;
  if (++s.steps > opt.maxSteps) { unsupported(s, "step limit on one path"); return false; }
  switch (k.opc) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
    case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
      Val r = binop(s, k.opc, getOp(s, k, 0), getOp(s, k, 1), k.w, k);
      if (dead) return false;
      f.regs[k.dest] = r; f.pc++;
      return true;
    }
    case Instruction::FNeg: {
      Val a = getOp(s, k, 0);
      if (a.isAgg()) { unsigned ew = DL->getTypeSizeInBits(cast<VectorType>(k.I->getType())->getElementType()); Agg *r = new Agg; for (auto &x : a.agg()->v) r->v.push_back(VE(mkFNeg(toE(x, ew)))); f.regs[k.dest] = VA(r); }
      else f.regs[k.dest] = VE(mkFNeg(toE(a, k.w)));
      f.pc++;
      return true;
    }
    case Instruction::ICmp: {
      Type *T = k.I->getOperand(0)->getType();
      unsigned w = DL->getTypeSizeInBits(T->getScalarType());
      f.regs[k.dest] = icmp(cast<CmpInst>(k.I)->getPredicate(), getOp(s, k, 0), getOp(s, k, 1), w);
      f.pc++;
      return true;
    }
    case Instruction::FCmp: {
      unsigned w = DL->getTypeSizeInBits(k.I->getOperand(0)->getType()->getScalarType());
      if (w > 64) { unsupported(s, "long double"); return false; }
      f.regs[k.dest] = fcmp(cast<CmpInst>(k.I)->getPredicate(), getOp(s, k, 0), getOp(s, k, 1), w);
      f.pc++;
      return true;
    }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast:
    case Instruction::AddrSpaceCast: case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: {
      Val a = getOp(s, k, 0);
      unsigned dw = k.w;
      if (k.opc == Instruction::BitCast && !k.I->getType()->isVectorTy() && !k.I->getOperand(0)->getType()->isVectorTy()) f.regs[k.dest] = a;
      else {
        Type *ST = k.I->getOperand(0)->getType(), *DT = k.I->getType();
        if (ST->getScalarType()->isX86_FP80Ty() || DT->getScalarType()->isX86_FP80Ty()) { unsupported(s, "long double"); return false; }
        f.regs[k.dest] = castop(k.opc, a, DL->getTypeSizeInBits(ST), dw, k);
      }
      f.pc++;
      return true;
    }
    case Instruction::Freeze: f.regs[k.dest] = getOp(s, k, 0); f.pc++; return true;
    case Instruction::Select:
      if (opt.forkSelect && k.I->getType()->isFloatingPointTy()) {  // decide the condition instead of keeping both values
        Val c = getOp(s, k, 0);
        if (!c.conc() && c.e) {
          Val a = getOp(s, k, 1), b = getOp(s, k, 2);
          State *other;
          int r = fork(s, c.e, other);
          if (r == 2) { other->F().regs[k.dest] = b; other->F().pc++; pending.push_back(other); }
          s.F().regs[k.dest] = r ? a : b;
          s.F().pc++;
          return true;
        }
      }
      f.regs[k.dest] = selectV(s, getOp(s, k, 0), getOp(s, k, 1), getOp(s, k, 2), k.I->getType()); f.pc++; return true;
    case Instruction::GetElementPtr: {
      Val b = getOp(s, k, 0);
      if (b.isAgg()) { unsupported(s, "vector gep"); return false; }
      if (b.conc()) {
        u64 a = b.c + k.gepOff;
        bool sym = false;
        for (auto &g : k.gepIdx) {
          int o = std::get<0>(g);
          const Val &iv = o >= 0 ? f.regs[o] : f.kf->consts[-o - 1];
          if (!iv.conc()) { sym = true; break; }
          a += (u64)SX(iv.c, std::get<2>(g)) * std::get<1>(g);
        }
        if (!sym) { f.regs[k.dest] = VC(a); f.pc++; return true; }
      }
      Expr *e = mkBin(OAdd, toE(b, 64), mkConst(k.gepOff, 64));
      for (auto &g : k.gepIdx) {
        int o = std::get<0>(g);
        const Val &iv = o >= 0 ? f.regs[o] : f.kf->consts[-o - 1];
        unsigned iw = std::get<2>(g);
        Expr *ie = toE(iv, iw);
        if (iw < 64) ie = mkSExt(ie, 64); else if (iw > 64) ie = mkExtract(ie, 0, 64);
        e = mkBin(OAdd, e, mkBin(OMul, ie, mkConst(std::get<1>(g), 64)));
      }
      f.regs[k.dest] = VE(e);
      f.pc++;
      return true;
    }
    case Instruction::Load: {
      bool ok;
      const bool atomic = cast<LoadInst>(k.I)->isAtomic();
      Val ptr = getOp(s, k, 0);
      if (atomic && ptr.conc()) acquire(s, ptr.c);
      inAtomic = atomic;
      Val v = load(s, ptr, k.I->getType(), ok);
      inAtomic = false;
      if (!ok || dead) return false;
      s.F().regs[k.dest] = v; s.F().pc++;
      return true;
    }
    case Instruction::Store: {
      bool ok;
      const bool atomic = cast<StoreInst>(k.I)->isAtomic();
      Val ptr = getOp(s, k, 1);
      inAtomic = atomic;
      store(s, ptr, k.I->getOperand(0)->getType(), getOp(s, k, 0), ok);
      inAtomic = false;
      if (atomic && ok && !dead && ptr.conc()) release(s, ptr.c);
      if (!ok || dead) return false;
      s.F().pc++;
      return true;
    }
    case Instruction::Alloca: {
      auto *AI = cast<AllocaInst>(k.I);
      u64 n = 1;
      Val nv = getOp(s, k, 0);
      if (!concretize(s, nv, DL->getTypeSizeInBits(AI->getArraySize()->getType()), n, true)) return false;
      u64 a = s.mem.alloc(DL->getTypeAllocSize(AI->getAllocatedType()) * n, std::max<u64>(16, AI->getAlign().value()), K_STACK, false);
      s.F().allocas.push_back(a);
      s.F().regs[k.dest] = VC(a); s.F().pc++;
      return true;
    }
    case Instruction::Br: {
      if (k.ops.empty()) { jump(s, k.t0); return true; }
      Val c = getOp(s, k, 0);
      if (c.conc()) { jump(s, c.c & 1 ? k.t0 : k.t1); return true; }
      State *other;
      int r = fork(s, c.e, other);
      if (r == 2) { jump(*other, k.t1); pending.push_back(other); jump(s, k.t0); return true; }
      jump(s, r ? k.t0 : k.t1);
      return true;
    }
    case Instruction::Switch: {
      Val c = getOp(s, k, 0);
      if (c.conc()) {
        for (auto &g : k.gepIdx) if (std::get<1>(g) == c.c) { jump(s, f.kf->blocks[std::get<0>(g)]); return true; }
        jump(s, k.t0);
        return true;
      }
      // group by target block
      std::map<int, Expr *> conds;
      Expr *none = mkBool(true);
      for (auto &g : k.gepIdx) {
        Expr *e = mkEq(c.e, mkConst(std::get<1>(g), k.w));
        none = mkAnd(none, mkNot(e));
        auto it = conds.find(std::get<0>(g));
        if (it == conds.end()) conds[std::get<0>(g)] = e; else it->second = mkOr(it->second, e);
      }
      KFunc *kf = f.kf;
      for (auto &p : conds) {
        State *other;
        int r = fork(s, p.second, other);
        if (r == 1) { jump(s, kf->blocks[p.first]); return true; }
        if (r == 2) { jump(s, kf->blocks[p.first]); pending.push_back(new State(s)); pending.back()->id = nextState++; 
          // continue in `other` for the remaining cases
          std::swap(s, *other); delete other; }
      }
      if (!assume(s, none)) { kill(s); return false; }
      jump(s, k.t0);
      return true;
    }
    case Instruction::Ret:
      if (k.ops.empty()) doRet(s, Val(), false); else { Val v = getOp(s, k, 0); doRet(s, v, true); }
      return !dead;
    case Instruction::Call: case Instruction::Invoke: doCall(s, k); return !dead;
    case Instruction::LandingPad: {
      Agg *g = new Agg; g->v = {VC(s.T().excPtr), VC((uint32_t)s.T().excSel)};
      f.regs[k.dest] = VA(g); f.pc++;
      return true;
    }
    case Instruction::Resume: {
      Val v = getOp(s, k, 0);
      u64 exc = v.agg()->v[0].c;
      raise(s, exc);
      return !dead;
    }
    case Instruction::Unreachable: error(s, "unreachable", "unreachable code executed"); return false;
    case Instruction::ExtractValue: {
      Val v = getOp(s, k, 0);
      for (unsigned i : cast<ExtractValueInst>(k.I)->indices()) v = v.agg()->v[i];
      f.regs[k.dest] = v; f.pc++;
      return true;
    }
    case Instruction::InsertValue: {
      Val v = getOp(s, k, 0), x = getOp(s, k, 1);
      auto idx = cast<InsertValueInst>(k.I)->getIndices();
      std::function<Val(Val, unsigned)> ins = [&](Val a, unsigned d) -> Val {
        if (d == idx.size()) return x;
        Agg *g = new Agg(*a.agg());
        g->v[idx[d]] = ins(g->v[idx[d]], d + 1);
        return VA(g);
      };
      f.regs[k.dest] = ins(v, 0); f.pc++;
      return true;
    }
    case Instruction::ExtractElement: {
      Val v = getOp(s, k, 0), i = getOp(s, k, 1);
      u64 ix; if (!concretize(s, i, DL->getTypeSizeInBits(k.I->getOperand(1)->getType()), ix, true)) return false;
      s.F().regs[k.dest] = v.agg()->v[ix]; s.F().pc++;
      return true;
    }
    case Instruction::InsertElement: {
      Val v = getOp(s, k, 0), x = getOp(s, k, 1), i = getOp(s, k, 2);
      u64 ix; if (!concretize(s, i, DL->getTypeSizeInBits(k.I->getOperand(2)->getType()), ix, true)) return false;
      Agg *g = new Agg(*v.agg()); g->v[ix] = x;
      s.F().regs[k.dest] = VA(g); s.F().pc++;
      return true;
    }
    case Instruction::ShuffleVector: {
      Val a = getOp(s, k, 0), b = getOp(s, k, 1);
      auto *SV = cast<ShuffleVectorInst>(k.I);
      unsigned n = a.agg()->v.size();
      Agg *g = new Agg;
      for (int m : SV->getShuffleMask()) g->v.push_back(m < 0 ? a.agg()->v[0] : (unsigned)m < n ? a.agg()->v[m] : b.agg()->v[m - n]);
      f.regs[k.dest] = VA(g); f.pc++;
      return true;
    }
    case Instruction::Fence: f.pc++; return true;
    case Instruction::AtomicRMW: {
      auto *R = cast<AtomicRMWInst>(k.I);
      Type *T = R->getType();
      unsigned w = scalarBits(T);
      bool ok;
      Val p = getOp(s, k, 0), v = getOp(s, k, 1);
      if (p.conc()) acquire(s, p.c);
      inAtomic = true;
      Val old = load(s, p, T, ok);
      inAtomic = false;
      if (!ok || dead) return false;
      Val nv;
      switch (R->getOperation()) {
        case AtomicRMWInst::Xchg: nv = v; break;
        case AtomicRMWInst::Add: nv = binop(s, Instruction::Add, old, v, w, k); break;
        case AtomicRMWInst::Sub: nv = binop(s, Instruction::Sub, old, v, w, k); break;
        case AtomicRMWInst::And: nv = binop(s, Instruction::And, old, v, w, k); break;
        case AtomicRMWInst::Or: nv = binop(s, Instruction::Or, old, v, w, k); break;
        case AtomicRMWInst::Xor: nv = binop(s, Instruction::Xor, old, v, w, k); break;
        default: unsupported(s, "atomicrmw"); return false;
      }
      inAtomic = true;
      store(s, p, T, nv, ok);
      inAtomic = false;
      if (!ok || dead) return false;
      if (p.conc()) release(s, p.c);
      s.F().regs[k.dest] = old; s.F().pc++;
      return true;
    }
    case Instruction::AtomicCmpXchg: {
      auto *C = cast<AtomicCmpXchgInst>(k.I);
      Type *T = C->getCompareOperand()->getType();
      unsigned w = scalarBits(T);
      bool ok;
      Val p = getOp(s, k, 0), cmp = getOp(s, k, 1), nw = getOp(s, k, 2);
      if (p.conc()) acquire(s, p.c);
      inAtomic = true;
      Val old = load(s, p, T, ok);
      inAtomic = false;
      if (!ok || dead) return false;
      Expr *eq = mkEq(toE(old, w), toE(cmp, w));
      inAtomic = true;
      store(s, p, T, VE(mkIte(eq, toE(nw, w), toE(old, w))), ok);
      inAtomic = false;
      if (ok && !dead && p.conc()) release(s, p.c);
      if (!ok || dead) return false;
      Agg *g = new Agg; g->v = {old, VE(eq)};
      s.F().regs[k.dest] = VA(g); s.F().pc++;
      return true;
    }
    default: unsupported(s, std::string("instruction ") + k.I->getOpcodeName()); return false;
  }
}

// ------------------------------------------------------------------ driver
struct Shared { std::atomic<int> freeSlots; };
static Shared *shared = nullptr;
static int childSeq = 0;
static double lastFork = 0;
static std::vector<pid_t> kids;

void Executor::maybeSplit() {
  if (!shared || pending.size() < 2 || nowS() - lastFork < 0.3) return;
  int v = shared->freeSlots.load();
  if (v <= 0) return;
  if (!shared->freeSlots.compare_exchange_strong(v, v - 1)) return;
  lastFork = nowS();
  fflush(stdout); fflush(stderr);
  childSeq++;
  pid_t p = ::fork();
  if (p < 0) { shared->freeSlots++; return; }
  std::vector<State *> mine;
  for (size_t i = 0; i < pending.size(); i++) {
    bool child = i % 2 == 0;
    if ((p == 0) == child) mine.push_back(pending[i]); else delete pending[i];
  }
  pending = mine;
  if (p == 0) {
    workerTag += "_" + std::to_string(childSeq);
    childSeq = 0;
    kids.clear();
    S = Stats(); solver.st = SolverStats(); violations.clear(); unsupportedMsgs.clear(); traceFiles.clear(); traceSeen = 0;
    for (auto &kv : kfuncs) kv.second->calls = 0;
    opt.traces = std::max(1, opt.traces / 4);
    solver.seed(opt.seed + std::hash<std::string>()(workerTag));
  } else kids.push_back(p);
}
void Executor::run() {
  t0 = nowS();
  lastFork = t0;
  if (opt.jobs > 1) {
    shared = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    shared->freeSlots = opt.jobs - 1;
  }
  pending.push_back(base);
  while (!pending.empty()) {
    State *s = pending.back();
    pending.pop_back();
    dead = false;
    u64 cnt = 0;
    while (!dead) {
      if (!step(*s)) break;
      if ((++cnt & 0x3fff) == 0) {
        if (nowS() - t0 > opt.maxTime) { timedOut = true; break; }
        if (shared) maybeSplit();
      }
    }
    delete s;
    if (timedOut || nowS() - t0 > opt.maxTime) { timedOut = timedOut || !pending.empty(); break; }
    if (shared) maybeSplit();
  }
  S.unexplored = pending.size() + (timedOut ? 1 : 0);
  for (State *s : pending) delete s;
  writeOut();
  if (shared) shared->freeSlots++;
  bool bad = false;
  for (pid_t p : kids) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = true; }
  if (bad) _exit(3);
}
static std::string js(const std::string &x) {
  std::string r = "\"";
  for (char c : x) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; }
  return r + "\"";
}
void Executor::writeOut() {
  std::string fn = workerTag == "0" ? opt.out : opt.out + "." + workerTag;
  FILE *f = fopen((fn + ".tmp").c_str(), "w");
  auto &z = solver.st;
  fprintf(f, "{\"worker\":%s,\"paths\":%llu,\"errors\":%llu,\"infeasible\":%llu,\"forks\":%llu,\"instructions\":%llu,\"symbolic_branches\":%llu,\"asserts\":%llu,\"assert_structural\":%llu,\"assert_abstract\":%llu,\"assert_precise\":%llu,"
    "\"undecided\":%llu,\"unvalidated\":%llu,\"unsupported\":%llu,\"unexplored\":%llu,\"uninit_paths\":%llu,\"unknown_feasibility\":%llu,\"timed_out\":%s,",
    js(workerTag).c_str(), (unsigned long long)S.paths, (unsigned long long)S.errors, (unsigned long long)S.infeasible, (unsigned long long)S.forks, (unsigned long long)S.insts, (unsigned long long)S.branchSym, (unsigned long long)S.asserts, (unsigned long long)S.assertStructural,
    (unsigned long long)S.assertAbstract, (unsigned long long)S.assertPrecise, (unsigned long long)S.undecided, (unsigned long long)S.unvalidated, (unsigned long long)S.unsupported, (unsigned long long)S.unexplored,
    (unsigned long long)S.uninit, (unsigned long long)S.unkFeas, timedOut ? "true" : "false");
  fprintf(f, "\"solver\":{\"queries\":%llu,\"z3_calls\":%llu,\"cache_hits\":%llu,\"model_hits\":%llu,\"precise_calls\":%llu,\"precise_unknown\":%llu,\"search_hits\":%llu,\"z3_time\":%.3f,\"precise_time\":%.3f,\"search_time\":%.3f},\"wall\":%.3f,\"exprs\":%zu,",
    (unsigned long long)z.queries, (unsigned long long)z.z3calls, (unsigned long long)z.cacheHits, (unsigned long long)z.modelHits, (unsigned long long)z.preciseCalls, (unsigned long long)z.preciseUnknown, (unsigned long long)z.searchHits, z.z3time, z.precisetime, z.searchtime, nowS() - t0, gExprs.size());
  fprintf(f, "\"violations\":[");
  for (size_t i = 0; i < violations.size(); i++) { auto &v = violations[i]; fprintf(f, "%s{\"kind\":%s,\"msg\":%s,\"file\":%s,\"where\":%s}", i ? "," : "", js(v.kind).c_str(), js(v.msg).c_str(), js(v.file).c_str(), js(v.where).c_str()); }
  fprintf(f, "],\"unsupported_msgs\":[");
  bool c = false;
  for (auto &u : unsupportedMsgs) { fprintf(f, "%s%s", c ? "," : "", js(u.first + " x" + std::to_string(u.second)).c_str()); c = true; }
  fprintf(f, "],\"reached\":["); c = false;
  for (auto &r : reached) { fprintf(f, "%s%s", c ? "," : "", js(r).c_str()); c = true; }
  fprintf(f, "],\"expected\":["); c = false;
  for (auto &r : expected) { fprintf(f, "%s%s", c ? "," : "", js(r).c_str()); c = true; }
  fprintf(f, "],\"traces\":["); c = false;
  for (auto &r : traceFiles) { fprintf(f, "%s%s", c ? "," : "", js(r).c_str()); c = true; }
  fprintf(f, "],\"functions\":["); c = false;
  for (auto &kv : kfuncs) if (kv.second->calls) { std::string n = demangle(kv.first->getName().str()); if (n.find("knp::") == std::string::npos) continue; fprintf(f, "%s[%s,%llu]", c ? "," : "", js(n.substr(0, 300)).c_str(), (unsigned long long)kv.second->calls); c = true; }
  fprintf(f, "]}\n");
  fclose(f);
  rename((fn + ".tmp").c_str(), fn.c_str());
}

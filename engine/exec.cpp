#include <unordered_set>
#include "exec.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/Demangle/Demangle.h>
#include <chrono>
#include <cmath>
#include <cstring>
using namespace llvm;

double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ compile
KFunc *Executor::getK(Function *F) {
  auto it = kfuncs.find(F);
  if (it != kfuncs.end()) return it->second;
  KFunc *kf = new KFunc;
  kf->F = F;
  kfuncs[F] = kf;
  DenseMap<const Value *, int> slot;
  int n = 0;
  for (Argument &A : F->args()) { slot[&A] = n; kf->args.push_back(n++); }
  for (BasicBlock &B : *F) for (Instruction &I : B) if (!I.getType()->isVoidTy()) slot[&I] = n++;
  kf->nregs = n;
  DenseMap<const BasicBlock *, KBlock *> bm;
  int bi = 0;
  for (BasicBlock &B : *F) { KBlock *kb = new KBlock; kb->bb = &B; kb->idx = bi++; bm[&B] = kb; kf->blocks.push_back(kb); }
  DenseMap<const Constant *, int> cm;
  auto opOf = [&](Value *v) -> int {
    if (auto *C = dyn_cast<Constant>(v)) {
      auto f = cm.find(C);
      if (f != cm.end()) return f->second;
      kf->consts.push_back(evalConst(C));
      int id = -(int)kf->consts.size();
      cm[C] = id;
      return id;
    }
    auto f = slot.find(v);
    if (f == slot.end()) return INT_MIN;  // metadata, blocks, inline asm
    return f->second;
  };
  for (BasicBlock &B : *F) {
    KBlock *kb = bm[&B];
    for (Instruction &I : B) {
      if (auto *P = dyn_cast<PHINode>(&I)) {
        for (unsigned i = 0; i < P->getNumIncomingValues(); i++)
          kb->phis[bm[P->getIncomingBlock(i)]].push_back({slot[P], opOf(P->getIncomingValue(i))});
        continue;
      }
      if (isa<DbgInfoIntrinsic>(I)) continue;
      if (auto *II = dyn_cast<IntrinsicInst>(&I)) {
        switch (II->getIntrinsicID()) {
          case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl:
          case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::sideeffect: case Intrinsic::prefetch:
          case Intrinsic::pseudoprobe: case Intrinsic::var_annotation: continue;
          default: break;
        }
      }
      KInst k;
      k.I = &I; k.opc = I.getOpcode();
      if (!I.getType()->isVoidTy()) k.dest = slot[&I];
      Type *T = I.getType();
      if (T->isIntegerTy() || T->isFloatingPointTy() || T->isPointerTy()) k.w = DL->getTypeSizeInBits(T);
      if (auto *CB = dyn_cast<CallBase>(&I)) {
        for (Value *a : CB->args()) k.ops.push_back(opOf(a));
        Value *cv = CB->getCalledOperand()->stripPointerCasts();
        k.callee = dyn_cast<Function>(cv);
        if (auto *GA = dyn_cast<GlobalAlias>(cv)) k.callee = dyn_cast<Function>(GA->getAliaseeObject());
        if (!k.callee && !isa<InlineAsm>(cv)) k.ops.push_back(opOf(CB->getCalledOperand()));
        if (k.callee) { auto h = handlers.find(k.callee->getName().str()); if (h != handlers.end()) k.intr = h->second + 1; }
        if (auto *IV = dyn_cast<InvokeInst>(&I)) { k.t0 = bm[IV->getNormalDest()]; k.t1 = bm[IV->getUnwindDest()]; }
      } else {
        for (Value *a : I.operands()) k.ops.push_back(isa<BasicBlock>(a) ? INT_MIN : opOf(a));
        if (auto *BI = dyn_cast<BranchInst>(&I)) {
          k.ops.clear();
          if (BI->isConditional()) k.ops.push_back(opOf(BI->getCondition()));
          k.t0 = bm[BI->getSuccessor(0)];
          if (BI->isConditional()) k.t1 = bm[BI->getSuccessor(1)];
        } else if (auto *SI = dyn_cast<SwitchInst>(&I)) {
          k.ops.clear(); k.ops.push_back(opOf(SI->getCondition()));
          k.w = SI->getCondition()->getType()->getIntegerBitWidth();
        } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
          k.ops.clear(); k.ops.push_back(opOf(G->getPointerOperand()));
          for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
            Value *idx = gi.getOperand();
            if (StructType *ST = gi.getStructTypeOrNull()) {
              k.gepOff += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
            } else {
              u64 sc = DL->getTypeAllocSize(gi.getIndexedType());
              if (auto *CI = dyn_cast<ConstantInt>(idx)) k.gepOff += (u64)CI->getSExtValue() * sc;
              else k.gepIdx.push_back({opOf(idx), sc, (unsigned)DL->getTypeSizeInBits(idx->getType())});
            }
          }
        }
      }
      kb->insts.push_back(std::move(k));
    }
  }
  // successors of switches are looked up by block; remember them in a side map
  for (KBlock *kb : kf->blocks) for (KInst &k : kb->insts) if (auto *SI = dyn_cast<SwitchInst>(k.I)) {
    // encode: t0 = default; ops: cond, then successor indices
    k.t0 = bm[SI->getDefaultDest()];
    for (auto &c : SI->cases()) k.gepIdx.push_back({bm[c.getCaseSuccessor()]->idx, c.getCaseValue()->getZExtValue(), 0});
  }
  return kf;
}

Val Executor::mapElems(Type *T, const std::function<Val(Type *, unsigned)> &f) {
  Agg *a = new Agg;
  if (auto *ST = dyn_cast<StructType>(T)) for (unsigned i = 0; i < ST->getNumElements(); i++) a->v.push_back(f(ST->getElementType(i), i));
  else if (auto *AT = dyn_cast<ArrayType>(T)) for (unsigned i = 0; i < AT->getNumElements(); i++) a->v.push_back(f(AT->getElementType(), i));
  else { auto *VT = cast<FixedVectorType>(T); for (unsigned i = 0; i < VT->getNumElements(); i++) a->v.push_back(f(VT->getElementType(), i)); }
  return VA(a);
}
static bool isAggT(Type *T) { return T->isStructTy() || T->isArrayTy() || T->isVectorTy(); }

Val Executor::evalConst(const Constant *C) {
  Type *T = C->getType();
  if (auto *CI = dyn_cast<ConstantInt>(C)) {
    const APInt &v = CI->getValue();
    if (v.getBitWidth() <= 64) return VC(v.getZExtValue());
    u128 x = v.extractBitsAsZExtValue(64, 0);
    x |= (u128)v.extractBitsAsZExtValue(v.getBitWidth() - 64, 64) << 64;
    return VE(mkConst(x, v.getBitWidth()));
  }
  if (auto *CF = dyn_cast<ConstantFP>(C)) {
    APInt b = CF->getValueAPF().bitcastToAPInt();
    if (b.getBitWidth() <= 64) return VC(b.getZExtValue());
    return VE(mkConst(b.extractBitsAsZExtValue(64, 0), std::min(128u, b.getBitWidth())));
  }
  if (isa<ConstantPointerNull>(C)) return VC(0);
  if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) {
    if (isAggT(T)) return mapElems(T, [&](Type *E, unsigned) { return evalConst(isa<UndefValue>(C) ? (Constant *)UndefValue::get(E) : Constant::getNullValue(E)); });
    if (T->isIntegerTy() && T->getIntegerBitWidth() > 64) return VE(mkConst(0, T->getIntegerBitWidth()));
    return VC(0);
  }
  if (auto *GV = dyn_cast<GlobalValue>(C)) {
    if (auto *GA = dyn_cast<GlobalAlias>(GV)) return evalConst(GA->getAliasee());
    auto it = gaddr.find(GV);
    if (it == gaddr.end()) { fprintf(stderr, "no address for %s\n", GV->getName().str().c_str()); abort(); }
    return VC(it->second);
  }
  if (auto *CA = dyn_cast<ConstantAggregate>(C)) return mapElems(T, [&](Type *, unsigned i) { return evalConst(CA->getOperand(i)); });
  if (auto *CD = dyn_cast<ConstantDataSequential>(C)) return mapElems(T, [&](Type *, unsigned i) { return evalConst(CD->getElementAsConstant(i)); });
  if (auto *CE = dyn_cast<ConstantExpr>(C)) {
    KInst k;
    switch (CE->getOpcode()) {
      case Instruction::GetElementPtr: {
        Val b = evalConst(CE->getOperand(0));
        APInt off(64, 0);
        if (!cast<GEPOperator>(CE)->accumulateConstantOffset(*DL, off)) { fprintf(stderr, "const gep\n"); abort(); }
        return VC(b.c + (u64)off.getSExtValue());
      }
      case Instruction::BitCast: case Instruction::AddrSpaceCast: return evalConst(CE->getOperand(0));
      case Instruction::PtrToInt: { Val v = evalConst(CE->getOperand(0)); return VC(v.c & mask64(T->getIntegerBitWidth())); }
      case Instruction::IntToPtr: return evalConst(CE->getOperand(0));
      case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt:
        return castop(CE->getOpcode(), evalConst(CE->getOperand(0)), DL->getTypeSizeInBits(CE->getOperand(0)->getType()), DL->getTypeSizeInBits(T), k);
      case Instruction::Add: case Instruction::Sub: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Mul: case Instruction::Shl: case Instruction::LShr: {
        static State dummyS;
        return binop(dummyS, CE->getOpcode(), evalConst(CE->getOperand(0)), evalConst(CE->getOperand(1)), DL->getTypeSizeInBits(T), k);
      }
      case Instruction::ICmp: return icmp(CE->getPredicate(), evalConst(CE->getOperand(0)), evalConst(CE->getOperand(1)), DL->getTypeSizeInBits(CE->getOperand(0)->getType()));
      default: break;
    }
  }
  std::string str; raw_string_ostream os(str); C->print(os);
  fprintf(stderr, "unsupported constant: %s\n", os.str().c_str());
  abort();
}
Val Executor::getOp(State &s, KInst &k, int i) {
  int o = k.ops[i];
  if (o >= 0) return s.F().regs[o];
  return s.F().kf->consts[-o - 1];
}
unsigned Executor::scalarBits(Type *T) { return DL->getTypeSizeInBits(T); }

// ------------------------------------------------------------------ memory
std::string Executor::where(State &s) {
  std::string r;
  if (s.th.empty()) return r;
  int n = 0;
  for (size_t i = s.T().st.size(); i-- > 0 && n < 14; n++) {
    if (n) r += " < ";
    r += demangle(s.T().st[i].kf->F->getName().str());
    if (r.size() > 3000) break;
  }
  return r;
}
// Happens-before data race detection. Returns false when the access races with an earlier one.
bool Executor::watch(State &s, u64 addr, u64 size, bool write) {
  Thread &T = s.T();
  if (T.unwatched || T.vc.empty() || !size) return true;
  MemObj *o = s.mem.find(addr);
  if (o->ro || o->kind == K_EXC) return true;
  const size_t g0 = (addr - o->base) / 8, g1 = (addr - o->base + size - 1) / 8;
  const uint8_t me = s.cur;
  const uint32_t now = T.vc[me];
  bool writable = false;
  for (size_t g = g0; g <= g1; g++) {
    const u64 lo = std::max<u64>(addr - o->base, g * 8), hi = std::min<u64>(addr - o->base + size, g * 8 + 8);
    const uint8_t mask = uint8_t(((1u << (hi - lo)) - 1) << (lo - g * 8));
    bool have = false;
    if (g < o->seen.size())
      for (const Access &a : o->seen[g].a) {
        if (!a.mask) continue;
        if (a.tid == me) { have |= a.clk == now && (a.mask & mask) == mask && a.write >= (uint8_t)write; continue; }
        if ((a.mask & mask) && (write || a.write) && (a.tid >= T.vc.size() || a.clk > T.vc[a.tid])) return false;
      }
    if (have) continue;
    if (!writable) { o = s.mem.writable(addr); writable = true; if (o->seen.empty()) o->seen.resize((o->size + 7) / 8); }
    Access *best = nullptr;
    for (Access &a : o->seen[g].a) if (a.mask && a.tid == me && a.write == (uint8_t)write && (a.clk == now || (a.mask & ~mask) == 0)) { best = &a; break; }
    if (best) { best->mask = best->clk == now ? best->mask | mask : mask; best->clk = now; continue; }
    for (Access &a : o->seen[g].a) if (!a.mask || (a.tid == me && a.mask == mask && a.write <= (uint8_t)write)) { best = &a; break; }
    if (!best) for (Access &a : o->seen[g].a) if (a.tid < T.vc.size() && a.clk <= T.vc[a.tid] && (a.mask & ~mask) == 0) { best = &a; break; }
    if (!best) for (Access &a : o->seen[g].a) if (a.tid < T.vc.size() && a.clk <= T.vc[a.tid] && (!best || a.clk < best->clk)) best = &a;
    if (!best) best = &o->seen[g].a[now & 3];
    *best = Access{now, me, mask, (uint8_t)write};
  }
  return true;
}
void Executor::acquire(State &s, u64 addr) {
  Thread &T = s.T();
  if (T.vc.empty()) return;
  auto it = s.sync.find(addr);
  if (it == s.sync.end()) return;
  if (T.vc.size() < it->second.size()) T.vc.resize(it->second.size());
  for (size_t i = 0; i < it->second.size(); i++) T.vc[i] = std::max(T.vc[i], it->second[i]);
}
void Executor::release(State &s, u64 addr) {
  Thread &T = s.T();
  if (T.vc.empty()) return;
  auto &v = s.sync[addr];
  if (v.size() < T.vc.size()) v.resize(T.vc.size());
  for (size_t i = 0; i < T.vc.size(); i++) v[i] = std::max(v[i], T.vc[i]);
  T.vc[s.cur]++;
}
MemObj *Executor::checkAccess(State &s, u64 addr, u64 size, bool write, bool &ok) {
  ok = true;
  MemObj *o = s.mem.find(addr);
  if (!o || addr + size > o->base + o->size || (o->freed && size)) {
    char b[200];
    snprintf(b, sizeof b, "%s of %llu bytes at %s", write ? "write" : "read", (unsigned long long)size,
             !o ? (addr < 4096 ? "null pointer" : "invalid address") : o->freed ? "freed memory" : "out of object bounds");
    error(s, "memory", b);
    ok = false;
    return nullptr;
  }
  if (write && o->ro) { error(s, "memory", "write to constant memory"); ok = false; return nullptr; }
  if (opt.races && !inAtomic && !s.T().vc.empty()) {
    if (!watch(s, addr, size, write)) { error(s, "race", "threads access the same memory without synchronisation"); ok = false; return nullptr; }
    return s.mem.find(addr);
  }
  return o;
}
// Reads nbytes; returns nullptr and *conc when concrete.
Expr *Executor::loadBits(State &s, MemObj *o, u64 addr, unsigned n, u64 *conc) {
  u64 off = addr - o->base;
  const uint8_t *tg = &o->tag[off];
  bool allc = true, anyu = false;
  for (unsigned i = 0; i < n; i++) { if (tg[i] != TAG_C) { allc = false; if (tg[i] == TAG_U) anyu = true; } }
  if (allc && n <= 8) { u64 v = 0; memcpy(&v, &o->data[off], n); *conc = v; return nullptr; }
  if (anyu) {
    // Uninitialised bytes: arbitrary but fixed from now on. A fully uninitialised read yields one fresh variable.
    s.uninitReads++;
    if (opt.verbose && s.uninitReads < 4) fprintf(stderr, "UNINIT read at %s\n", where(s).c_str());
    bool allu = true;
    for (unsigned i = 0; i < n; i++) allu &= tg[i] == TAG_U;
    MemObj *w = o->ro ? o : s.mem.writable(o->base);
    if (w->sym.empty()) w->sym.resize(w->size, SymByte{nullptr, 0});
    if (allu && n <= 16) {
      Expr *v = pooledVar("uninit", n * 8, s.uninitVars++);
      for (unsigned i = 0; i < n; i++) { w->tag[off + i] = TAG_S; w->sym[off + i] = {v, i}; }
    } else
      for (unsigned i = 0; i < n; i++) if (w->tag[off + i] == TAG_U) { Expr *v = pooledVar("uninit", 8, s.uninitVars++); w->tag[off + i] = TAG_S; w->sym[off + i] = {v, 0}; }
    o = w;
    tg = &o->tag[off];
  }
  // whole expression?
  if (tg[0] == TAG_S) {
    Expr *e = o->sym[off].e;
    uint32_t b0 = o->sym[off].idx;
    bool same = true;
    for (unsigned i = 1; i < n && same; i++) same = tg[i] == TAG_S && o->sym[off + i].e == e && o->sym[off + i].idx == b0 + i;
    if (same) {
      if (b0 == 0 && e->w == n * 8) return e;
      if ((b0 + n) * 8 <= e->w) return mkExtract(e, b0 * 8, n * 8);
    }
  }
  Expr *r = nullptr;
  for (unsigned i = 0; i < n; i++) {
    Expr *b = o->tag[off + i] == TAG_C ? mkConst(o->data[off + i], 8) : mkExtract(o->sym[off + i].e, o->sym[off + i].idx * 8, 8);
    r = r ? mkConcat(b, r) : b;
  }
  if (r->isConst() && n <= 8) { *conc = r->v; return nullptr; }
  return r;
}
void Executor::storeBits(State &s, MemObj *o, u64 addr, unsigned n, const Val &v, unsigned w) {
  u64 off = addr - o->base;
  if (v.conc()) {
    u64 x = v.c;
    for (unsigned i = 0; i < n; i++) { o->data[off + i] = i < 8 ? (uint8_t)(x >> (8 * i)) : 0; o->tag[off + i] = TAG_C; }
    return;
  }
  Expr *e = v.e;
  if (e->w < n * 8) e = mkZExt(e, n * 8);
  if (e->isConst()) {
    for (unsigned i = 0; i < n; i++) { o->data[off + i] = (uint8_t)(e->cval() >> (8 * i)); o->tag[off + i] = TAG_C; }
    return;
  }
  if (o->sym.empty()) o->sym.resize(o->size, SymByte{nullptr, 0});
  for (unsigned i = 0; i < n; i++) { o->tag[off + i] = TAG_S; o->sym[off + i] = {e, i}; }
}
Val Executor::loadT(State &s, MemObj *o, u64 addr, Type *T) {
  if (isAggT(T)) {
    if (auto *VT = dyn_cast<FixedVectorType>(T)) {
      u64 es = DL->getTypeSizeInBits(VT->getElementType());
      if (es % 8) { unsupported(s, "vector of sub-byte elements"); return VC(0); }
      return mapElems(T, [&](Type *E, unsigned i) { return loadT(s, s.mem.find(addr + i * es / 8), addr + i * es / 8, E); });
    }
    return mapElems(T, [&](Type *E, unsigned i) {
      u64 off = T->isStructTy() ? DL->getStructLayout(cast<StructType>(T))->getElementOffset(i) : i * DL->getTypeAllocSize(E);
      return loadT(s, s.mem.find(addr + off), addr + off, E);
    });
  }
  unsigned bits = DL->getTypeSizeInBits(T), n = DL->getTypeStoreSize(T);
  if (T->isX86_FP80Ty()) { unsupported(s, "x86_fp80"); return VC(0); }
  if (n > 16) { unsupported(s, "wide load"); return VC(0); }
  u64 c;
  Expr *e = loadBits(s, o, addr, n, &c);
  if (!e) return VC(c & mask64(bits));
  if (bits < n * 8) return VE(mkExtract(e, 0, bits));
  return VE(e);
}
void Executor::storeT(State &s, MemObj *o, u64 addr, Type *T, const Val &v) {
  if (isAggT(T)) {
    unsigned n = v.agg()->v.size();
    for (unsigned i = 0; i < n; i++) {
      Type *E; u64 off;
      if (auto *ST = dyn_cast<StructType>(T)) { E = ST->getElementType(i); off = DL->getStructLayout(ST)->getElementOffset(i); }
      else if (auto *AT = dyn_cast<ArrayType>(T)) { E = AT->getElementType(); off = i * DL->getTypeAllocSize(E); }
      else { E = cast<VectorType>(T)->getElementType(); off = i * DL->getTypeSizeInBits(E) / 8; }
      storeT(s, o, addr + off, E, v.agg()->v[i]);
    }
    return;
  }
  unsigned n = DL->getTypeStoreSize(T);
  if (n > 16 || T->isX86_FP80Ty()) { unsupported(s, "wide store"); return; }
  storeBits(s, o, addr, n, v, DL->getTypeSizeInBits(T));
}
// All feasible addresses of e; forks off an out-of-bounds state if one is feasible.
std::vector<u64> Executor::addrValues(State &s, Expr *e, u64 size, bool &ok) {
  ok = true;
  std::vector<u64> vals;
  u64 first;
  {
    Model m = s.model;
    if (!s.modelValid) { Res r = solver.checkAbstract(s.pc, mkBool(true), &m); (void)r; }
    Evaluator ev(&m);
    first = (u64)ev.eval(e);
    if (!s.modelValid) {
      // make sure it is a feasible value under the abstraction
      if (solver.checkAbstract(s.pc, mkEq(e, mkConst(first, 64)), nullptr) != SAT) {
        Expr *probe = pooledVar("probe", 64, 0);
        Model m2;
        if (solver.checkAbstract(s.pc, mkEq(e, probe), &m2) != SAT) { kill(s); S.infeasible++; ok = false; return vals; }
        first = (u64)m2.get(probe->v);
      }
    }
  }
  MemObj *o = s.mem.find(first);
  if (!o || o->freed) {  // try to stay in this (bad) place: report
    State *c = clone(s);
    if (assume(*c, mkEq(e, mkConst(first, 64)))) { bool k; checkAccess(*c, first, size, false, k); }
    dead = false;
    delete c;
    if (!assume(s, mkNot(mkEq(e, mkConst(first, 64))))) { kill(s); ok = false; return vals; }
    return addrValues(s, e, size, ok);
  }
  Expr *inb = mkAnd(mkBin(OUle, mkConst(o->base, 64), e), mkBin(OUle, e, mkConst(o->base + o->size - std::min(size, o->size), 64)));
  Model mo;
  Res r = may(s, mkNot(inb), &mo);
  if (r != UNSAT) {
    // the outside part continues as its own state, re-executing this instruction
    State *c = clone(s);
    c->pc.push_back(mkNot(inb));
    fixModel(*c, mo);
    pending.push_back(c);
    S.forks++;
    if (!assume(s, inb)) { kill(s); ok = false; return vals; }
  }
  std::vector<Expr *> extra;
  Expr *ex = mkBool(true);
  while (true) {
    Expr *probe = nullptr;
    Model m;
    (void)probe;
    Res q = may(s, ex, &m);
    if (q == UNSAT) break;
    Evaluator ev(&m);
    u64 v = (u64)ev.eval(e);
    bool dup = false;
    for (u64 x : vals) dup |= x == v;
    if (dup || v < o->base || v + size > o->base + o->size) {
      // abstract model not usable for evaluation: ask for the value directly
      Expr *pr = pooledVar("probe", 64, 0);
      Model m2;
      if (solver.checkAbstract(s.pc, mkAnd(ex, mkEq(e, pr)), &m2) != SAT) break;
      v = (u64)m2.get(pr->v);
    }
    vals.push_back(v);
    ex = mkAnd(ex, mkNot(mkEq(e, mkConst(v, 64))));
    if (vals.size() > opt.maxForkVals) { unsupported(s, "too many feasible addresses"); ok = false; return vals; }
  }
  if (vals.empty()) { kill(s); ok = false; }
  return vals;
}
Val Executor::load(State &s, Val p, Type *T, bool &ok) {
  ok = true;
  u64 size = DL->getTypeStoreSize(T);
  if (p.conc()) {
    MemObj *o = checkAccess(s, p.c, size, false, ok);
    if (!ok) return VC(0);
    return loadT(s, o, p.c, T);
  }
  std::vector<u64> vs = addrValues(s, p.e, size, ok);
  if (!ok) return VC(0);
  if (vs.size() == 1 || !isAggT(T)) {
    Val r;
    unsigned w = isAggT(T) ? 0 : scalarBits(T);
    for (size_t i = 0; i < vs.size(); i++) {
      MemObj *o = checkAccess(s, vs[i], size, false, ok);
      if (!ok) return VC(0);
      Val x = loadT(s, o, vs[i], T);
      if (i == 0) r = x; else r = VE(mkIte(mkEq(p.e, mkConst(vs[i], 64)), toE(x, w), toE(r, w)));
    }
    return r;
  }
  unsupported(s, "aggregate load through symbolic pointer");
  ok = false;
  return VC(0);
}
void Executor::store(State &s, Val p, Type *T, const Val &v, bool &ok) {
  ok = true;
  u64 size = DL->getTypeStoreSize(T);
  if (p.conc()) {
    MemObj *o = checkAccess(s, p.c, size, true, ok);
    if (!ok) return;
    storeT(s, s.mem.writable(p.c), p.c, T, v);
    return;
  }
  std::vector<u64> vs = addrValues(s, p.e, size, ok);
  if (!ok) return;
  if (isAggT(T) && vs.size() > 1) { unsupported(s, "aggregate store through symbolic pointer"); ok = false; return; }
  unsigned w = isAggT(T) ? 0 : scalarBits(T);
  for (u64 a : vs) {
    MemObj *o = checkAccess(s, a, size, true, ok);
    if (!ok) return;
    if (vs.size() == 1) { storeT(s, s.mem.writable(a), a, T, v); return; }
    Val old = loadT(s, o, a, T);
    Val nv = VE(mkIte(mkEq(p.e, mkConst(a, 64)), toE(v, w), toE(old, w)));
    storeT(s, s.mem.writable(a), a, T, nv);
  }
}
void Executor::memcpyC(State &s, u64 d, u64 sr, u64 n, bool &ok) {
  ok = true;
  if (!n || d == sr) return;
  MemObj *so = checkAccess(s, sr, n, false, ok);
  if (!ok) return;
  checkAccess(s, d, n, true, ok);
  if (!ok) return;
  Ref keep(so);
  MemObj *dobj = s.mem.writable(d);
  u64 so_off = sr - so->base, d_off = d - dobj->base;
  std::vector<uint8_t> dt(so->data.begin() + so_off, so->data.begin() + so_off + n), tg(so->tag.begin() + so_off, so->tag.begin() + so_off + n);
  bool anyS = false;
  for (uint8_t t : tg) anyS |= t == TAG_S;
  if (anyS) {
    std::vector<SymByte> sb(so->sym.begin() + so_off, so->sym.begin() + so_off + n);
    if (dobj->sym.empty()) dobj->sym.resize(dobj->size, SymByte{nullptr, 0});
    std::copy(sb.begin(), sb.end(), dobj->sym.begin() + d_off);
  }
  std::copy(dt.begin(), dt.end(), dobj->data.begin() + d_off);
  std::copy(tg.begin(), tg.end(), dobj->tag.begin() + d_off);
}
std::string Executor::cstr(State &s, u64 a) {
  std::string r;
  for (int i = 0; i < 300; i++) {
    MemObj *o = s.mem.find(a + i);
    if (!o || a + i >= o->base + o->size || o->tag[a + i - o->base] != TAG_C) break;
    char c = o->data[a + i - o->base];
    if (!c) break;
    r += c;
  }
  return r;
}

// ------------------------------------------------------------------ solving
State *Executor::clone(State &s) { State *c = new State(s); c->id = nextState++; return c; }
void Executor::addC(State &s, Expr *c) {
  if (c->isTrue()) return;
  if (c->op == OAnd) { addC(s, c->a[0]); addC(s, c->a[1]); return; }
  for (Expr *p : s.pc) if (p == c) return;
  s.pc.push_back(c);
}
void Executor::fixModel(State &s, const Model &m) {
  s.model = m;
  Evaluator ev(&s.model);
  for (Expr *p : s.pc) if (!ev.eval(p)) { s.modelValid = false; return; }
  s.modelValid = true;
}
Res Executor::may(State &s, Expr *c, Model *m, bool *fm) {
  if (fm) *fm = false;
  if (c->isFalse()) return UNSAT;
  for (Expr *p : s.pc) { if (p == c) { if (s.modelValid) { if (m) *m = s.model; if (fm) *fm = true; return SAT; } break; } }
  Expr *nc = mkNot(c);
  for (Expr *p : s.pc) if (p == nc) return UNSAT;
  if (s.modelValid) {
    Evaluator ev(&s.model);
    if (ev.eval(c)) { solver.st.modelHits++; if (m) *m = s.model; if (fm) *fm = true; return SAT; }
  }
  Model mm = s.model;
  Res r = solver.checkAbstract(s.pc, c, &mm);
  if (r == UNKNOWN) { S.unkFeas++; if (m) *m = s.model; return UNKNOWN; }
  if (r == SAT && m) *m = mm;
  return r;
}
bool Executor::assume(State &s, Expr *c) {
  if (c->isTrue()) return true;
  if (c->isFalse()) return false;
  Model m;
  bool fm;
  Res r = may(s, c, &m, &fm);
  if (r == UNSAT) return false;
  addC(s, c);
  if (!fm) fixModel(s, m);
  return true;
}
int Executor::fork(State &s, Expr *c, State *&other) {
  other = nullptr;
  if (c->isTrue()) return 1;
  if (c->isFalse()) return 0;
  S.branchSym++;
  Expr *nc = mkNot(c);
  Model mt, mf;
  bool ft, ff;
  Res rt = may(s, c, &mt, &ft);
  if (rt == UNSAT) { addC(s, nc); if (s.modelValid) { Evaluator ev(&s.model); if (!ev.eval(nc)) s.modelValid = false; } return 0; }
  Res rf = may(s, nc, &mf, &ff);
  if (rf == UNSAT) { addC(s, c); if (!ft) fixModel(s, mt); return 1; }
  other = clone(s);
  S.forks++;
  s.depth++; other->depth++;
  addC(s, c); if (!ft) fixModel(s, mt);
  addC(*other, nc); if (!ff) fixModel(*other, mf);
  return 2;
}
bool Executor::realModel(State &s, Expr *extra, Model &m, Res &r) {
  std::vector<Expr *> cs = s.pc;
  if (extra && !extra->isTrue()) cs.push_back(extra);
  bool fp = false;
  for (Expr *c : cs) fp |= c->fparith;
  r = SAT;
  if (s.modelValid) { Evaluator ev(&s.model); if (!extra || ev.eval(extra)) { m = s.model; return true; } }
  Model base = s.model;
  if (extra) {
    Model ma = s.model;
    Res ra = solver.checkAbstract(s.pc, extra, &ma);
    if (ra == UNSAT) { r = UNSAT; return false; }
    if (ra == SAT) { base = ma; Evaluator ev(&base); bool all = true; for (Expr *c : cs) all &= ev.eval(c) != 0; if (all) { m = base; return true; } }
  }
  if (!fp) {  // no FP arithmetic: solve everything together
    r = solver.checkPrecise(cs, nullptr, &base, opt.preciseTmo);
    if (r == SAT) { m = base; return true; }
    return false;
  }
  if (solver.search(cs, base, &m, 0.5)) return true;
  Model pm = base;
  r = solver.checkPrecise(cs, nullptr, &pm, opt.preciseTmo);
  if (r == SAT) { m = pm; return true; }
  if (r == UNSAT) return false;
  if (solver.search(cs, base, &m, 3)) { r = SAT; return true; }
  return false;
}
void Executor::emitTrace(State &s, const Model &m, const std::string &status, const std::string &file) {
  FILE *f = fopen(file.c_str(), "w");
  if (!f) { perror(file.c_str()); exit(2); }
  Evaluator ev(&m);
  fprintf(f, "preempt %d\n", opt.preemptBound);
  for (u64 p : opt.params) fprintf(f, "param %llu\n", (unsigned long long)p);
  for (auto &in : s.inputs) {
    u128 v = ev.eval(in.e);
    fprintf(f, "in %s %u ", in.name.empty() ? "_" : in.name.c_str(), in.size);
    for (unsigned i = 0; i < in.size; i++) fprintf(f, "%02x", (unsigned)((v >> (8 * i)) & 0xff));
    fprintf(f, "\n");
  }
  for (auto &o : s.obs) fprintf(f, "obs %s %d %llx\n", o.tag.c_str(), o.kind, (unsigned long long)(u64)ev.eval(o.e));
  fprintf(f, "status %s\n", status.c_str());
  fclose(f);
}
void Executor::checkAssert(State &s, Expr *c, const std::string &kind, const std::string &msg) {
  S.asserts++;
  if (c->isTrue()) { S.assertStructural++; return; }
  Expr *nc = mkNot(c);
  if (violCount[kind + msg] >= 3) return;  // enough counterexamples for this one
  Model m;
  if (!nc->isTrue()) {
    for (Expr *p : s.pc) if (p == c) { S.assertStructural++; return; }
    Res r = UNSAT;
    if (s.modelValid && (Evaluator(&s.model)).eval(nc)) r = SAT;
    else r = solver.checkAbstract(s.pc, nc, nullptr);
    if (r == UNSAT) { S.assertAbstract++; return; }
  }
  Res r;
  bool real = realModel(s, nc, m, r);
  if (!real) {
    if (r == UNSAT) { S.assertPrecise++; if (nc->isTrue()) { S.infeasible++; kill(s); } return; }
    S.undecided++;
    if (opt.verbose) { fprintf(stderr, "UNDECIDED %s: %s\n%s\n", kind.c_str(), msg.c_str(), exprStr(nc, 12).c_str()); }
    return;
  }
  Violation v;
  v.kind = kind; v.msg = msg; v.real = true; v.path = s.id; v.where = where(s);
  v.file = opt.traceDir + "/cex_" + workerTag + "_" + std::to_string(violations.size()) + ".txt";
  emitTrace(s, m, kind + "|" + msg, v.file);
  violCount[kind + msg]++;
  violations.push_back(v);
  if (opt.verbose) fprintf(stderr, "VIOL %s: %s\n  at %s\n", kind.c_str(), msg.c_str(), v.where.c_str());
}
void Executor::error(State &s, const std::string &kind, const std::string &msg) {
  std::string m = msg;
  std::string w;
  for (size_t i = s.T().st.size(); i-- > 0;) {
    std::string f = demangle(s.T().st[i].kf->F->getName().str());
    if (f.find("knp::") != std::string::npos) { w = f.substr(0, f.find('(')); break; }
  }
  checkAssert(s, mkBool(false), kind, m + (w.empty() ? "" : " in " + w));
  S.errors++;
  kill(s);
}
void Executor::unsupported(State &s, const std::string &msg) {
  unsupportedMsgs[msg + " at " + where(s).substr(0, 400)]++;
  S.unsupported++;
  kill(s);
}
// Does the outcome of the path depend on uninitialised memory?
static bool usesUninit(const std::vector<Expr *> &roots) {
  std::vector<Expr *> todo(roots);
  std::unordered_set<Expr *> seen;
  while (!todo.empty()) {
    Expr *e = todo.back();
    todo.pop_back();
    if (!e || !e->sym || !seen.insert(e).second) continue;
    if (e->op == OVar && gVars[e->v].name == "uninit") return true;
    for (int i = 0; i < e->n; i++) todo.push_back(e->a[i]);
  }
  return false;
}
void Executor::complete(State &s) {
  S.paths++;
  bool uninit = false;
  if (s.uninitReads) {
    std::vector<Expr *> roots(s.pc.begin(), s.pc.end());
    for (auto &o : s.obs) roots.push_back(o.e);
    uninit = usesUninit(roots);
  }
  S.uninit += uninit;
  for (auto &r : s.reached) reached.insert(r);
  // reservoir of validated traces
  traceSeen++;
  size_t slot = traceFiles.size();
  if (slot >= (size_t)opt.traces) { u64 j = solver.rng() % traceSeen; if (j >= (u64)opt.traces) { kill(s); return; } slot = j; }
  if (uninit) { kill(s); return; }
  Model m; Res r;
  if (s.modelValid) m = s.model;
  else {
    unsigned keep = opt.preciseTmo; opt.preciseTmo = std::min(keep, 3000u);
    bool ok = realModel(s, nullptr, m, r);
    opt.preciseTmo = keep;
    if (!ok) { if (r == UNSAT) S.infeasible++; else S.unvalidated++; kill(s); return; }
  }
  std::string f = opt.traceDir + "/trace_" + workerTag + "_" + std::to_string(slot) + ".txt";
  emitTrace(s, m, "completed", f);
  if (slot == traceFiles.size()) traceFiles.push_back(f);
  kill(s);
}

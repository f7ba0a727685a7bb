#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Module.h>
#include <map>
#include <set>
#include <string>
#include <vector>

// ---- values ---------------------------------------------------------------
struct Val;
struct Agg { std::vector<Val> v; };
extern Expr *const AGG;
struct Val {
  Expr *e = nullptr;  // nullptr: concrete value c (up to 64 bits); AGG: aggregate; otherwise symbolic or wide constant
  u64 c = 0;
  bool conc() const { return e == nullptr; }
  bool isAgg() const { return e == AGG; }
  Agg *agg() const { return (Agg *)c; }
};
static inline Val VC(u64 c) { Val v; v.c = c; return v; }
static inline Val VE(Expr *e) {
  Val v;
  if (e->isConst() && e->w <= 64) { v.c = e->v; return v; }
  v.e = e;
  return v;
}
static inline Val VA(Agg *a) { Val v; v.e = AGG; v.c = (u64)a; return v; }
static inline Expr *toE(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

// ---- memory ---------------------------------------------------------------
enum { TAG_C = 0, TAG_U = 1, TAG_S = 2 };
enum ObjKind : uint8_t { K_GLOBAL, K_HEAP, K_STACK, K_EXC };
struct SymByte { Expr *e; uint32_t idx; };
// Who accessed which bytes of an 8 byte granule, for the detection of data races.
struct Access { uint32_t clk = 0; uint8_t tid = 0, mask = 0, write = 0; };
struct Granule { Access a[4]; };
struct MemObj {
  int rc = 0;
  u64 base = 0, size = 0;
  ObjKind kind = K_HEAP;
  bool ro = false, freed = false;
  uint8_t how = 0;  // 0 malloc, 1 new, 2 new[]
  std::vector<uint8_t> data, tag;
  std::vector<SymByte> sym;
  std::vector<Granule> seen;
};
struct Ref {
  MemObj *o = nullptr;
  Ref() {}
  explicit Ref(MemObj *p) : o(p) { if (o) o->rc++; }
  Ref(const Ref &r) : o(r.o) { if (o) o->rc++; }
  Ref(Ref &&r) noexcept : o(r.o) { r.o = nullptr; }
  Ref &operator=(Ref r) { std::swap(o, r.o); return *this; }
  ~Ref() { if (o && --o->rc == 0) delete o; }
};
constexpr u64 CHUNK_BITS = 14, CHUNK = 1ull << CHUNK_BITS, MEM_BASE = 0x100000000ull;
struct Chunk {
  int rc = 0;
  std::vector<Ref> objs;  // sorted by base
};
struct ChunkRef {
  Chunk *p = nullptr;
  ChunkRef() {}
  ChunkRef(const ChunkRef &r) : p(r.p) { if (p) p->rc++; }
  ChunkRef(ChunkRef &&r) noexcept : p(r.p) { r.p = nullptr; }
  ChunkRef &operator=(ChunkRef r) { std::swap(p, r.p); return *this; }
  ~ChunkRef() { if (p && --p->rc == 0) delete p; }
};
struct Memory {
  std::vector<ChunkRef> chunks;
  u64 next = MEM_BASE + 64;
  Chunk *wchunk(size_t i);
  u64 alloc(u64 size, u64 align, ObjKind k, bool zero);
  MemObj *find(u64 addr) const;      // object whose [base, base+size] contains addr (size 0 objects match base)
  MemObj *writable(u64 addr);        // copy on write
  void erase(u64 base);
};

// ---- code -----------------------------------------------------------------
struct KFunc;
struct KBlock;
struct KInst {
  llvm::Instruction *I = nullptr;
  unsigned opc = 0;
  int dest = -1;
  unsigned w = 0;  // result width (scalar int/fp/ptr), 0 otherwise
  std::vector<int> ops;
  // GEP
  u64 gepOff = 0;
  std::vector<std::tuple<int, u64, unsigned>> gepIdx;  // operand, scale, index width
  KBlock *t0 = nullptr, *t1 = nullptr;
  llvm::Function *callee = nullptr;
  int intr = 0;  // handler index + 1 for intercepted callee
};
struct KBlock {
  llvm::BasicBlock *bb;
  std::vector<KInst> insts;
  int idx;
  // phi: per predecessor: list of (dest, operand)
  std::map<KBlock *, std::vector<std::pair<int, int>>> phis;
};
struct KFunc {
  llvm::Function *F;
  int nregs = 0;
  std::vector<int> args;
  std::vector<KBlock *> blocks;
  std::vector<Val> consts;
  u64 calls = 0;
};

struct Frame {
  KFunc *kf = nullptr;
  KBlock *bb = nullptr, *prev = nullptr;
  size_t pc = 0;
  std::vector<Val> regs;
  std::vector<u64> allocas;
  u64 sp = 0;
  std::vector<Val> varargs;
};
struct Thread {
  std::vector<Frame> st;
  bool done = false;
  u64 blockAddr = 0;  // blocked while *(u32*)blockAddr == blockVal
  uint32_t blockVal = 0;
  u64 excPtr = 0; int excSel = 0;
  std::vector<uint32_t> vc;  // vector clock
  int unwatched = 0;
  std::vector<u64> caught;
  std::map<int, int> dummy;
};
struct InputRec { std::string name; unsigned size; Expr *e; };
struct ObsRec { std::string tag; Expr *e; int kind; };  // kind 0 int, 1 float, 2 double
struct ExcInfo { u64 ti; u64 base; };

struct State {
  u64 id = 0;
  Memory mem;
  std::vector<Thread> th;
  int cur = 0;
  std::vector<Expr *> pc;
  Model model;
  bool modelValid = true;
  std::vector<InputRec> inputs;
  std::vector<ObsRec> obs;
  std::map<u64, ExcInfo> exc;
  u64 steps = 0;
  int depth = 0, preempt = 0;
  bool symRandom = false;
  bool oneSchedule = false;
  std::map<u64, std::vector<uint32_t>> sync;  // vector clocks of mutexes, atomics and other synchronisation objects
  bool bfsNew = false;
  u64 prng = 0x1234567, clock = 0;
  std::set<std::string> reached;
  std::vector<std::string> notes;
  u64 uidCounter = 0;
  unsigned uninitReads = 0, uninitVars = 0;
  Thread &T() { return th[cur]; }
  Frame &F() { return th[cur].st.back(); }
};

#pragma once
#include "state.h"
#include <functional>
#include <unordered_map>

struct Violation { std::string kind, msg; std::string file; bool real; u64 path; std::string where; };
struct Options {
  std::string bitcode, entry = "knp_harness", out = "out.json", traceDir = ".";
  double maxTime = 600;
  int jobs = 1, traces = 12;
  u64 seed = 1, maxForkVals = 96;
  u64 maxSteps = 40000000;
  std::vector<u64> params;
  bool dumpPaths = false, verbose = false;
  int preemptBound = 100;
  bool races = false;
  unsigned preciseTmo = 20000;
  bool forkSelect = false;
};
struct Stats {
  u64 paths = 0, killed = 0, errors = 0, forks = 0, insts = 0, asserts = 0, assertStructural = 0, assertAbstract = 0, assertPrecise = 0,
      undecided = 0, infeasible = 0, unvalidated = 0, branchSym = 0, unsupported = 0, unexplored = 0, uninit = 0, unkFeas = 0;
};
struct Executor {
  Options opt;
  llvm::Module *M;
  const llvm::DataLayout *DL;
  Solver solver;
  Stats S;
  std::vector<State *> pending;
  std::vector<Violation> violations;
  std::map<std::string, u64> unsupportedMsgs;
  std::set<std::string> reached, expected;
  std::map<std::string, int> violCount;
  std::map<u64, std::pair<int, int>> dummy;
  std::unordered_map<const llvm::Function *, KFunc *> kfuncs;
  std::unordered_map<const llvm::Value *, u64> gaddr;
  std::map<u64, llvm::Function *> faddr;
  std::map<u64, int> typeIds;
  std::vector<std::string> traceFiles;
  u64 nextState = 1, traceSeen = 0;
  double t0 = 0;
  std::string workerTag = "0";
  State *base = nullptr;
  u64 errnoAddr = 0;
  std::set<std::string> externalTI;
  i64 baseOff(State &s, u64 thrown, u64 want);
  u64 siVT = 0, vmiVT = 0, clVT = 0;
  bool timedOut = false;
  std::unordered_map<std::string, int> handlers;
  std::vector<std::function<void(State &, KInst &, std::vector<Val> &)>> hfun;

  void init();
  void run();
  void writeOut();

  // execution
  KFunc *getK(llvm::Function *F);
  void runState(State *s);
  bool step(State &s);  // false: state ended (deleted from exploration)
  Val evalConst(const llvm::Constant *C);
  Val getOp(State &s, KInst &k, int i);
  void setReg(State &s, KInst &k, Val v) { if (k.dest >= 0) s.F().regs[k.dest] = v; }
  void jump(State &s, KBlock *b);
  void pushCall(State &s, KFunc *kf, std::vector<Val> &args);
  void doCall(State &s, KInst &k);
  void finishCall(State &s, KInst &k);  // advance after an intercepted call
  void doRet(State &s, Val v, bool has);
  bool raise(State &s, u64 exc);
  bool typeMatch(State &s, u64 thrown, u64 want);
  std::string typeName(State &s, u64 ti);
  void popFrame(State &s);

  // values
  Val binop(State &s, unsigned opc, const Val &a, const Val &b, unsigned w, KInst &k);
  Val icmp(unsigned pred, const Val &a, const Val &b, unsigned w);
  Val fcmp(unsigned pred, const Val &a, const Val &b, unsigned w);
  Val castop(unsigned opc, const Val &a, unsigned sw, unsigned dw, KInst &k);
  Val selectV(State &s, const Val &c, const Val &a, const Val &b, llvm::Type *T);
  unsigned scalarBits(llvm::Type *T);
  Val mapElems(llvm::Type *T, const std::function<Val(llvm::Type *, unsigned)> &f);
  Val fp1(Op op, const Val &a, unsigned w, u64 kind = 0, unsigned rw = 0);
  Val fp2(Op op, const Val &a, const Val &b, unsigned w);

  // memory
  bool concretize(State &s, Val &v, unsigned w, u64 &out, bool forkAll);  // false: state was forked / ended
  Val loadT(State &s, MemObj *o, u64 addr, llvm::Type *T);
  void storeT(State &s, MemObj *o, u64 addr, llvm::Type *T, const Val &v);
  Expr *loadBits(State &s, MemObj *o, u64 addr, unsigned nbytes, u64 *conc);
  void storeBits(State &s, MemObj *o, u64 addr, unsigned nbytes, const Val &v, unsigned w);
  Val load(State &s, Val p, llvm::Type *T, bool &ok);
  void store(State &s, Val p, llvm::Type *T, const Val &v, bool &ok);
  MemObj *checkAccess(State &s, u64 addr, u64 size, bool write, bool &ok);
  bool inAtomic = false;
  bool watch(State &s, u64 addr, u64 size, bool write);
  void acquire(State &s, u64 addr);
  void release(State &s, u64 addr);
  std::vector<u64> addrValues(State &s, Expr *e, u64 size, bool &ok);
  void memcpyC(State &s, u64 d, u64 sr, u64 n, bool &ok);
  uint8_t *rawBytes(State &s, u64 addr, u64 n);  // concrete bytes or nullptr
  std::string cstr(State &s, u64 addr);

  // solving
  Res may(State &s, Expr *c, Model *m, bool *fromModel = nullptr);
  bool assume(State &s, Expr *c);  // false: infeasible
  void addC(State &s, Expr *c);
  void fixModel(State &s, const Model &m);
  int fork(State &s, Expr *c, State *&other);  // 1 true only, 0 false only, 2 both
  bool realModel(State &s, Expr *extra, Model &m, Res &r);  // real-semantics model of pc && extra
  void checkAssert(State &s, Expr *c, const std::string &kind, const std::string &msg);
  void error(State &s, const std::string &kind, const std::string &msg);
  void unsupported(State &s, const std::string &msg);
  void complete(State &s);
  void emitTrace(State &s, const Model &m, const std::string &status, const std::string &file);
  State *clone(State &s);
  void kill(State &s) { dead = true; }
  bool dead = false;
  std::string where(State &s);
  bool schedule(State &s, bool voluntary);
  void defHandlers();
  void H(const std::string &n, std::function<void(State &, KInst &, std::vector<Val> &)> f);
  void ret(State &s, KInst &k, Val v) { setReg(s, k, v); finishCall(s, k); }
  unsigned argW(KInst &k, int i);
  bool runnable(State &s, int t);
  void maybeSplit();
};
double nowS();

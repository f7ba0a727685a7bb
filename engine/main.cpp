#include "exec.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <cstring>
#include <unistd.h>
#include <llvm/Support/raw_ostream.h>
int main(int argc, char **argv) {
  Executor *E = new Executor;
  Options &o = E->opt;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() -> std::string { if (i + 1 >= argc) { fprintf(stderr, "missing value for %s\n", a.c_str()); exit(2); } return argv[++i]; };
    if (a == "--bc") o.bitcode = nx();
    else if (a == "--entry") o.entry = nx();
    else if (a == "--out") o.out = nx();
    else if (a == "--trace-dir") o.traceDir = nx();
    else if (a == "--max-time") o.maxTime = atof(nx().c_str());
    else if (a == "--jobs") o.jobs = atoi(nx().c_str());
    else if (a == "--traces") o.traces = atoi(nx().c_str());
    else if (a == "--seed") o.seed = strtoull(nx().c_str(), 0, 0);
    else if (a == "--param") o.params.push_back(strtoull(nx().c_str(), 0, 0));
    else if (a == "--max-steps") o.maxSteps = strtoull(nx().c_str(), 0, 0);
    else if (a == "--max-values") o.maxForkVals = strtoull(nx().c_str(), 0, 0);
    else if (a == "--races") o.races = true;
    else if (a == "--preempt") o.preemptBound = atoi(nx().c_str());
    else if (a == "--precise-timeout") o.preciseTmo = atoi(nx().c_str());
    else if (a == "--fork-select") o.forkSelect = true;
    else if (a == "-v") o.verbose = true;
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  llvm::LLVMContext ctx;
  llvm::SMDiagnostic err;
  auto M = llvm::parseIRFile(o.bitcode, err, ctx);
  if (!M) { err.print("knpsym", llvm::errs()); return 2; }
  E->M = M.get();
  E->DL = &M->getDataLayout();
  E->solver.seed(o.seed);
  E->t0 = nowS();
  E->init();
  E->run();
  fflush(stdout);
  _exit(0);
}

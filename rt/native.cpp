// Native side of knpsym.h: replays an input file against the real code and compares observations.
#include "knpsym.h"
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <fstream>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>
#include <pthread.h>
#include <semaphore.h>
#include <sys/types.h>
#include <deque>
namespace {
struct Th { sem_t sem; bool done = false; uint32_t *blockAddr = nullptr; uint32_t blockVal = 0; void (*fn)(void *) = nullptr; void *arg = nullptr; pthread_t tid; };
std::deque<Th> th(1);
const bool real_threads = getenv("KNPSYM_REAL_THREADS");  // the replay of a data race: real threads, no recorded schedule
bool one_schedule = false;
int cur = 0, preempts = 0, preemptBound = 100;
struct In { std::string name; std::vector<uint8_t> b; };
struct Ob { std::string tag; int kind; uint64_t v; };
std::vector<In> ins;
std::vector<Ob> obs;
std::vector<unsigned long> params;
size_t ip = 0, op = 0;
std::string status;
bool bad = false;
thread_local uint64_t prng = 0x1234567;
[[noreturn]] void finish(const char *what, const std::string &msg, int code) {
  printf("\nNATIVE %s %s\n", what, msg.c_str());
  fflush(stdout);
  _exit(code);
}
void load(const char *fn) {
  std::ifstream f(fn);
  if (!f) finish("ERROR", "cannot read replay file", 9);
  std::string line;
  while (std::getline(f, line)) {
    std::istringstream s(line);
    std::string k;
    s >> k;
    if (k == "param") { unsigned long p; s >> p; params.push_back(p); }
    else if (k == "preempt") s >> preemptBound;
    else if (k == "in") {
      In i; unsigned n; std::string hex;
      s >> i.name >> n >> hex;
      if (real_threads && (i.name == "sched" || i.name == "wake")) continue;
      for (unsigned j = 0; j < n; j++) i.b.push_back(std::stoul(hex.substr(2 * j, 2), nullptr, 16));
      ins.push_back(i);
    } else if (k == "obs") { Ob o; std::string h; s >> o.tag >> o.kind >> h; o.v = std::stoull(h, nullptr, 16); obs.push_back(o); }
    else if (k == "status") { std::getline(s, status); if (!status.empty()) status = status.substr(1); }
  }
}
}  // namespace
extern "C" {
void knpsym_make(void *p, size_t n, const char *name) {
  if (ip >= ins.size() && real_threads) { memset(p, 0, n); return; }
  if (ip >= ins.size()) finish("DIVERGED", std::string("no more inputs at ") + name, 7);
  if (ins[ip].b.size() != n || (ins[ip].name != name && ins[ip].name != "_")) finish("DIVERGED", std::string("input order: wanted ") + name + " got " + ins[ip].name, 7);
  memcpy(p, ins[ip].b.data(), n);
  ip++;
}
unsigned knpsym_choose(unsigned n, const char *name) {
  uint32_t v = 0;
  knpsym_make(&v, 4, name);
  return v;
}
// The same scheduler as the engine's: one thread runs at a time, decisions come from the trace.
static void schedule() {
  std::vector<int> can;
  bool curCan = false;
  for (int t = 0; t < (int)th.size(); t++) if (!th[t].done && (!th[t].blockAddr || *(volatile uint32_t *)th[t].blockAddr != th[t].blockVal)) { can.push_back(t); curCan |= t == cur; }
  if (can.empty()) finish("DEADLOCK", "all threads are blocked", 4);
  if (one_schedule && curCan) { th[cur].blockAddr = nullptr; return; }
  if (curCan && preempts >= preemptBound) { th[cur].blockAddr = nullptr; return; }
  int next = can[0];
  if (can.size() > 1 && !one_schedule) {
    uint8_t v = 0;
    knpsym_make(&v, 1, "sched");
    bool ok = false;
    for (int c : can) ok |= c == v;
    if (!ok) finish("DIVERGED", "recorded schedule is not possible", 7);
    next = v;
  }
  if (curCan && next != cur) preempts++;
  int me = cur;
  cur = next;
  th[next].blockAddr = nullptr;
  if (next == me) return;
  bool done = th[me].done;
  sem_post(&th[next].sem);
  if (done) return;
  while (sem_wait(&th[me].sem)) {}
}
void knpsym_yield() { schedule(); }
void knpsym_block(void *a, unsigned v) { th[cur].blockAddr = (uint32_t *)a; th[cur].blockVal = v; schedule(); }
void knpsym_acquire(void *) {}
void knpsym_release(void *) {}
void knpsym_unwatched(int) {}
void knpsym_one_schedule(int on) { one_schedule = on; }
int knpsym_self() { return cur; }
int knpsym_thread_done(int i) { return i >= 0 && i < (int)th.size() && th[i].done; }
static void *thread_main(void *p) {
  Th *t = (Th *)p;
  while (sem_wait(&t->sem)) {}
  t->fn(t->arg);
  t->done = true;
  schedule();
  return nullptr;
}
int knpsym_thread_create(void (*fn)(void *), void *arg) {
  th.emplace_back();
  Th &t = th.back();
  sem_init(&t.sem, 0, 0);
  t.fn = fn;
  t.arg = arg;
  if (pthread_create(&t.tid, nullptr, thread_main, &t)) finish("ERROR", "no thread", 9);
  return th.size() - 1;
}
void knpsym_assume(int c) { if (!c) finish("DIVERGED", "assumption does not hold", 7); }
void knpsym_assert(int c, const char *msg) { if (!c) finish("ASSERT", msg, 1); }
void knpsym_fail(const char *msg) { finish("ASSERT", msg, 1); }
void knpsym_observe(const char *tag, uint64_t bits, int kind) {
  if (getenv("KNPSYM_SHOW")) printf("  %s = %llx%s\n", tag, (unsigned long long)bits, op < obs.size() ? "" : " (extra)");
  if (real_threads) return;
  if (op >= obs.size()) { if (status == "completed") finish("MISMATCH", std::string("extra observation ") + tag, 6); return; }
  Ob &o = obs[op++];
  bool eq = o.tag == tag && o.v == bits;
  if (!eq && o.tag == tag && kind == 1) { float a, b; uint32_t x = o.v, y = bits; memcpy(&a, &x, 4); memcpy(&b, &y, 4); eq = a != a && b != b; }
  if (!eq && o.tag == tag && kind == 2) { double a, b; memcpy(&a, &o.v, 8); memcpy(&b, &bits, 8); eq = a != a && b != b; }
  if (!eq) { char m[300]; snprintf(m, sizeof m, "observation %zu: %s=%llx recorded, %s=%llx natively", op - 1, o.tag.c_str(), (unsigned long long)o.v, tag, (unsigned long long)bits); finish("MISMATCH", m, 6); }
}
void knpsym_reach(const char *) {}
void knpsym_expect(const char *) {}
unsigned long knpsym_param(unsigned i) { return i < params.size() ? params[i] : 0; }
int knpsym_is_symbolic() { return 0; }
static bool sym_random = false;
void knpsym_symbolic_random(int on) { sym_random = on; }
ssize_t getrandom(void *buf, size_t n, unsigned) {
  for (size_t i = 0; i < n; i += 8) {
    if (sym_random) { knpsym_make((char *)buf + i, n - i < 8 ? n - i : 8, "random"); continue; }
    uint64_t z = (prng += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    z ^= z >> 31;
    memcpy((char *)buf + i, &z, n - i < 8 ? n - i : 8);
  }
  return n;
}
void knp_harness();
}
int main(int argc, char **argv) {
  if (argc < 2) { fprintf(stderr, "usage: %s REPLAY-FILE\n", argv[0]); return 9; }
  load(argv[1]);
  sem_init(&th[0].sem, 0, 0);
  std::set_terminate([] {
    std::string m = "terminate";
    if (auto e = std::current_exception()) try { std::rethrow_exception(e); } catch (std::exception &x) { m = std::string("uncaught exception: ") + x.what(); } catch (...) { m = "uncaught exception"; }
    finish("CRASH", m, 5);
  });
  for (unsigned long n = 0; n <= knpsym_param(15); n++) knp_harness();
  if (!real_threads && status == "completed" && op != obs.size()) finish("MISMATCH", "fewer observations than recorded", 6);
  finish("COMPLETED", "", 0);
}

// C16: the thread pool. params: 0 threads, 1 tasks, 2 nested posting, 3 rounds of posting and joining
#include "knpsym.h"
#include <knp/backends/thread_pool/thread_pool.h>
using Pool = knp::backends::cpu_executors::ThreadPool;
using Context = knp::backends::cpu_executors::ThreadPoolContext;
using Executor = knp::backends::cpu_executors::ThreadPoolExecutor;
static constexpr size_t MAX = 16;
struct Log {
  unsigned runs[MAX] = {};
  size_t posted = 0;
};
static void check_all(const Log &l) {
  for (size_t i = 0; i < l.posted; i++) {
    ks::check(l.runs[i] != 0, "every task posted before join is executed when join returns");
    ks::check(l.runs[i] < 2, "no task is executed twice");
  }
}
// A task that posts `children` further tasks while it runs.
template <class Post> static void post_task(Post &post, Log &l, std::mutex &m, unsigned children) {
  size_t id;
  { std::lock_guard g(m); id = l.posted++; }
  post([&post, &l, &m, id, children] {
    { std::lock_guard g(m); l.runs[id]++; }
    for (unsigned c = 0; c < children; c++) { ks::reach("nested"); post_task(post, l, m, 0); }
  });
}
static void pool_rounds(size_t threads, size_t tasks, size_t nested, size_t rounds, bool last_join) {
  Log l;
  std::mutex m;
  {
    Pool pool(threads);
    auto post = [&pool](auto f) { pool.post(f); };
    for (size_t r = 0; r < rounds; r++) {
      const size_t n = ks::choose(tasks + 1, "tasks");
      for (size_t i = 0; i < n; i++) {
        const uint8_t shape = nested ? ks::range(0, nested, "children") : 0;
        unsigned children = 0;
        while (children < shape) children++;
        post_task(post, l, m, children);
      }
      if (r + 1 < rounds || last_join) { pool.join(); check_all(l); ks::reach("joined"); }
    }
  }
  check_all(l);
}
// Two executors of one context: each one waits for its own tasks.
static void executors(size_t threads, size_t tasks) {
  Context context(threads);
  Log a, b;
  std::mutex m;
  {
    Executor ea(context);
    {
      Executor eb(context);
      auto pa = [&ea](auto f) { boost::asio::post(ea, f); };
      auto pb = [&eb](auto f) { boost::asio::post(eb, f); };
      for (size_t i = 0; i < tasks; i++)
        if (ks::choose(2, "executor")) post_task(pb, b, m, 0); else post_task(pa, a, m, 0);
      if (ks::choose(2, "first")) { ea.join(); check_all(a); }
      else { eb.join(); check_all(b); }
    }
    check_all(b);
  }
  check_all(a);
}
extern "C" void knp_harness() {
  const size_t mode = knpsym_param(4);
  ks::expect("done");
  if (mode == 1) executors(knpsym_param(0), knpsym_param(1));
  else { ks::expect("joined"); if (knpsym_param(2)) ks::expect("nested"); pool_rounds(knpsym_param(0), knpsym_param(1), knpsym_param(2), knpsym_param(3), ks::choose(2, "join")); }
  ks::reach("done");
}

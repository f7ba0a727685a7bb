// Mutexes, condition variables and threads on top of the scheduler of the engine. The same code is linked into the
// native replay program, where native.cpp gives the three scheduling primitives.
#include <condition_variable>
#include <mutex>
#include <thread>
#include <pthread.h>
#include <cerrno>
#include <cstdint>
extern "C" {
void knpsym_yield();
void knpsym_block(void *addr, unsigned val);
int knpsym_thread_create(void (*fn)(void *), void *arg);
int knpsym_thread_done(int id);
int knpsym_self();
unsigned knpsym_choose(unsigned n, const char *name);
void knpsym_acquire(void *p);
void knpsym_release(void *p);
void knpsym_unwatched(int d);
}
// The model's own data is not part of the code under test.
struct Unwatched { Unwatched() { knpsym_unwatched(1); } ~Unwatched() { knpsym_unwatched(-1); } };
extern "C" {
struct KMutex { uint32_t locked, owner, depth; };  // in pthread_mutex_t; the kind field is at offset 16
static_assert(sizeof(KMutex) <= 16);
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) noexcept { __builtin_memset(m, 0, sizeof *m); return 0; }
int pthread_mutex_destroy(pthread_mutex_t *) noexcept { return 0; }
int pthread_mutex_lock(pthread_mutex_t *p) noexcept {
  Unwatched u;
  KMutex *m = (KMutex *)p;
  if (m->locked && m->owner == (uint32_t)knpsym_self() && p->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) { m->depth++; return 0; }
  knpsym_yield();
  while (m->locked) knpsym_block(&m->locked, 1);
  m->locked = 1;
  m->owner = knpsym_self();
  m->depth = 1;
  knpsym_acquire(p);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *p) noexcept {
  Unwatched u;
  KMutex *m = (KMutex *)p;
  knpsym_yield();
  if (m->locked) return EBUSY;
  m->locked = 1;
  m->owner = knpsym_self();
  m->depth = 1;
  knpsym_acquire(p);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *p) noexcept {
  Unwatched u;
  knpsym_release(p);
  KMutex *m = (KMutex *)p;
  if (--m->depth) return 0;
  m->locked = 0;
  return 0;
}
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) noexcept { __builtin_memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t *) noexcept { return 0; }
}
namespace {
struct Waiter { void *cond; uint32_t waiting; };
constexpr int MAXW = 16;
Waiter waiters[MAXW];
}
namespace std {
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept {}
void condition_variable::wait(unique_lock<mutex> &l) {
  Unwatched u;
  int i = 0;
  while (i < MAXW && waiters[i].cond) i++;
  if (i == MAXW) __builtin_trap();
  waiters[i].cond = this;
  waiters[i].waiting = 1;
  pthread_mutex_unlock(l.mutex()->native_handle());
  while (waiters[i].waiting) knpsym_block(&waiters[i].waiting, 1);
  waiters[i].cond = nullptr;
  pthread_mutex_lock(l.mutex()->native_handle());
}
void condition_variable::notify_one() noexcept {
  Unwatched u;
  int n = 0;
  for (int i = 0; i < MAXW; i++) n += waiters[i].cond == this && waiters[i].waiting;
  if (!n) return;
  int k = n > 1 ? knpsym_choose(n, "wake") : 0;
  for (int i = 0; i < MAXW; i++) if (waiters[i].cond == this && waiters[i].waiting && k-- == 0) { waiters[i].waiting = 0; return; }
}
void condition_variable::notify_all() noexcept {
  Unwatched u;
  for (int i = 0; i < MAXW; i++) if (waiters[i].cond == this) waiters[i].waiting = 0;
}
namespace {
void start_state(void *p) {
  unique_ptr<thread::_State> s((thread::_State *)p);
  s->_M_run();
  knpsym_release((void *)(uintptr_t)(knpsym_self() + 1));
}
}
void thread::_M_start_thread(_State_ptr state, void (*)()) {
  int id = knpsym_thread_create(start_state, state.release());
  _M_id._M_thread = (unsigned long)id + 1;
}
void thread::join() {
  int id = (int)(_M_id._M_thread - 1);
  knpsym_yield();
  while (!knpsym_thread_done(id)) knpsym_yield();
  knpsym_acquire((void *)(uintptr_t)(id + 1));
  _M_id = thread::id();
}
void thread::detach() { _M_id = thread::id(); }
thread::_State::~_State() = default;
unsigned thread::hardware_concurrency() noexcept { return 2; }
}

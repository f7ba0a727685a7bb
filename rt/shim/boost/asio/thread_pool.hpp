// A thread pool with the interface the repository uses of boost::asio::thread_pool: `n` threads that run posted functions in order.
#pragma once
#include <condition_variable>
#include <functional>
#include <memory>
#include <mutex>
#include <queue>
#include <thread>
#include <vector>
extern "C" {
void knpsym_yield();
int knpsym_thread_create(void (*fn)(void *), void *arg);
int knpsym_thread_done(int id);
void knpsym_block(void *addr, unsigned val);
void knpsym_acquire(void *p);
void knpsym_release(void *p);
void knpsym_unwatched(int d);
}
namespace boost::asio {
class thread_pool {
 public:
  explicit thread_pool(std::size_t n) : limit_(n) {}
  thread_pool(const thread_pool &) = delete;
  ~thread_pool() { join(); }
  template <class F> void post(F f) {
    knpsym_unwatched(1);
    waiting_.push(std::make_unique<Impl<F>>(std::move(f)));
    if (running_ < limit_) { running_++; busy_ = 1; knpsym_thread_create(&thread_pool::run, this); }
    knpsym_unwatched(-1);
    knpsym_release(this);
  }
  void join() {
    knpsym_unwatched(1);
    while (busy_) knpsym_block(&busy_, 1);
    knpsym_unwatched(-1);
    knpsym_acquire(this);
  }
 private:
  struct Base { virtual void call() = 0; virtual ~Base() = default; };
  template <class F> struct Impl : Base { F f; explicit Impl(F &&x) : f(std::move(x)) {} void call() override { f(); } };
  static void run(void *p) {
    auto *self = static_cast<thread_pool *>(p);
    knpsym_unwatched(1);
    while (!self->waiting_.empty()) {
      auto f = std::move(self->waiting_.front());
      self->waiting_.pop();
      knpsym_acquire(self);
      knpsym_unwatched(-1);
      f->call();
      knpsym_unwatched(1);
    }
    knpsym_release(self);
    if (--self->running_ == 0) self->busy_ = 0;
  }
  std::size_t limit_, running_ = 0;
  unsigned busy_ = 0;
  std::queue<std::unique_ptr<Base>> waiting_;
};
template <class F> void post(thread_pool &p, F f) { p.post(std::move(f)); }
// boost::asio::post keeps a copy of the executor for the duration of the call.
template <class Ex, class F> auto post(const Ex &ex, F f) -> decltype(ex.post(std::move(f), std::allocator<void>())) { Ex copy(ex); copy.post(std::move(f), std::allocator<void>()); }
}  // namespace boost::asio

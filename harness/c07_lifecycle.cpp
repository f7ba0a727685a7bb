// C07: start, predicates, step counter, stop and failing steps.
// params: 0 sessions, 1 steps of a session at most
#include <knp/core/backend.h>
#include "knpsym.h"
#include <stdexcept>
// an error of one of several types, one of them no standard exception
[[noreturn]] static void fail(int what) {
  if (ks::sym<bool>("plain")) throw what;
  throw std::invalid_argument(what == 1 ? "1" : what == 2 ? "2" : what == 3 ? "3" : "4");
}
struct Plan {  // what happens at each call
  bool stop, fail;
};
struct B : knp::core::Backend {
  enum { init, pre, step, post } next_ = pre;
  size_t inits = 0, steps = 0;
  bool init_fails = false, initialised = false, uninit_ok = false;
  std::vector<Plan> plan;
  size_t at = 0;
  bool in_step = false;
  bool plasticity_supported() const override { return false; }
  std::vector<std::string> get_supported_neurons() const override { return {}; }
  std::vector<std::string> get_supported_synapses() const override { return {}; }
  std::vector<size_t> get_supported_population_indexes() const override { return {}; }
  std::vector<size_t> get_supported_projection_indexes() const override { return {}; }
  void load_all_projections(const std::vector<knp::core::AllProjectionsVariant> &) override {}
  void load_all_populations(const std::vector<knp::core::AllPopulationsVariant> &) override {}
  void remove_projections(const std::vector<knp::core::UID> &) override {}
  void remove_populations(const std::vector<knp::core::UID> &) override {}
  std::vector<std::unique_ptr<knp::core::Device>> get_devices() const override { return {}; }
  void stop_learning() override {}
  void start_learning() override {}
  DataRanges get_network_data() const override { return {}; }
  void _init() override {
    ks::check(!running(), "a backend is initialised before it runs");
    ks::check(!initialised, "initialisation happens once");
    inits++;
    if (init_fails) fail(1);
    initialised = true;
  }
  void _step() override {
    ks::check(initialised, "a step needs an initialised backend");
    ks::check(running(), "the backend runs while a step is executed");
    ks::check(at < plan.size(), "no step without a decision for it");
    if (at >= plan.size()) { stop(); return; }
    Plan p = plan[at++];
    steps_called++;
    if (p.fail) fail(2);
    ks::check(gad_step() == steps, "the step counter counts the executed steps");
    steps++;
    if (p.stop) { stop(); ks::check(!running(), "stop ends the run"); }
  }
  size_t steps_called = 0;
};
extern "C" void knp_harness() {
  const size_t sessions = knpsym_param(0), maxsteps = knpsym_param(1);
  B b;
  ks::check(!b.running() && b.get_step() == 0, "a new backend is not running and has made no step");
  for (size_t s = 0; s < sessions; s++) {
    const unsigned kind = ks::choose(3, "start_variant");
    const bool null_pre = kind == 2 && ks::choose(2, "no_pre");
    const bool null_post = kind == 2 && ks::choose(2, "no_post");
    b.init_fails = ks::sym<bool>("init_fails");
    b.plan.clear();
    b.at = 0;
    b.steps_called = 0;
    // symbolic decisions; the last step always ends the run so that every session terminates
    std::vector<uint8_t> pre_ok, post_ok, pre_throw, post_throw;
    for (size_t i = 0; i < maxsteps; i++) {
      const bool last = i + 1 == maxsteps;
      bool fail = ks::sym<bool>("step_fails");
      bool stop = ks::sym<bool>("step_stops");
      if (last) stop = true;
      b.plan.push_back({stop, fail});
      pre_ok.push_back(ks::sym<bool>("pre"));
      post_ok.push_back(ks::sym<bool>("post"));
      pre_throw.push_back(ks::sym<bool>("pre_throws"));
      post_throw.push_back(ks::sym<bool>("post_throws") & !stop);  // whether it is asked after stop is left open
    }
    const size_t base = b.steps;
    size_t pres = 0, posts = 0;
    bool pre_said_no = false, post_said_no = false;
    auto pre = [&](knp::core::Step n) {
      ks::check(!pre_said_no && !post_said_no, "no predicate call after a predicate ended the run");
      ks::check(b.running(), "the backend runs while a predicate is asked");
      ks::check(n == b.steps && n == b.get_step(), "the pre-step predicate gets the number of the step it guards");
      ks::check(pres == b.steps_called, "one pre-step predicate call for each step");
      ks::check(pres == 0 || !b.plan[pres - 1].stop, "no predicate call after stop");
      if (pres >= maxsteps) return false;
      size_t i = pres++;
      if (pre_throw[i]) fail(3);
      if (!pre_ok[i]) { pre_said_no = true; return false; }
      return true;
    };
    auto post = [&](knp::core::Step n) {
      ks::check(!pre_said_no && !post_said_no, "no predicate call after a predicate ended the run");
      ks::check(n == b.steps && n == b.get_step(), "the post-step predicate gets the number of executed steps");
      posts++;
      ks::check(posts == b.steps_called, "one post-step predicate call after each step");
      if (posts > maxsteps) return false;
      if (post_throw[posts - 1]) fail(4);
      if (!post_ok[posts - 1]) { post_said_no = true; return false; }
      return true;
    };
    // what has to happen
    const bool init_throw = !b.initialised && b.init_fails;
    size_t want = 0;
    unsigned thrown = init_throw ? 1 : 0;
    const bool has_pre = kind == 1 || (kind == 2 && !null_pre), has_post = kind == 2 && !null_post;
    size_t calls = 0;
    if (!init_throw)
      for (size_t i = 0; i < maxsteps; i++) {
        if (has_pre) {
          if (pre_throw[i]) { thrown = 3; break; }
          if (!pre_ok[i]) break;
        }
        calls++;
        if (b.plan[i].fail) { thrown = 2; break; }
        want++;
        if (b.plan[i].stop) break;
        if (has_post && post_throw[i]) { thrown = 4; break; }
        if (has_post && !post_ok[i]) break;
      }
    unsigned got = 0;
    const size_t inits = b.inits;
    const bool was = b.initialised;
    try {
      if (kind == 0) b.start();
      else if (kind == 1) b.start(pre);
      else b.start(null_pre ? knp::core::Backend::RunPredicate() : knp::core::Backend::RunPredicate(pre), null_post ? knp::core::Backend::RunPredicate() : knp::core::Backend::RunPredicate(post));
    } catch (int e) { got = e; }
    catch (const std::invalid_argument &e) { got = e.what()[0] - '0'; }
    ks::check(got == thrown, "exactly the errors of steps, predicates and initialisation come out of start");
    ks::check(b.inits == inits + (was ? 0 : 1), "start initialises exactly when needed");
    ks::check(b.steps == base + want && b.steps_called == calls, "exactly the accepted steps are executed");
    ks::check(b.get_step() == b.steps, "the step counter is the number of executed steps");
    ks::check(!b.running(), "after start has returned or failed the backend is not running");
    b.stop();
    ks::check(!b.running(), "stop on a stopped backend changes nothing");
    if (ks::choose(2, "uninit")) {
      b._uninit();
      b.initialised = false;
      ks::check(!b.running() && b.get_step() == b.steps, "uninitialising does not change the counter");
    }
    if (want) ks::reach("steps");
    if (thrown) ks::reach("error");
  }
  ks::expect("steps");
  ks::expect("error");
}

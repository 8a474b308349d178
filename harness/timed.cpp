// exec::timed_thread_context and the timed scheduler operations
#include "vp.hpp"
#include <exec/timed_thread_scheduler.hpp>
#include <exec/timed_scheduler.hpp>
using namespace vp;
using C   = exec::timed_thread_context;
using clk = std::chrono::steady_clock;
static long now() { return (long) vp_clock(); }
static clk::time_point tp(long ns) { return clk::time_point{clk::duration{ns}}; }
static char ticket, plain_[2]; static long plain[2];

// an operation destroyed in its completion, which then signals. Virtual time passes only while
// nothing can run.
template <class S, class Env = ex::env<>>
struct trun {
  using R = rcv<Env, ex::completion_signatures_of_t<S, Env>>;
  obs o; rcv_hooks h; box<ex::connect_result_t<S, R>> b; char done, when, order; void (*then)(void*) = nullptr; void* arg = nullptr; long sum = 0; box<ex::inplace_stop_source>* src = nullptr;
  explicit trun(S s, Env e = {}) : h{&o, &after, this} { b.emplace_from([&] { return ex::connect(static_cast<S&&>(s), R{&h, static_cast<Env&&>(e)}); }); }
  static void after(void* p) { auto* q = static_cast<trun*>(p); q->sum += plain[0]; vp_set(&q->when, now()); vp_set(&q->order, vp_add(&ticket, 1)); if (q->src) q->src->destroy(); q->b.destroy(); if (q->then) q->then(q->arg); vp_event_set(&q->done); }
  void start() noexcept { ex::start(b.get()); }
  void wait() { vp_event_wait(&done); o.expect_once(); }
  long at() const { return vp_get(&when); }
  long nth() const { return vp_get(&order); }
  void expect_at(long t) { wait(); vp_check(o.ch() == value, "a timed operation completes with set_value"); vp_check(at() >= t, "not before its time"); vp_check(at() <= t, "and without delay"); vp_check(o.thread() != 0, "on the context's thread"); }
};
template <class S> trun(S) -> trun<S>;
template <class S, class E> trun(S, E) -> trun<S, E>;

VP_TEST(unused) { C c; auto s = c.get_scheduler(); vp_check(s == c.get_scheduler(), "schedulers of one context compare equal"); vp_check((long) exec::now(s).time_since_epoch().count() == now(), "now() is the steady clock"); }
VP_TEST(different) { C a, b; vp_check(!(a.get_scheduler() == b.get_scheduler()), "schedulers of two contexts differ"); }
VP_TEST(attrs) { C c; auto s = c.get_scheduler(); vp_check(ex::get_completion_scheduler<ex::set_value_t>(ex::get_env(s.schedule())) == s, "completes on its scheduler"); vp_check(ex::get_completion_scheduler<ex::set_value_t>(ex::get_env(exec::schedule_after(s, clk::duration{5}))) == s, "completes on its scheduler"); }
VP_TEST(at_once) { vp_config("preempt", 3); C c; trun r{c.get_scheduler().schedule()}; long t = now(); r.start(); r.expect_at(t); }
VP_TEST(at_a_time) {
  vp_config("preempt", 2);
  C c; long t = now(); long d = vp_choose(3, "when") * 1000 - 1000; trun r{exec::schedule_at(c.get_scheduler(), tp(t + d))}; r.start(); r.expect_at(d < 0 ? t : t + d);
}
VP_TEST(after) {
  vp_config("preempt", 1);
  C c; long t = now(); trun r{exec::schedule_after(c.get_scheduler(), clk::duration{3000000000})}; r.start(); r.expect_at(t + 3000000000);
}
VP_TEST(in_order) {
  C c; auto s = c.get_scheduler(); long t = now(); long a = vp_choose(3, "first's time"), b = vp_choose(3, "second's time"), d = vp_choose(2, "third's time");
  trun x{exec::schedule_at(s, tp(t + 10 * a))}, y{exec::schedule_at(s, tp(t + 10 * b))}, z{exec::schedule_at(s, tp(t + 10 * d))};
  x.start(); y.start(); z.start(); x.expect_at(t + 10 * a); y.expect_at(t + 10 * b); z.expect_at(t + 10 * d);
  vp_check(a > b ? x.nth() > y.nth() : true, "earlier times complete first"); vp_check(a < b ? x.nth() < y.nth() : true, "earlier times complete first");
  vp_check(b > d ? y.nth() > z.nth() : true, "earlier times complete first"); vp_check(b < d ? y.nth() < z.nth() : true, "earlier times complete first");
  if (a == b && a != 0) vp_check(x.nth() < y.nth(), "equal times complete in the order they were started");
  if (b == d && b != 0) vp_check(y.nth() < z.nth(), "equal times complete in the order they were started");
}
VP_TEST(two_submitters) {            // and something far away that must not delay them
  vp_config("preempt", 3);
  C c; auto s = c.get_scheduler(); long t = now(); static decltype(s)* SP; SP = &s; static long T; T = t;
  int j = vp_spawn([](void*) { trun b{SP->schedule()}; b.start(); b.expect_at(T); }, nullptr, "second submitter");
  trun a{s.schedule()}; a.start(); a.expect_at(t); vp_join(j);
}
VP_TEST(three_submitters) {
  vp_config("preempt", 2);
  C c; auto s = c.get_scheduler(); long t = now(); static decltype(s)* SP; SP = &s; static long T; T = t;
  int j[2]; for (int i = 0; i < 2; ++i) j[i] = vp_spawn([](void*) { trun b{SP->schedule()}; b.start(); b.expect_at(T); }, nullptr, "another submitter");
  trun a{s.schedule()}; a.start(); a.expect_at(t); vp_join(j[0]); vp_join(j[1]);
}
VP_TEST(behind_a_far_one) {
  vp_config("preempt", 2);
  C c; auto s = c.get_scheduler(); long t = now(); trun far{exec::schedule_at(s, tp(t + 9000000000000))}, near{exec::schedule_at(s, tp(t + 500))};
  far.start(); near.start(); near.expect_at(t + 500); trun soon{s.schedule()}; soon.start(); soon.expect_at(t + 500); far.expect_at(t + 9000000000000);
}
VP_TEST(from_a_completion) {
  vp_config("preempt", 1);
  C c; auto s = c.get_scheduler(); long t = now(); trun a{exec::schedule_at(s, tp(t + 10))}, b{exec::schedule_at(s, tp(t + 10))}; static decltype(b)* B; B = &b;
  a.then = [](void*) { B->start(); }; a.start(); a.expect_at(t + 10); b.expect_at(t + 10);
}
// ---- stop -----------------------------------------------------------------------------------
VP_TEST(already_stopped) {
  C c; auto s = c.get_scheduler(); ex::inplace_stop_source src; src.request_stop(); long t = now();
  trun a{exec::schedule_at(s, tp(t + 1000)), stop_env{src.get_token()}}; a.start(); a.wait(); vp_check(a.o.ch() == stopped, "a stopped operation completes with set_stopped"); vp_check(a.at() == t, "without waiting for its time");
}
template <class A> static void one_stop(A& a, long t, long d) { a.wait(); if (a.o.ch() == stopped) vp_check(a.at() <= t + d, "a stopped operation completes without waiting"); else { vp_check(a.o.ch() == value, "a timed operation completes with set_value or set_stopped"); vp_check(a.at() >= t + d, "not before its time"); } }
VP_TEST(stop_while_waiting) {
  vp_config("preempt", 2);
  C c; auto s = c.get_scheduler(); ex::inplace_stop_source src; long t = now();
  trun a{exec::schedule_at(s, tp(t + 9000000000000)), stop_env{src.get_token()}}; a.start(); src.request_stop(); a.wait(); vp_check(a.o.ch() == stopped, "a stopped operation completes with set_stopped"); vp_check(a.at() == t, "without waiting for its time");
}
VP_TEST(stop_racing_start) {
  vp_config("preempt", 3);
  C c; auto s = c.get_scheduler(); static ex::inplace_stop_source* S; ex::inplace_stop_source src; S = &src; long t = now();
  trun a{exec::schedule_at(s, tp(t + 9000000000000)), stop_env{src.get_token()}}; int j = vp_spawn([](void*) { S->request_stop(); }, nullptr, "stopper");
  a.start(); a.wait(); vp_check(a.o.ch() == stopped, "a stopped operation completes with set_stopped"); vp_check(a.at() == t, "without waiting for its time"); vp_join(j);
}
VP_TEST(stop_racing_completion) {
  vp_config("preempt", 3);
  C c; auto s = c.get_scheduler(); static ex::inplace_stop_source* S; ex::inplace_stop_source src; S = &src; long t = now();
  trun a{s.schedule(), stop_env{src.get_token()}}; int j = vp_spawn([](void*) { S->request_stop(); }, nullptr, "stopper");
  a.start(); a.wait(); vp_check(a.at() == t, "without delay"); vp_check(a.o.ch() == value || a.o.ch() == stopped, "completes with set_value or set_stopped"); vp_join(j);
}
VP_TEST(stop_one_of_two) {
  vp_config("preempt", 1);
  C c; auto s = c.get_scheduler(); ex::inplace_stop_source src; long t = now(); bool first = vp_choose(2, "which");
  trun a{exec::schedule_at(s, tp(t + 100)), stop_env{src.get_token()}}; trun b{exec::schedule_at(s, tp(t + 100 + (first ? 50 : -50)))}; a.start(); b.start(); src.request_stop();
  a.wait(); vp_check(a.o.ch() == stopped && a.at() == t, "a stopped operation completes at once with set_stopped"); b.expect_at(t + 100 + (first ? 50 : -50));
}
VP_TEST(stop_from_a_completion) {
  vp_config("preempt", 1);
  C c; auto s = c.get_scheduler(); static ex::inplace_stop_source* S; ex::inplace_stop_source src; S = &src; long t = now(); long d = vp_choose(2, "same time") ? 10 : 9000000000000;
  trun b{exec::schedule_at(s, tp(t + 10))}; b.then = [](void*) { S->request_stop(); }; trun a{exec::schedule_at(s, tp(t + d)), stop_env{src.get_token()}}; b.start(); a.start();
  b.expect_at(t + 10); a.wait(); vp_check(a.at() == t + 10, "without waiting for its time"); vp_check(a.o.ch() == stopped || (d == 10 && a.o.ch() == value), "a stopped operation completes with set_stopped");
}
// the stop source may end with the operation: nothing is registered with it at the completion any more
VP_TEST(stop_source_ends) {
  vp_config("preempt", 1); int k = vp_choose(4, "what ends the operation");
  box<C> c; ::new ((void*) c.mem) C; c.full = true; auto s = c.get().get_scheduler(); long t = now(); static box<ex::inplace_stop_source>* S; box<ex::inplace_stop_source> src; ::new ((void*) src.mem) ex::inplace_stop_source; src.full = true; S = &src;
  if (k == 0) src.get().request_stop();
  trun b{exec::schedule_at(s, tp(t + 10))}; b.then = [](void*) { S->get().request_stop(); };
  trun a{exec::schedule_at(s, tp(t + (k == 1 ? 20 : 9000000000000))), stop_env{src.get().get_token()}}; a.src = &src; if (k == 3) b.start(); a.start(); if (k == 2) c.destroy();
  a.wait(); vp_check(a.o.ch() == (k == 1 ? value : stopped), "the outcome"); if (k == 3) b.wait(); else b.b.destroy(); if (k != 2) c.destroy();
}
// ---- the context goes away ------------------------------------------------------------------
VP_TEST(destroyed_with_one_waiting) {
  vp_config("preempt", 3);
  box<C> c; ::new ((void*) c.mem) C; c.full = true; long t = now(); trun a{exec::schedule_at(c.get().get_scheduler(), tp(t + 9000000000000))}; a.start(); c.destroy();
  a.wait(); vp_check(a.o.ch() == stopped, "what still waits when the context is destroyed is stopped"); vp_check(a.at() == t, "at once");
}
VP_TEST(destroyed_with_two_waiting) {
  vp_config("preempt", 2);
  box<C> c; ::new ((void*) c.mem) C; c.full = true; long t = now(); trun a{exec::schedule_at(c.get().get_scheduler(), tp(t + 9000000000000))}, b{c.get().get_scheduler().schedule()}; b.start(); a.start(); c.destroy();
  a.wait(); b.wait(); vp_check(a.o.ch() == stopped, "what still waits when the context is destroyed is stopped"); vp_check(a.at() == t && b.at() == t, "at once");
}
VP_TEST(destroyed_while_stopping) {
  vp_config("preempt", 3);
  box<C> c; ::new ((void*) c.mem) C; c.full = true; static ex::inplace_stop_source* S; ex::inplace_stop_source src; S = &src; long t = now();
  trun a{exec::schedule_at(c.get().get_scheduler(), tp(t + 9000000000000)), stop_env{src.get_token()}}; a.start(); int j = vp_spawn([](void*) { S->request_stop(); }, nullptr, "stopper"); c.destroy();
  a.wait(); vp_check(a.o.ch() == stopped, "what still waits when the context is destroyed is stopped"); vp_check(a.at() == t, "at once"); vp_join(j);
}
VP_TEST(destroyed_while_starting) {      // started from a completion on the context's own thread while the context is going away
  vp_config("preempt", 2);
  box<C> c; ::new ((void*) c.mem) C; c.full = true; long t = now(); auto s = c.get().get_scheduler(); trun a{exec::schedule_at(s, tp(t + 10))}, b{exec::schedule_at(s, tp(t + 9000000000000))}; static decltype(b)* B; B = &b;
  a.then = [](void*) { B->start(); }; a.start(); c.destroy(); a.wait(); b.wait(); vp_check(b.o.ch() == stopped, "what is started on a stopping context is stopped"); vp_check(b.at() == t && a.at() == t, "at once");
}
VP_TEST(destroyed_once_completed) {      // by the time the operation completes, start may not have returned on the thread that called it
  vp_config("preempt", 2);
  box<C> c; ::new ((void*) c.mem) C; c.full = true; auto s = c.get().get_scheduler(); trun a{s.schedule()}; static decltype(a)* A; A = &a;
  int j = vp_spawn([](void*) { A->start(); }, nullptr, "submitter"); a.wait(); c.destroy(); vp_check(a.o.ch() == value, "completed"); vp_join(j);
}
VP_TEST(published) {                     // what was written before start is visible to the completion
  vp_config("preempt", 1);
  C c; trun a{c.get_scheduler().schedule()}; plain[0] = 7; a.start(); a.wait(); vp_check(a.sum == 7, "what was written before start is visible"); plain[0] = 8;
}
// ---- schedulers with only one of the two operations --------------------------------------------
template <bool At> struct half {
  using scheduler_concept = ex::scheduler_tag;
  auto schedule() const noexcept { return snd<0, m_inline, V0>{}; }
  auto now() const noexcept { return tp(5000); }
  auto schedule_at(clk::time_point t) const noexcept requires At { vp_set(&ticket, (long) t.time_since_epoch().count()); return snd<0, m_any, V0, EE, SS>{}; }
  auto schedule_after(clk::duration d) const noexcept requires(!At) { vp_set(&ticket, (long) d.count()); return snd<0, m_any, V0, EE, SS>{}; }
  bool operator==(const half&) const noexcept = default;
};
template <class S> static void half_way(S s, long want, bool lazily) {
  run r{s}; if (lazily) vp_check(vp_get(&ticket) == 0, "nothing happens before start"); r.start(); vp_check(vp_get(&ticket) == want, "the time point and the duration agree with now()"); if (kids[0].pending()) fire(0); r.o.expect_once(); vp_check(r.o.ch() == kids[0].ch(), "completes as the wrapped operation");
}
VP_TEST(after_from_at) { half_way(exec::schedule_after(half<true>{}, clk::duration{37}), 5037, true); }
VP_TEST(at_from_after) { half_way(exec::schedule_at(half<false>{}, tp(5037)), 37, true); }

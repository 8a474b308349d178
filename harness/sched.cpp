// continues_on, schedule_from, starts_on, on, affine, unstoppable
#include "vp.hpp"
using namespace vp;

// a child (kid 0) and a target scheduler (kid 1)
template <class S> static void drive(S s, bool reverse = false) {
  run r{std::move(s)};
  r.o.expect_none();
  r.start();
  for (int i = 0; i < 4; ++i) for (int k = 0; k < 4; ++k) fire(reverse ? 3 - k : k);
  r.o.expect_once();
}
template <class T> struct one_run { };

template <class Sch, class S> static void check_continues(S s, Sch sc, bool may_throw = false) {
  run r{ex::continues_on(std::move(s), sc)};
  r.o.expect_none();
  vp_check(kids[0].started() == 0 && kids[1].started() == 0, "nothing runs before start");
  r.start();
  if (!kids[0].completed()) { r.o.expect_none(); vp_check(kids[1].started() == 0, "the scheduler is used only after the child completed"); fire(0); }
  vp_check(kids[0].connected() == 1 && kids[1].connected() == 1, "each part is connected once");
  if (may_throw && r.o.n() && kids[1].started() == 0) { bool ok = r.o.ch() == error && r.o.ctx() == 0; vp_check(ok, "only a failed copy may complete without using the scheduler"); return; }
  if (!kids[1].completed()) { r.o.expect_none(); fire(1); }
  r.o.expect_once();
  vp_check(r.o.ctx() == 1, "the completion is delivered from the scheduler's context");
  if (kids[1].ch() == value) {
    vp_check(r.o.ch() == kids[0].ch(), "the child's channel is delivered");
    if (kids[0].ch() != stopped && r.o.nargs()) vp_check(r.o.p() == kids[0].pay(), "the child's datum is delivered");
  } else { vp_check(r.o.ch() == kids[1].ch(), "the scheduler's own failure is delivered"); if (kids[1].ch() == error) vp_check(r.o.p() == kids[1].pay(), "the scheduler's error is delivered"); }
}
VP_TEST(continues_on) { check_continues(snd<0, m_any, V0, VL, EE, SS>{}, sch<1, m_any, V0>{}); }
VP_TEST(continues_on_values) { check_continues(snd<0, m_any, VV, EP, SS>{}, sch<1, m_any, V0, EE, SS>{}); }
VP_TEST(continues_on_throwing) { check_continues(snd<0, m_any, VT, EE>{}, sch<1, m_any, V0, SS>{}, true); }
VP_TEST(continues_on_pipe) { 
  run r{snd<0, m_any, VV>{} | ex::continues_on(sch<1, m_any, V0>{})}; r.start(); fire(0); fire(1); r.o.expect_once(); r.o.expect_value(kids[0].pay()); vp_check(r.o.ctx() == 1, "the completion is delivered from the scheduler's context"); }
static void t1(void*) { fire_started(1); }
static void t0(void*) { fire_started(0); }
template <class S> static void two_threads(S s) {
  vp_config("preempt", 2);
  run r{std::move(s)};
  vp_spawn(t0, nullptr, "child"); vp_spawn(t1, nullptr, "scheduler");
  r.start();
  vp_join_all();
  r.o.expect_once();
}
VP_TEST(continues_on_race) { two_threads(ex::continues_on(snd<0, m_later, VV, EE, SS>{}, sch<1, m_later, V0, SS>{})); }
VP_TEST(starts_on_race) { two_threads(ex::starts_on(sch<0, m_later, V0>{}, snd<1, m_later, VV, EE, SS>{})); }
VP_TEST(then_chain_context) {        // work chained after continues_on runs on the scheduler
  long where = -5;
  run r{snd<0, m_any, VL>{} | ex::continues_on(sch<1, m_any, V0>{}) | ex::then([&](long v) { where = ctx(); return v + 1; })};
  r.start(); fire(0); fire(1);
  r.o.expect_once(); vp_check(where == 1, "work after continues_on runs on the scheduler"); r.o.expect_value(kids[0].pay() + 1);
}
VP_TEST(schedule_from) {
  run r{ex::schedule_from(snd<0, m_any, V0, VV, EE, SS>{})};
  r.start(); fire(0); r.o.expect_once();
  vp_check(r.o.ch() == kids[0].ch(), "schedule_from passes the completion through");
}

VP_TEST(starts_on) {
  run r{ex::starts_on(sch<0, m_any, V0, EE, SS>{}, snd<1, m_any, V0, VV, EP, SS>{})};
  r.o.expect_none();
  vp_check(kids[0].started() == 0 && kids[1].started() == 0, "nothing runs before start");
  r.start();
  if (!kids[0].completed()) { r.o.expect_none(); vp_check(kids[1].started() == 0, "the child starts only on the scheduler"); fire(0); }
  if (kids[0].ch() != value) {
    vp_check(kids[1].started() == 0, "a failed schedule does not start the child");
    r.o.expect_once(); vp_check(r.o.ch() == kids[0].ch(), "a failed schedule completes the whole"); if (r.o.ch() == error) vp_check(r.o.p() == kids[0].pay(), "the scheduler's error is delivered");
    return;
  }
  vp_check(kids[1].started() == 1, "the child is started on the scheduler");
  if (!kids[1].completed()) { r.o.expect_none(); fire(1); }
  r.o.expect_once(); vp_check(r.o.ctx() == 1, "the completion is the child's");
  vp_check(r.o.ch() == kids[1].ch(), "the child's channel is delivered");
  if (r.o.ch() != stopped && r.o.nargs()) vp_check(r.o.p() == kids[1].pay(), "the child's datum is delivered");
}
VP_TEST(starts_on_just_then) {
  long where = -5;
  run r{ex::starts_on(sch<0, m_any, V0>{}, ex::just(5) | ex::then([&](int i) { where = ctx(); return i; }))};
  r.start(); vp_check(where == -5 || kids[0].completed(), "the child runs only on the scheduler"); fire(0);
  vp_check(where == 0, "the child runs on the scheduler"); r.o.expect_once(); r.o.expect_value(5);
}
// the child sees the scheduler as the current one
VP_TEST(starts_on_env) {
  using S = sch<0, m_any, V0>;
  S s; s.tag = vp_sym("tag");
  run r{ex::starts_on(s, ex::read_env(ex::get_start_scheduler) | ex::then([&](S q) { vp_check(q == s, "the child's environment names the scheduler"); return 1; }))};
  r.start(); fire(0); r.o.expect_once(); r.o.expect_value(1);
}
struct sched_env { sch<2, m_any, V0> s; auto query(ex::get_start_scheduler_t) const noexcept { return s; } auto query(ex::get_scheduler_t) const noexcept { return s; } };
VP_TEST(on) {                       // back to the scheduler we came from
  run r{ex::on(sch<0, m_any, V0, SS>{}, snd<1, m_any, V0, VV, EE, SS>{}), sched_env{}};
  r.start();
  vp_check(kids[0].started() == 1, "on starts the child on the scheduler first");
  fire(0);
  if (kids[0].ch() == value) { vp_check(kids[1].started() == 1, "the child is started"); fire(1); }
  else vp_check(kids[1].started() == 0, "a failed schedule does not start the child");
  vp_check(kids[2].started() == 1, "then the original scheduler is used");
  if (!kids[2].completed()) { r.o.expect_none(); fire(2); }
  r.o.expect_once(); vp_check(r.o.ctx() == 2, "the completion is delivered on the original scheduler");
  int k = kids[0].ch() == value ? 1 : 0;
  vp_check(r.o.ch() == kids[k].ch(), "the child's channel is delivered");
  if (r.o.ch() != stopped && r.o.nargs()) vp_check(r.o.p() == kids[k].pay(), "the child's datum is delivered");
}
// a child that completes on scheduler 3
struct on3 : snd<1, m_any, VV, SS> { auto get_env() const noexcept { return sch<3, m_any, V0>::env{}; } };
VP_TEST(on_closure) {
  long where = -5, got = 0;
  run r{ex::on(on3{}, sch<0, m_any, V0>{}, ex::then([&](val v) { where = ctx(); got = v.v; return 9L; })), sched_env{}};
  r.start(); fire(1);
  if (!kids[0].completed() || !kids[3].completed()) r.o.expect_none();
  vp_check(kids[0].started() == 1, "the closure's scheduler is entered after the child");
  vp_check(kids[0].completed() || where == -5, "the closure waits for its scheduler");
  fire(0);
  if (kids[1].ch() == value) { vp_check(where == 0, "the closure runs on its scheduler"); vp_check(got == kids[1].pay(), "the closure receives the child's value"); }
  vp_check(kids[3].started() == 1 && kids[2].started() == 0, "then back to the child's completion scheduler");
  fire(3); r.o.expect_once(); vp_check(r.o.ctx() == 3, "the completion is delivered where the child completed");
  if (kids[1].ch() == value) r.o.expect_value(9); else r.o.expect_stopped();
}
VP_TEST(affine) {
  run r{ex::affine(snd<1, m_any, V0, VV, EE, SS>{}), sched_env{}};
  r.start(); fire(1);
  vp_check(kids[2].started() == 1, "an affine sender reschedules onto the starting scheduler");
  if (!kids[2].completed()) { r.o.expect_none(); fire(2); }
  r.o.expect_once(); vp_check(r.o.ctx() == 2, "the completion is delivered on the starting scheduler");
  vp_check(r.o.ch() == kids[1].ch(), "the child's channel is delivered");
  if (r.o.ch() != stopped && r.o.nargs()) vp_check(r.o.p() == kids[1].pay(), "the child's datum is delivered");
}
// a scheduler that would complete with stopped if it could see the stop request
template <int Id> struct stoppable_sch {
  using scheduler_concept = ex::scheduler_tag;
  template <class R> struct op { using operation_state_concept = ex::operation_state_tag; R r; void start() & noexcept {
    vp_set(&kids[Id].started_, 1); char* cx = &ctx_key[vp_thread_id()]; vp_set(cx, Id + 1);
    R q(std::move(r));
    if constexpr (!ex::unstoppable_token<ex::stop_token_of_t<ex::env_of_t<R>>>) { if (ex::get_stop_token(ex::get_env(q)).stop_requested()) { ex::set_stopped(std::move(q)); return; } }
    ex::set_value(std::move(q)); } };
  struct env { auto query(ex::get_completion_scheduler_t<ex::set_value_t>) const noexcept -> stoppable_sch { return {}; } };
  struct sender { using sender_concept = ex::sender_tag;
    template <class, class... E> static consteval auto get_completion_signatures() noexcept {
      if constexpr ((ex::unstoppable_token<ex::stop_token_of_t<E>> && ... && (sizeof...(E) == 1))) return ex::completion_signatures<V0>{}; else return ex::completion_signatures<V0, SS>{}; }
    template <class R> auto connect(R r) const -> op<R> { return {std::move(r)}; }
    auto get_env() const noexcept -> env { return {}; } };
  auto schedule() const noexcept -> sender { return {}; }
  bool operator==(const stoppable_sch&) const noexcept = default;
};
struct sstop_env { ex::inplace_stop_token t; auto query(ex::get_stop_token_t) const noexcept { return t; } auto query(ex::get_start_scheduler_t) const noexcept -> stoppable_sch<2> { return {}; } };
VP_TEST(affine_stop) {             // a stop request must not lose the child's result
  ex::inplace_stop_source src; if (vp_choose(2, "stop requested first")) src.request_stop();
  run r{ex::affine(snd<1, m_any, V0, VV, EE, SS>{}), sstop_env{src.get_token()}};
  r.start();
  if (!kids[1].completed()) { vp_check(stop_seen(1) == src.stop_requested(), "the child sees the stop request"); if (vp_choose(2, "stop requested later")) src.request_stop(); fire(1); }
  r.o.expect_once(); vp_check(r.o.ctx() == 2, "the completion is delivered on the starting scheduler");
  vp_check(r.o.ch() == kids[1].ch(), "the child's channel is delivered");
}
VP_TEST(continues_on_stop) {       // the schedule operation sees the receiver's token
  ex::inplace_stop_source src; if (vp_choose(2, "stop requested first")) src.request_stop();
  run r{ex::continues_on(snd<1, m_later, VL>{}, stoppable_sch<2>{}), stop_env{src.get_token()}};
  r.start(); vp_check(stop_seen(1) == src.stop_requested(), "the child sees the stop request");
  fire(1); r.o.expect_once();
  if (src.stop_requested()) r.o.expect_stopped(); else r.o.expect_value(kids[1].pay());
}
VP_TEST(unstoppable) {
  ex::inplace_stop_source src; src.request_stop();
  run r{ex::unstoppable(stoppable_sch<2>{}.schedule()), stop_env{src.get_token()}};
  r.start(); r.o.expect_once(); vp_check(r.o.ch() == value, "an unstoppable sender does not see stop requests");
}
VP_TEST(inline_scheduler) {
  run r{ex::schedule(ex::inline_scheduler{})}; r.start(); r.o.expect_once(); vp_check(r.o.ch() == value, "the inline scheduler completes with a value inside start");
}
struct throwing_sch {
  using scheduler_concept = ex::scheduler_tag;
  struct env { auto query(ex::get_completion_scheduler_t<ex::set_value_t>) const noexcept -> throwing_sch { return {}; } };
  struct sender : throwing_connect_snd<1, m_any, V0> { auto get_env() const noexcept -> env { return {}; } };
  auto schedule() const noexcept -> sender { return {}; }
  bool operator==(const throwing_sch&) const noexcept = default;
};
VP_TEST(connect_throws) {          // exceptions leave connect, with nothing started or leaked
  long e = 0;
  try { run r{ex::continues_on(throwing_connect_snd<0, m_any, VL>{}, throwing_sch{})}; r.start(); fire(0); fire(1); r.o.expect_once(); r.o.expect_value(kids[0].pay()); } catch (const err& x) { e = x.e; }
  if (e) { vp_check(e == 44 || e == 55, "the exception is passed on"); vp_check(kids[0].started() == 0 && kids[1].started() == 0, "nothing was started"); }
  vp_check(kids[0].connected() == kids[0].destroyed() && kids[1].connected() == kids[1].destroyed(), "what was connected is destroyed");
}
VP_TEST(starts_on_connect_throws) {
  long e = 0;
  try { run r{ex::starts_on(throwing_sch{}, throwing_connect_snd<0, m_any, VL>{})}; r.start(); fire(1); fire(0); r.o.expect_once();
    if (r.o.ch() == value) r.o.expect_value(kids[0].pay()); else r.o.expect_error(55); } catch (const err& x) { e = x.e; }
  if (e) { vp_check(e == 44 || e == 55, "the exception is passed on"); vp_check(kids[0].started() == 0 && kids[1].started() == 0, "nothing was started"); }
  vp_check(kids[0].connected() == kids[0].destroyed() && kids[1].connected() == kids[1].destroyed(), "what was connected is destroyed");
}
struct tc_env { sch<2, m_any, V0> s; auto query(ex::get_start_scheduler_t) const noexcept { return s; } };
VP_TEST(affine_connect_throws) {
  long e = 0;
  try { run r{ex::affine(throwing_connect_snd<1, m_any, VL>{}), sched_env{}}; r.start(); fire(1); fire(2); r.o.expect_once(); r.o.expect_value(kids[1].pay()); } catch (const err& x) { e = x.e; }
  if (e) { vp_check(e == 55, "the exception is passed on"); vp_check(kids[1].started() == 0, "nothing was started"); }
  vp_check(kids[1].connected() == kids[1].destroyed() && kids[2].connected() == kids[2].destroyed(), "what was connected is destroyed");
}
VP_TEST(affine_throwing_copy) {
  run r{ex::affine(snd<1, m_any, VT, EE>{}), sched_env{}};
  r.start(); fire(1); fire(2); r.o.expect_once();
  if (r.o.ch() == value) { r.o.expect_value(kids[1].pay()); vp_check(r.o.ctx() == 2, "the completion is delivered on the starting scheduler"); }
  else vp_check(r.o.ch() == error, "a throwing copy is an error");
}

// exec::async_scope: nest, spawn, spawn_future, when_empty / on_empty
#include "vp.hpp"
#include <atomic>
#include <exec/async_scope.hpp>
using namespace vp;
using Scope = exec::async_scope;
static long plain[4];

// an on_empty operation whose completion destroys the operation and then the scope
struct emptied {
  box<Scope> sc;
  using J = decltype(std::declval<Scope&>().on_empty());
  using R = rcv<ex::env<>, ex::completion_signatures_of_t<J, ex::env<>>>;
  obs o[2]; rcv_hooks h[2]; box<ex::connect_result_t<J, R>> op[2];
  int need = 1; std::atomic<int> done{0}; long seen[2] = {};
  emptied() { ::new ((void*) sc.mem) Scope; sc.full = true; for (int i = 0; i < 2; ++i) h[i] = {&o[i], i ? &after<1> : &after<0>, this}; }
  template <int I> static void after(void* p) {
    auto* s = static_cast<emptied*>(p);
    s->seen[I] += plain[0] + plain[1];
    s->op[I].destroy();
    if (s->done.fetch_add(1, std::memory_order_acq_rel) + 1 == s->need) s->sc.destroy();
  }
  Scope& get() { return sc.get(); }
  void wait(int i = 0) { op[i].emplace_from([&] { return ex::connect(sc.get().on_empty(), R{&h[i], {}}); }); ex::start(op[i].get()); }
  bool empty() const { return done.load(std::memory_order_relaxed) == need; }
};
static emptied* S;
static void t_fire0(void*) { plain[0] = 1; fire(0); }
static void t_fire1(void*) { plain[1] = 1; fire(1); }
static void t_stop(void*) { S->get().request_stop(); }
static void t_wait1(void*) { S->wait(1); }

VP_TEST(nest_basic) {
  emptied s;
  run r{s.get().nest(snd<0, m_any, VV, EE, SS>{})};
  if (vp_choose(2, "waits for empty before start")) { s.wait(); vp_check(s.empty(), "an operation that has not started does not count"); return; }
  r.start(); s.wait();
  if (!kids[0].completed()) { s.o[0].expect_none(); r.o.expect_none(); fire(0); }
  vp_check(s.empty(), "the scope is empty once the last nested operation has completed"); s.o[0].expect_once(); vp_check(s.o[0].ch() == value, "on_empty completes with set_value");
  r.o.expect_once(); vp_check(r.o.ch() == kids[0].ch(), "a nested sender completes as its child"); if (r.o.ch() != stopped) vp_check(r.o.p() == kids[0].pay(), "with the child's datum");
}
VP_TEST(unused) { emptied s; if (vp_choose(2, "stop")) s.get().request_stop(); if (vp_choose(2, "wait")) { s.wait(); vp_check(s.empty(), "an unused scope is empty at once"); } else s.sc.destroy(); }
VP_TEST(when_empty) {
  Scope s;
  run r{s.nest(snd<0, m_any, V0>{})}; r.start();
  { run w{s.when_empty(snd<1, m_any, VV, EE, SS>{})};
    vp_check(kids[1].connected() == 1 && kids[1].started() == 0, "the sender of when_empty is not started before start");
    w.start();
    if (!kids[0].completed()) { vp_check(kids[1].started() == 0, "nor while an operation is nested"); w.o.expect_none(); fire(0); }
    vp_check(kids[1].started() == 1, "it is started when the scope is empty");
    if (!kids[1].completed()) { w.o.expect_none(); fire(1); }
    w.o.expect_once(); vp_check(w.o.ch() == kids[1].ch(), "when_empty completes as its sender"); if (w.o.ch() != stopped) vp_check(w.o.p() == kids[1].pay(), "with its datum"); }
  { run r2{s.nest(snd<2, m_inline, V0>{})}; r2.start(); r2.o.expect_once(); }         // a scope can be used again
  run w2{s.on_empty()}; w2.start(); w2.o.expect_once();
}
VP_TEST(nest_stop) {
  Scope s;
  run r{s.nest(stop_snd<0, VV>{})};
  bool before = vp_choose(2, "stop before start"); if (before) vp_check(s.request_stop(), "the first stop request says so");
  r.start();
  if (!before) { r.o.expect_none(); s.request_stop(); }
  r.o.expect_once(); r.o.expect_stopped();
  vp_check(!s.request_stop(), "a second stop request does nothing"); vp_check(s.get_stop_token().stop_requested() && s.get_stop_source().stop_requested(), "the scope's token reports the request");
  run w{s.on_empty()}; w.start(); w.o.expect_once();
}
VP_TEST(nest_throwing_connect) {
  emptied s;
  try { run r{s.get().nest(throwing_connect_snd<0, m_any, V0>{})}; r.start(); fire(0); r.o.expect_once(); } catch (const err& e) { vp_check(e.e == 55, "the exception leaves connect"); }
  s.wait(); vp_check(s.empty(), "an exception leaves the scope empty");
}
VP_TEST(spawn) {
  long heap = vp_heap();
  emptied s;
  s.get().spawn(snd<0, m_any, V0, SS>{}); vp_check(kids[0].started() == 1, "spawn starts its sender at once");
  s.wait();
  if (!kids[0].completed()) { vp_check(!s.empty(), "a running spawned operation counts"); fire(0); }
  vp_check(s.empty(), "the scope empties when it completes"); vp_check(kids[0].destroyed() == kids[0].connected(), "the operation is destroyed"); vp_check(vp_heap() == heap, "and its memory released");
}
VP_TEST(spawn_throwing_connect) {
  long heap = vp_heap();
  emptied s;
  try { s.get().spawn(throwing_connect_snd<0, m_any, V0>{}); if (!kids[0].completed()) fire(0); } catch (const err& e) { vp_check(e.e == 55, "the exception of connect leaves spawn"); vp_check(kids[0].started() == 0, "with nothing started"); }
  vp_check(vp_heap() == heap, "all memory is released"); s.wait(); vp_check(s.empty(), "the scope is empty");
}
VP_TEST(spawn_stop) {
  emptied s; int n = vp_choose(2, "stop before spawn");
  if (n) s.get().request_stop();
  s.get().spawn(stop_snd<0, V0>{});
  if (!n) { vp_check(!kids[0].completed(), "not before the request"); s.get().request_stop(); }
  vp_check(kids[0].ch() == stopped, "spawned operations are asked to stop"); s.wait(); vp_check(s.empty(), "the scope empties");
}
struct marked { char c; };
struct q_t : ex::forwarding_query_t { template <class E> auto operator()(const E& e) const noexcept { return e.query(*this); } };
struct mark_env { long m; auto query(ex::get_allocator_t) const noexcept { return std::allocator<char>{}; } };
VP_TEST(future_basic) {
  long heap = vp_heap();
  { emptied s;
    int how = vp_choose(3, "start the future, drop it, drop its operation");
    { auto f = s.get().spawn_future(snd<0, m_any, VV, EE, SS>{}); vp_check(kids[0].started() == 1, "spawn_future starts its sender at once");
      auto g = std::move(f);
      s.wait();
      if (how) { if (how == 2) { run r{std::move(g)}; r.o.expect_none(); } }
      else {
        run r{std::move(g)};
        if (!kids[0].completed() && vp_choose(2, "completes before start")) fire(0);
        bool early = kids[0].completed(); r.start();
        if (early) vp_check(r.o.n() == 1, "a finished operation completes its future at once"); else { r.o.expect_none(); fire(0); }
        r.o.expect_once(); vp_check(r.o.ch() == kids[0].ch(), "the future completes as the operation"); if (r.o.ch() != stopped) vp_check(r.o.p() == kids[0].pay(), "with its datum");
      } }
    if (!kids[0].completed()) { vp_check(!s.empty(), "a running spawned operation counts"); fire(0); }
    vp_check(s.empty(), "the scope empties when the operation has completed"); }
  vp_check(kids[0].destroyed() == kids[0].connected(), "the operation is destroyed"); vp_check(vp_heap() == heap, "the state is released");
}
VP_TEST(future_assigned) {           // a future that is assigned over is dropped: its operation runs on
  long heap = vp_heap();
  { emptied s;
    { auto f = s.get().spawn_future(snd<0, m_later, V0>{}); long p0 = vp_get(&kids[0].pend_); vp_set(&kids[0].pend_, 0);
      auto g = s.get().spawn_future(snd<0, m_later, V0>{}); long p1 = vp_get(&kids[0].pend_); vp_set(&kids[0].pend_, 0);
      f = std::move(g);
      run r{std::move(f)}; r.start(); s.wait();
      reinterpret_cast<pending_base*>(p1)->fire(); r.o.expect_once(); vp_check(r.o.ch() == value, "the assigned future completes");
      vp_check(!s.empty(), "the operation of the dropped future still counts");
      vp_set(&kids[0].completed_, 0); reinterpret_cast<pending_base*>(p0)->fire(); }
    vp_check(s.empty(), "the scope empties"); }
  vp_check(vp_heap() == heap, "the states are released");
}
VP_TEST(future_throwing) {
  long heap = vp_heap();
  { emptied s;
    try { run r{s.get().spawn_future(throwing_connect_snd<0, m_any, VT>{})}; r.start(); if (!kids[0].completed()) fire(0); r.o.expect_once();
      if (r.o.ch() == value) vp_check(r.o.p() == kids[0].pay(), "the datum arrives"); else vp_check(r.o.ch() == error && r.o.p() == 77, "a throwing move becomes the error");
    } catch (const err& e) { vp_check(e.e == 55, "the exception of connect leaves spawn_future"); vp_check(kids[0].started() == 0, "with nothing started"); }
    s.wait(); vp_check(s.empty(), "the scope empties"); }
  vp_check(vp_heap() == heap, "the state is released");
}
VP_TEST(future_stop) {               // a stop request of the scope reaches spawned operations
  emptied s;
  run r{s.get().spawn_future(stop_snd<0, VV>{})};
  bool before = vp_choose(2, "stop before start"); if (before) s.get().request_stop();
  r.start(); if (!before) { r.o.expect_none(); s.get().request_stop(); }
  r.o.expect_once(); r.o.expect_stopped(); s.wait(); vp_check(s.empty(), "the scope empties");
}
VP_TEST(future_receiver_stop) {      // the receiver asked to stop: it is completed with stopped, or with the result that was there
  ex::inplace_stop_source src;
  emptied s;
  { run r{s.get().spawn_future(snd<0, m_any, VV>{}), stop_env{src.get_token()}};
    int when = vp_choose(3, "stop before, after start, never"); if (when == 0) src.request_stop();
    r.start(); if (when == 1) src.request_stop();
    if (!kids[0].completed()) fire(0);
    r.o.expect_once(); if (r.o.ch() != stopped) vp_check(r.o.p() == kids[0].pay(), "the result"); else vp_check(when != 2, "stopped only on request"); }
  s.wait(); vp_check(s.empty(), "the scope empties");
}
VP_TEST(future_source_dies) {        // the stop source may die in the completion
  emptied s;
  { run_stop r{s.get().spawn_future(snd<0, m_any, VV, SS>{}), vp_choose(2, "already stopped") == 1};
    r.start(); if (!kids[0].completed()) fire(0); r.o.expect_once(); }
  s.wait(); vp_check(s.empty(), "the scope empties");
}
VP_TEST(nest_source_dies) {
  emptied s;
  { run_stop r{s.get().nest(snd<0, m_any, VV, SS>{}), vp_choose(2, "already stopped") == 1};
    r.start(); if (!kids[0].completed()) fire(0); r.o.expect_once(); vp_check(r.o.ch() == kids[0].ch(), "a nested sender completes as its child"); }
  s.wait(); vp_check(s.empty(), "the scope empties");
}
// ---- races ---------------------------------------------------------------------------
VP_TEST(race_nest) {                 // the last of two nested operations empties the scope
  vp_config("preempt", 2);
  emptied s; S = &s;
  run a{s.get().nest(snd<0, m_later, V0>{})}; run b{s.get().nest(snd<1, m_later, V0, SS>{})};
  a.start(); b.start();
  vp_spawn(t_fire0, nullptr, "completion 0"); vp_spawn(t_fire1, nullptr, "completion 1");
  s.wait();
  vp_join_all(); vp_check(s.empty(), "on_empty completes"); s.o[0].expect_once(); vp_check(s.seen[0] == 2, "and sees what the operations did");
}
VP_TEST(race_two_waiters) {
  vp_config("preempt", 2);
  emptied s; S = &s; s.need = 2;
  s.get().spawn(snd<0, m_later, V0>{});
  vp_spawn(t_fire0, nullptr, "completion"); vp_spawn(t_wait1, nullptr, "second waiter");
  s.wait();
  vp_join_all(); vp_check(s.empty(), "every on_empty completes"); s.o[0].expect_once(); s.o[1].expect_once();
}
VP_TEST(race_spawn_stop) {
  vp_config("preempt", 2);
  { emptied s; S = &s;
    s.get().spawn(stop_snd<0, V0>{});
    vp_spawn([](void*) { S->get().request_stop(); vp_event_set(&plain[2]); }, nullptr, "stop request"); vp_spawn([](void*) { fire(0); }, nullptr, "completion");
    vp_event_wait(&plain[2]); s.wait(); vp_join_all(); vp_check(s.empty(), "the scope empties"); }
}
VP_TEST(race_future_start) {         // the operation completes while its future is connected, started or dropped
  vp_config("preempt", 3);
  long heap = vp_heap();
  { emptied s; S = &s;
    { auto f = s.get().spawn_future(snd<0, m_later, VV, SS>{});
      vp_spawn([](void*) { fire(0); }, nullptr, "completion");
      int how = vp_choose(3, "start, drop, drop the operation");
      if (how == 0) { run r{std::move(f)}; r.start(); vp_join_all(); r.o.expect_once(); vp_check(r.o.ch() == kids[0].ch(), "the future completes as the operation"); }
      else if (how == 1) { auto g = std::move(f); } else { run r{std::move(f)}; } }
    vp_join_all(); s.wait(); vp_check(s.empty(), "the scope empties"); }
  vp_check(vp_heap() == heap, "the state is released");
}
VP_TEST(race_future_publishes) {
  vp_config("preempt", 2);
  emptied s; S = &s; plain[0] = 0;
  run a{s.get().spawn_future(snd<0, m_later, V0>{})};
  a.h.after = [](void* p) { vp_check(plain[0] == 1, "what the operation did is visible to the consumer"); static_cast<decltype(a)*>(p)->b.destroy(); };
  vp_spawn(t_fire0, nullptr, "completion"); a.start(); vp_join_all(); a.o.expect_once(); s.wait(); vp_check(s.empty(), "the scope empties");
}
VP_TEST(race_future_stop) {
  vp_config("preempt", 2);
  { ex::inplace_stop_source src; static ex::inplace_stop_source* SRC; SRC = &src;
    emptied s; S = &s;
    { run r{s.get().spawn_future(stop_snd<0, VV>{}), stop_env{src.get_token()}};
      vp_spawn([](void*) { fire(0); }, nullptr, "completion"); vp_spawn(t_stop, nullptr, "scope stop"); if (vp_choose(2, "receiver stop")) vp_spawn([](void*) { SRC->request_stop(); }, nullptr, "receiver stop");
      r.start(); vp_join_all(); r.o.expect_once(); if (r.o.ch() != stopped) vp_check(r.o.p() == kids[0].pay(), "the result"); }
    s.wait(); vp_check(s.empty(), "the scope empties"); }
}

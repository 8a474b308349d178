// split, ensure_started (exec/detail/shared.hpp)
#include "vp.hpp"
#include <exec/split.hpp>
#include <exec/ensure_started.hpp>
using namespace vp;
namespace xx = exec;
static long plain[4];
static void t_fire0(void*) { fire(0); }

VP_TEST(split_basic) {               // two consumers, any order of start and completion
  auto s = xx::split(snd<0, m_any, VV, EE, SS>{});
  vp_check(kids[0].connected() == 1 && kids[0].started() == 0, "the operation is connected once and not started before a consumer starts");
  run a{s}; run b{std::move(s)};
  a.start(); vp_check(kids[0].started() == 1, "the first start starts the shared operation");
  bool fired = kids[0].completed();
  if (!fired && vp_choose(2, "completes before the second start")) { fire(0); fired = true; a.o.expect_once(); }
  b.start();
  if (!fired) { a.o.expect_none(); b.o.expect_none(); fire(0); }
  a.o.expect_once(); b.o.expect_once(); vp_check(a.o.ch() == kids[0].ch() && b.o.ch() == kids[0].ch(), "every consumer completes as the shared operation");
  if (a.o.ch() != stopped) vp_check(a.o.p() == kids[0].pay() && b.o.p() == kids[0].pay(), "with its datum");
}
VP_TEST(split_unused) {              // senders and operations dropped without starting release everything
  { auto s = xx::split(snd<0, m_any, V0>{}); auto t = s; if (vp_choose(2, "connect one")) { run a{std::move(t)}; } }
  vp_check(kids[0].started() == 0, "nothing is started"); vp_check(vp_get(&kids[0].destroyed_) == 1, "the shared operation is destroyed");
}
VP_TEST(split_assign) {              // senders can be assigned; what they no longer refer to is released
  auto mk = [](auto s) { return xx::split(std::move(s)); };
  { auto s = mk(snd<0, m_any, VV, EE, SS>{}), t = mk(snd<0, m_any, VV, EE, SS>{}); vp_set(&kids[0].conn_, 1);
    int w = vp_choose(4, "how"); if (w == 0) t = s; else if (w == 1) t = std::move(s); else if (w == 2) { auto u = s; t = u; s = std::move(u); } else { auto& r = t; t = r; t = s; }
    vp_check(kids[0].destroyed() == 1, "the operation nobody refers to any more is released"); vp_check(kids[0].started() == 0, "and nothing is started");
    run a{std::move(t)}; a.start(); if (!kids[0].completed()) fire(0); a.o.expect_once(); vp_check(a.o.ch() == kids[0].ch(), "the other completes"); }
  vp_check(kids[0].destroyed() == 2, "and is released");
}
VP_TEST(split_throwing) {
  { auto s = xx::split(snd<0, m_any, VT>{}); run a{s}; run b{s}; a.start(); b.start(); if (!kids[0].completed()) fire(0); a.o.expect_once(); b.o.expect_once();
    if (a.o.ch() == value) vp_check(a.o.p() == kids[0].pay() && b.o.p() == a.o.p(), "the datum arrives"); else { vp_check(a.o.ch() == error && b.o.ch() == error, "all get the error"); vp_check(a.o.p() == 77 || a.o.p() == 78, "a throwing move becomes the error"); } }
  vp_check(vp_get(&kids[0].destroyed_) == 1, "the shared operation is destroyed");
}
VP_TEST(split_throwing_connect) {
  try { auto s = xx::split(throwing_connect_snd<0, m_any, V0>{}); run a{std::move(s)}; a.start(); fire(0); a.o.expect_once(); } catch (const err& e) { vp_check(e.e == 55, "the exception of connect leaves split"); vp_check(kids[0].started() == 0, "nothing is started"); }
}
VP_TEST(split_stop) {                // a stop request to one consumer completes it alone; the last one asks the operation to stop
  ex::inplace_stop_source sa, sb;
  int when = vp_choose(3, "stop a: before start, after start, never");
  { auto s = xx::split(snd<0, m_later, VV>{});
    run a{s, stop_env{sa.get_token()}}; run b{std::move(s), stop_env{sb.get_token()}};
    if (when == 0) sa.request_stop();
    a.start(); if (when == 0) { vp_check(a.o.n() == 1, "a consumer asked to stop before start completes at once"); a.o.expect_stopped(); vp_check(kids[0].started() == 0, "without starting the operation"); }
    b.start(); b.o.expect_none();
    if (when == 1) { sa.request_stop(); vp_check(a.o.n() == 1, "a stop request completes its own consumer"); a.o.expect_stopped(); vp_check(!stop_seen(0), "not the shared operation while another consumer waits"); }
    b.o.expect_none();
    if (vp_choose(2, "stop b")) { sb.request_stop(); b.o.expect_once(); b.o.expect_stopped(); if (when != 2) vp_check(stop_seen(0), "when every consumer is gone the shared operation is asked to stop"); else vp_check(!stop_seen(0), "not while a consumer waits"); }
    fire(0);
    if (b.o.ch() != stopped) vp_check(b.o.ch() == value && b.o.p() == kids[0].pay(), "the other consumer gets the result");
    if (when == 2) vp_check(a.o.ch() == value && a.o.p() == kids[0].pay(), "the other consumer gets the result"); }
  vp_check(vp_get(&kids[0].destroyed_) == 1, "the shared operation is destroyed");
}
VP_TEST(split_stop_aware) {          // the operation completes from the forwarded stop request
  { ex::inplace_stop_source src; run a{xx::split(stop_snd<0, VV>{}), stop_env{src.get_token()}}; a.start(); a.o.expect_none();
    src.request_stop(); a.o.expect_once(); a.o.expect_stopped(); vp_check(vp_get(&kids[0].completed_) == 1, "the shared operation is asked to stop"); }
  vp_check(vp_get(&kids[0].destroyed_) == 1, "the shared operation is destroyed");
}
VP_TEST(split_race_complete) {       // completion against two starts, everything destroyed inside the completions
  vp_config("preempt", 2);
  { auto s = xx::split(snd<0, m_later, VV, SS>{});
    run a{s}; run b{std::move(s)}; static run<decltype(s)>* B; B = &b;
    vp_spawn([](void*) { fire_started(0); }, nullptr, "completion"); vp_spawn([](void*) { B->start(); }, nullptr, "second consumer");
    a.start();
    vp_join_all(); a.o.expect_once(); b.o.expect_once(); vp_check(a.o.ch() == kids[0].ch() && b.o.ch() == kids[0].ch(), "all complete as the operation"); }
  vp_check(vp_get(&kids[0].destroyed_) == 1, "the shared operation is destroyed");
}
VP_TEST(split_race_stop) {           // completion against a stop request of one consumer
  vp_config("preempt", 2);
  { ex::inplace_stop_source src; static ex::inplace_stop_source* SRC; SRC = &src;
    auto s = xx::split(snd<0, m_later, VV>{});
    run a{s, stop_env{src.get_token()}}; run b{std::move(s)};
    vp_spawn([](void*) { fire_started(0); }, nullptr, "completion"); vp_spawn([](void*) { SRC->request_stop(); }, nullptr, "stop request");
    a.start(); b.start();
    vp_join_all(); a.o.expect_once(); b.o.expect_once(); vp_check(b.o.ch() == value && b.o.p() == kids[0].pay(), "the other consumer gets the result"); if (a.o.ch() != stopped) vp_check(a.o.p() == kids[0].pay(), "or the result"); }
  vp_check(vp_get(&kids[0].destroyed_) == 1, "the shared operation is destroyed");
}
VP_TEST(split_race_two_stops) {      // both consumers are stopped from different threads
  vp_config("preempt", 2);
  { ex::inplace_stop_source sa, sb; static ex::inplace_stop_source *SA, *SB; SA = &sa; SB = &sb;
    auto s = xx::split(snd<0, m_later, VV>{});
    run a{s, stop_env{sa.get_token()}}; run b{std::move(s), stop_env{sb.get_token()}};
    a.start(); b.start();
    vp_spawn([](void*) { SA->request_stop(); }, nullptr, "stop a"); vp_spawn([](void*) { SB->request_stop(); }, nullptr, "stop b");
    vp_join_all(); a.o.expect_once(); b.o.expect_once(); a.o.expect_stopped(); b.o.expect_stopped();
    vp_check(stop_seen(0), "when every consumer is gone the shared operation is asked to stop");
    fire(0); }
  vp_check(vp_get(&kids[0].destroyed_) == 1, "the shared operation is destroyed");
}
VP_TEST(split_race_stop_start) {     // stop request against start
  vp_config("preempt", 3);
  { ex::inplace_stop_source src; static ex::inplace_stop_source* SRC; SRC = &src;
    run a{xx::split(snd<0, m_later, VV>{}), stop_env{src.get_token()}};
    vp_spawn([](void*) { SRC->request_stop(); }, nullptr, "stop request");
    a.start(); vp_join_all(); a.o.expect_once(); a.o.expect_stopped(); fire(0); }
  vp_check(vp_get(&kids[0].destroyed_) == vp_get(&kids[0].conn_), "the shared operation is destroyed");
}
VP_TEST(split_race_stop_aware) {
  vp_config("preempt", 2);
  { ex::inplace_stop_source src; static ex::inplace_stop_source* SRC; SRC = &src;
    run a{xx::split(stop_snd<0, VV>{}), stop_env{src.get_token()}};
    a.start();
    vp_spawn([](void*) { SRC->request_stop(); }, nullptr, "stop request"); vp_spawn(t_fire0, nullptr, "completion");
    vp_join_all(); a.o.expect_once(); }
  vp_check(vp_get(&kids[0].destroyed_) == 1, "the shared operation is destroyed");
}
// ---- ensure_started ---------------------------------------------------------------------
VP_TEST(ensure_basic) {
  { auto s = xx::ensure_started(snd<0, m_any, VV, EE, SS>{});
    vp_check(kids[0].started() == 1, "the operation is started at once");
    int how = vp_choose(3, "start it, drop the sender, drop the operation");
    if (how == 1) { auto t = std::move(s); }
    else {
      run a{std::move(s)};
      if (how == 0) {
        if (!kids[0].completed() && vp_choose(2, "completes before start")) fire(0);
        bool early = kids[0].completed(); a.start();
        if (early) vp_check(a.o.n() == 1, "a finished operation completes its consumer at once"); else { a.o.expect_none(); fire(0); }
        a.o.expect_once(); vp_check(a.o.ch() == kids[0].ch(), "the consumer completes as the operation"); if (a.o.ch() != stopped) vp_check(a.o.p() == kids[0].pay(), "with its datum");
      }
    }
    if (how && !kids[0].completed()) { vp_check(stop_seen(0), "an abandoned operation is asked to stop"); fire(0); } }
  vp_check(vp_get(&kids[0].destroyed_) == 1, "the shared operation is destroyed");
}
VP_TEST(ensure_throwing) {
  { run a{xx::ensure_started(snd<0, m_any, VT>{})}; a.start(); if (!kids[0].completed()) fire(0); a.o.expect_once();
    if (a.o.ch() == value) vp_check(a.o.p() == kids[0].pay(), "the datum arrives"); else vp_check(a.o.ch() == error && (a.o.p() == 77 || a.o.p() == 78), "a throwing move becomes the error"); }
  vp_check(vp_get(&kids[0].destroyed_) == 1, "the shared operation is destroyed");
}
VP_TEST(ensure_stop_aware) {
  { auto s = xx::ensure_started(stop_snd<0, VV>{});
    if (vp_choose(2, "drop")) { auto t = std::move(s); }
    else { ex::inplace_stop_source src; run a{std::move(s), stop_env{src.get_token()}}; bool before = vp_choose(2, "stop before start"); if (before) src.request_stop(); a.start(); if (!before) { a.o.expect_none(); src.request_stop(); } a.o.expect_once(); a.o.expect_stopped(); } 
    vp_check(vp_get(&kids[0].completed_) == 1, "the operation is asked to stop"); }
  vp_check(vp_get(&kids[0].destroyed_) == 1, "the shared operation is destroyed");
}
VP_TEST(ensure_race_drop) {
  vp_config("preempt", 2);
  { auto s = xx::ensure_started(snd<0, m_later, VV>{}); vp_spawn(t_fire0, nullptr, "completion"); auto t = std::move(s); }
  vp_join_all(); vp_check(vp_get(&kids[0].destroyed_) == 1, "the shared operation is destroyed");
}
VP_TEST(ensure_race_start_stop) {
  vp_config("preempt", 2);
  { ex::inplace_stop_source src; static ex::inplace_stop_source* SRC; SRC = &src;
    run a{xx::ensure_started(snd<0, m_later, VV>{}), stop_env{src.get_token()}};
    vp_spawn([](void*) { fire(0); }, nullptr, "completion"); vp_spawn([](void*) { SRC->request_stop(); }, nullptr, "stop request");
    a.start();
    vp_join_all(); a.o.expect_once(); if (a.o.ch() != stopped) vp_check(a.o.p() == kids[0].pay(), "the result"); }
  vp_check(vp_get(&kids[0].destroyed_) == 1, "the shared operation is destroyed");
}
VP_TEST(ensure_publishes) {          // what the operation did is visible to the consumer
  vp_config("preempt", 2);
  plain[0] = 0;
  { run a{xx::ensure_started(snd<0, m_later, V0>{})};
    a.h.after = [](void* p) { vp_check(plain[0] == 3, "what the operation did is visible to the consumer"); static_cast<decltype(a)*>(p)->b.destroy(); };
    vp_spawn([](void*) { plain[0] = 3; fire(0); }, nullptr, "completion"); a.start(); vp_join_all(); a.o.expect_once(); }
}

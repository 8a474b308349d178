// exec::when_any
#include "vp.hpp"
#include <exec/when_any.hpp>
using namespace vp;

template <class Run>
static void judge(Run& r, int n, bool stop) {
  r.o.expect_once();
  for (int i = 0; i < n; i++) {
    if (kids[i].started()) vp_check(kids[i].completed() == 1, "when_any completes only after every child completed");
    vp_check(kids[i].started() <= 1, "no child is started twice");
  }
  if (r.o.ch() == stopped) { bool s = stop; for (int i = 0; i < n; i++) if (kids[i].ch() == stopped) s = true; vp_check(s, "stopped only if a child stopped or stop was requested"); return; }
  bool m = false;
  for (int i = 0; i < n; i++) if (kids[i].ch() == r.o.ch() && kids[i].pay() == r.o.p(0)) m = true;
  vp_check(m, "the result is the completion of one child");
}
template <class S>
static void inline_case(S s, int n) {
  run r{(S&&) s};
  for (int i = 0; i < n; i++) vp_check(kids[i].started() == 0, "nothing starts before start");
  r.start();
  int first = -1;
  for (int i = 0; i < n; i++) { vp_check(kids[i].started() == 1, "every child is started"); if (!kids[i].pending() && first < 0) first = i; }
  for (int i = 0; i < n; i++) if (kids[i].pending()) vp_check(stop_seen(i) == (first >= 0), "the other children are asked to stop exactly when one completed");
  while (true) {
    int left = 0; for (int i = 0; i < n; i++) left += kids[i].pending();
    if (!left) break;
    r.o.expect_none();
    int c = vp_choose(left, "which child completes next");
    for (int i = 0; i < n; i++) if (kids[i].pending() && c-- == 0) { fire(i); if (first < 0) first = i; break; }
    for (int i = 0; i < n; i++) if (kids[i].pending()) vp_check(stop_seen(i), "the other children are asked to stop when one completed");
  }
  judge(r, n, false);
  vp_check(r.o.ch() == kids[first].ch(), "the first completion is the result");
  if (r.o.ch() != stopped) vp_check(r.o.p(0) == kids[first].pay(), "the first completion is the result");
}
VP_TEST(inline_2) { inline_case(exec::when_any(snd<0, m_any, VL, EE, SS>{}, snd<1, m_any, VL, EE, SS>{}), 2); }
VP_TEST(inline_3) { inline_case(exec::when_any(snd<0, m_later, VL, EE>{}, snd<1, m_any, VV, EP, SS>{}, snd<2, m_later, VL>{}), 3); }
VP_TEST(one) { inline_case(exec::when_any(snd<0, m_any, VL, EE, SS>{}), 1); }
VP_TEST(throwing_copy) {
  run r{exec::when_any(snd<0, m_later, VT>{}, snd<1, m_later, VL, SS>{})};
  r.start(); fire(0); r.o.expect_none(); fire(1);
  r.o.expect_once();
  if (r.o.ch() == value) r.o.expect_value(kids[0].pay()); else { vp_check(r.o.ch() == error && (r.o.p(0) == 77 || r.o.p(0) == 78), "a throwing copy becomes an error"); }
}
VP_TEST(threads_2) {
  vp_config("preempt", 3);
  run r{exec::when_any(snd<0, m_later, VL, EE, SS>{}, snd<1, m_later, VV, EE, SS>{})};
  r.start(); spawn_fire(0); fire(1); vp_join_all();
  judge(r, 2, false);
}
VP_TEST(threads_3) {
  vp_config("preempt", 2);
  run r{exec::when_any(snd<0, m_later, VL, EE>{}, snd<1, m_later, VL, SS>{}, snd<2, m_later, VL>{})};
  r.start(); spawn_fire(0); spawn_fire(1); fire(2); vp_join_all();
  judge(r, 3, false);
}
VP_TEST(watchers) {                      // the losers react to the stop request re-entrantly
  run r{exec::when_any(stop_snd<0, VL>{}, snd<1, m_any, VL, EE, SS>{}, stop_snd<2, VL>{})};
  r.start(); fire(1);
  vp_check(kids[0].ch() == stopped && kids[2].ch() == stopped, "the losers are asked to stop");
  judge(r, 3, false);
  vp_check(r.o.ch() == kids[1].ch(), "the first completion is the result");
}
VP_TEST(stop_race) {
  vp_config("preempt", 3);
  ex::inplace_stop_source src;
  { run r{exec::when_any(snd<0, m_later, VL, EE, SS>{}, snd<1, m_later, VL>{}), stop_env{src.get_token()}};
    r.start(); spawn_stop(src); fire(0); fire(1); vp_join_all();
    judge(r, 2, true); }
}
VP_TEST(stop_race_start) {
  vp_config("preempt", 3);
  ex::inplace_stop_source src;
  { run r{exec::when_any(snd<0, m_inline, VL>{}, snd<1, m_inline, VL, SS>{}), stop_env{src.get_token()}};
    spawn_stop(src); r.start(); vp_join_all();
    judge(r, 2, true); }
}
VP_TEST(stop_race_children_watch) {
  vp_config("preempt", 2);
  ex::inplace_stop_source src;
  { run r{exec::when_any(stop_snd<0, VL, EE>{}, stop_snd<1, VL>{}), stop_env{src.get_token()}};
    r.start(); spawn_stop(src); fire(0); fire(1); vp_join_all();
    judge(r, 2, true); }
}
VP_TEST(stop_before_start) {
  ex::inplace_stop_source src; src.request_stop();
  run r{exec::when_any(snd<0, m_any, VL, EE, SS>{}, snd<1, m_any, VL, SS>{}), stop_env{src.get_token()}};
  r.start();
  while (fire(0) || fire(1));
  judge(r, 2, true);
  r.o.expect_stopped();
}
VP_TEST(stop_between) {
  ex::inplace_stop_source src;
  run r{exec::when_any(snd<0, m_later, VL, EE, SS>{}, snd<1, m_later, VL, SS>{}), stop_env{src.get_token()}};
  r.start();
  bool early = vp_choose(2, "one child completes first") == 1; if (early) fire(0);
  src.request_stop();
  r.o.expect_none();
  vp_check(stop_seen(1) && (early || stop_seen(0)), "a stop requested from outside reaches every child");
  fire(1); fire(0);
  judge(r, 2, true);
  r.o.expect_stopped();
}
VP_TEST(no_callback_left) {
  vp_config("preempt", 2);
  run_stop r{exec::when_any(snd<0, m_any, VL, EE, SS>{}, snd<1, m_later, VL, SS>{}), vp_choose(2, "stop already requested") == 1};
  r.start(); spawn_fire(0); fire(1); vp_join_all();
  judge(r, 2, true);
}
VP_TEST(connect_throws) {
  try {
    run r{exec::when_any(snd<0, m_inline, VL>{}, throwing_connect_snd<1, m_inline, VL>{}, snd<2, m_inline, VL>{})};
    vp_check(kids[0].started() == 0, "connect starts nothing");
  } catch (const err& e) { vp_check(e.e == 55, "the exception of connect propagates"); vp_check(kids[0].connected() == kids[0].destroyed(), "children connected before the exception are destroyed"); }
}

// when_all, when_all_with_variant, transfer_when_all*
#include "vp.hpp"
using namespace vp;

// the completion a barrier may deliver, given what the children did.  `order` says
// whether the first failure is known (children completed one after the other).
template <class Run>
static void judge(Run& r, int n, bool stop_allowed) {
  r.o.expect_once();
  bool any_err = false, any_stop = false, all_val = true;
  for (int i = 0; i < n; i++) {
    vp_check(kids[i].completed() == 1, "when_all completes only after every child completed");
    any_err |= kids[i].ch() == error; any_stop |= kids[i].ch() == stopped; all_val &= kids[i].ch() == value;
  }
  if (r.o.ch() == value) {
    vp_check(all_val, "set_value only if every child completed with set_value");
    vp_check(r.o.nargs() == n, "one datum per child");
    for (int i = 0; i < n; i++) vp_check(r.o.p(i) == kids[i].pay(), "the values are concatenated in order of the children");
  } else if (r.o.ch() == error) {
    vp_check(any_err, "set_error only if a child completed with set_error");
    bool m = false;
    for (int i = 0; i < n; i++) { if (kids[i].ch() == error && kids[i].pay() == r.o.p(0)) m = true; }
    vp_check(m, "the error is the error of a child");
  } else {
    vp_check(any_stop || stop_allowed, "set_stopped only if a child stopped or a stop was requested");
    vp_check(!any_err, "an error takes precedence over stopped");
  }
  if (any_err) vp_check(r.o.ch() == error, "an error of a child is reported");
  if (any_stop && !any_err) vp_check(r.o.ch() == stopped, "a stopped child stops the whole");
}
template <class S>
static void inline_case(S s, int n) {
  run r{(S&&) s};
  for (int i = 0; i < n; i++) vp_check(kids[i].started() == 0, "nothing starts before start");
  r.start();
  for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) vp_check(kids[i].started() == 1, "every child is started");
  int first = -1;
  for (int i = 0; i < n; i++) if (!kids[i].pending() && kids[i].ch() != value) { first = i; break; }
  bool failed = first >= 0;
  for (int i = 0; i < n; i++) if (kids[i].pending()) vp_check(stop_seen(i) == failed, "children are asked to stop exactly when another failed");
  while (true) {
    int left = 0; for (int i = 0; i < n; i++) left += kids[i].pending();
    if (!left) break;
    r.o.expect_none();
    int c = vp_choose(left, "which child completes next");
    for (int i = 0; i < n; i++) if (kids[i].pending() && c-- == 0) {
      fire(i);
      if (kids[i].ch() != value) { if (first < 0) first = i; failed = true; }
      break;
    }
    for (int i = 0; i < n; i++) if (kids[i].pending()) vp_check(stop_seen(i) == failed, "children are asked to stop exactly when another failed");
  }
  judge(r, n, false);
  if (r.o.ch() == error) {           // the first error wins
    int fe = -1;
    if (first >= 0 && kids[first].ch() == error) fe = first;
    if (fe >= 0) vp_check(r.o.p(0) == kids[fe].pay(), "the first error wins");
  }
}
VP_TEST(inline_2) { inline_case(ex::when_all(snd<0, m_any, VL, EE, SS>{}, snd<1, m_any, VL, EE, SS>{}), 2); }
VP_TEST(inline_3) { inline_case(ex::when_all(snd<0, m_later, VL, EE, SS>{}, snd<1, m_inline, VL, EE, SS>{}, snd<2, m_later, VL, EE, SS>{}), 3); }
VP_TEST(inline_move_only) { inline_case(ex::when_all(snd<0, m_any, VV, EP, SS>{}, snd<1, m_any, VV, EE>{}), 2); }
VP_TEST(no_stop_signal) { inline_case(ex::when_all(snd<0, m_any, VL, EE>{}, snd<1, m_any, VL, EE>{}), 2); }
VP_TEST(values_only) { inline_case(ex::when_all(snd<0, m_any, VL>{}, snd<1, m_any, VV>{}), 2); }
VP_TEST(stopped_only) { inline_case(ex::when_all(snd<0, m_any, VL, SS>{}, snd<1, m_any, VL, SS>{}), 2); }
VP_TEST(throwing_value_copy) {
  run r{ex::when_all(snd<0, m_inline, VT>{}, snd<1, m_any, VL, SS>{})};
  r.start(); fire(1);
  r.o.expect_once();
  if (r.o.ch() == value) { vp_check(kids[1].ch() == value, "set_value only if every child did"); r.o.expect_value(kids[0].pay()); vp_check(r.o.p(1) == kids[1].pay(), "values in order"); }
  else if (r.o.ch() == error) vp_check(r.o.p(0) == 77 || r.o.p(0) == 78, "a throwing copy becomes an error");
  else vp_check(kids[1].ch() == stopped, "stopped only if a child stopped");
}
// an error whose copy or move throws is replaced by the exception it threw
VP_TEST(throwing_error_copy) {
  using ET = ex::set_error_t(tval);
  run r{ex::when_all(snd<0, m_any, VL, ET, SS>{}, snd<1, m_any, VL, ET>{})};
  r.start();
  for (int k = 0; k < 2; k++) { int i = vp_choose(2, "which child first"); if (!fire(i)) fire(1 - i); }
  r.o.expect_once();
  bool e = kids[0].ch() == error || kids[1].ch() == error;
  if (e) vp_check(r.o.ch() == error && (r.o.p(0) == 77 || r.o.p(0) == 78 || (kids[0].ch() == error && r.o.p(0) == kids[0].pay()) || (kids[1].ch() == error && r.o.p(0) == kids[1].pay())), "the error of a child, or what copying it threw");
  else if (kids[0].ch() == stopped) vp_check(r.o.ch() == stopped, "stopped");
  else { r.o.expect_value(kids[0].pay()); }
}
VP_TEST(threads_2) {
  vp_config("preempt", 3);
  run r{ex::when_all(snd<0, m_later, VL, EE, SS>{}, snd<1, m_later, VL, EE, SS>{})};
  r.start(); spawn_fire(0); fire(1); vp_join_all();
  judge(r, 2, false);
}
VP_TEST(threads_3) {
  vp_config("preempt", 2);
  run r{ex::when_all(snd<0, m_later, VL, EE>{}, snd<1, m_later, VL, SS>{}, snd<2, m_later, VV, EE, SS>{})};
  r.start(); spawn_fire(0); spawn_fire(1); fire(2); vp_join_all();
  judge(r, 3, false);
}
VP_TEST(stop_race) {
  vp_config("preempt", 3);
  ex::inplace_stop_source src;
  { run r{ex::when_all(snd<0, m_later, VL, EE, SS>{}, snd<1, m_later, VL>{}), stop_env{src.get_token()}};
    r.start(); spawn_stop(src); fire(0); fire(1); vp_join_all();
    judge(r, 2, true); }
}
VP_TEST(stop_race_children_watch) {
  vp_config("preempt", 2);
  ex::inplace_stop_source src;
  { run r{ex::when_all(stop_snd<0, VL, EE>{}, stop_snd<1, VL>{}), stop_env{src.get_token()}};
    r.start(); spawn_stop(src); fire(0); fire(1); vp_join_all();
    judge(r, 2, true); }
}
VP_TEST(stop_before_start) {
  ex::inplace_stop_source src; src.request_stop();
  run r{ex::when_all(snd<0, m_any, VL, EE, SS>{}, snd<1, m_any, VL, SS>{}), stop_env{src.get_token()}};
  r.start();
  for (int i = 0; i < 2; i++) { vp_check(kids[i].started() == 1, "every child is started"); if (kids[i].pending()) vp_check(stop_seen(i), "a stop requested from outside reaches every child"); }
  fire(1); fire(0);
  judge(r, 2, true);
  vp_check(r.o.ch() != value, "a stop requested before start is reported");
}
VP_TEST(stop_then_children) {
  ex::inplace_stop_source src;
  run r{ex::when_all(snd<0, m_later, VL, EE, SS>{}, snd<1, m_later, VL, SS>{}), stop_env{src.get_token()}};
  r.start();
  bool early = vp_choose(2, "one child completes first") == 1; if (early) fire(0);
  src.request_stop();
  r.o.expect_none();
  if (!early) vp_check(stop_seen(0), "a stop requested from outside reaches every child");
  vp_check(stop_seen(1), "a stop requested from outside reaches every child");
  if (!early) fire(0);
  fire(1);
  judge(r, 2, true);
  vp_check(r.o.ch() != value, "a stop requested before completion is reported");
}
VP_TEST(stop_watchers_sequential) {   // failure of one child stops the other, which completes re-entrantly
  run r{ex::when_all(stop_snd<0, VL>{}, snd<1, m_any, VL, EE, SS>{}, stop_snd<2, VL>{})};
  r.start(); fire(1);
  if (kids[1].ch() != value) { vp_check(kids[0].ch() == stopped && kids[2].ch() == stopped, "a failure stops the other children"); }
  else { r.o.expect_none(); fire(0); if (kids[2].pending()) fire(2); }
  judge(r, 3, false);
}
VP_TEST(stop_after_completion) {
  ex::inplace_stop_source src;
  run r{ex::when_all(snd<0, m_inline, VL, EE, SS>{}, snd<1, m_inline, VL>{}), stop_env{src.get_token()}};
  r.start(); src.request_stop();
  judge(r, 2, false);
}
VP_TEST(connect_throws) {
  try {
    run r{ex::when_all(snd<0, m_inline, VL>{}, throwing_connect_snd<1, m_inline, VL>{}, snd<2, m_inline, VL>{})};
    vp_check(kids[0].started() == 0, "connect starts nothing");
    if (vp_choose(2, "started")) { r.start(); judge(r, 3, false); }
  } catch (const err& e) { vp_check(e.e == 55, "the exception of connect propagates"); vp_check(kids[0].connected() == kids[0].destroyed(), "children connected before the exception are destroyed"); }
}
VP_TEST(with_variant) {
  run r{ex::when_all_with_variant(snd<0, m_any, VL, ex::set_value_t(val), EE>{}, snd<1, m_any, VL, VV, SS>{})};
  r.start(); fire(1); fire(0);
  judge(r, 2, false);
}
VP_TEST(single_and_empty) {
  { run r{ex::when_all()}; r.start(); r.o.expect_once(); vp_check(r.o.ch() == value && r.o.nargs() == 0, "when_all() completes with no value"); }
  { run r{ex::when_all(snd<0, m_inline, VL, EE, SS>{})}; r.start(); r.o.expect_once(); vp_check(r.o.ch() == kids[0].ch(), "when_all of one sender is that sender"); if (r.o.ch() != stopped) vp_check(r.o.p(0) == kids[0].pay(), "when_all of one sender is that sender"); }
}
VP_TEST(no_callback_left) {
  vp_config("preempt", 2);
  run_stop r{ex::when_all(snd<0, m_any, VL, EE, SS>{}, snd<1, m_later, VL, SS>{}), vp_choose(2, "stop already requested") == 1};
  r.start(); spawn_fire(0); fire(1); vp_join_all();
  judge(r, 2, true);
}

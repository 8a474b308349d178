// exec::sequence, exec::repeat, exec::repeat_until, exec::repeat_n (on the trampoline scheduler)
#include "vp.hpp"
#include "exec/sequence.hpp"
#include "exec/repeat_until.hpp"
#include "exec/repeat_n.hpp"
#include "exec/trampoline_scheduler.hpp"
using namespace vp;

static char iters, depth, maxdepth, live;
// a child that can be started again and again: every iteration has its own operation
template <class R, class Sig, class... Sigs> void complete_rest(R&& r) { complete_any<R, Sigs...>(&kids[0], (R&&) r); }
template <class R, class... Sigs> struct again_op : pending_base {
  using operation_state_concept = ex::operation_state_tag;
  R r; long st = 1; char started{}, completed{};
  explicit again_op(R&& x) noexcept : r((R&&) x) { vp_check(vp_add(&live, 1) == 1, "the previous iteration's operation is destroyed before the next is connected"); vp_set(&started, 0); vp_set(&completed, 0); }
  again_op(again_op&&) = delete;
  ~again_op() { st = 0; vp_add(&live, -1); if (vp_get(&started)) vp_check(vp_get(&completed) == 1, "a started child operation is not destroyed before it completes"); }
  void start() & noexcept {
    vp_check(vp_add(&started, 1) == 1 && st == 1, "a child operation is started once, while it is alive");
    vp_check(vp_get(&kids[0].ch_) != error && vp_get(&kids[0].ch_) != stopped, "no iteration starts after an error or a stop");
    vp_add(&iters, 1);
    if (vp_choose(2, "child completes later")) vp_set(&kids[0].pend_, (long) (pending_base*) this); else go();
  }
  void go() noexcept { vp_check(st == 1, "alive"); vp_set(&completed, 1); vp_set(&kids[0].completed_, 0); if constexpr (sizeof...(Sigs) > 1) if (vp_get(&iters) >= 4) return complete_rest<R, Sigs...>((R&&) r); complete_any<R, Sigs...>(&kids[0], (R&&) r); }   // every loop ends after four iterations at the latest
  void fire() noexcept override { vp_set(&kids[0].pend_, 0); go(); }
};
template <class... Sigs> struct again {
  using sender_concept = ex::sender_tag;
  template <class, class...> static consteval auto get_completion_signatures() noexcept -> ex::completion_signatures<Sigs...> { return {}; }
  template <ex::receiver R> auto connect(R r) const noexcept -> again_op<R, Sigs...> { return again_op<R, Sigs...>{(R&&) r}; }
};
static void drive() { while (kids[0].pending()) fire(0); }
// a boolean-like value whose conversion may throw
static char convs, convthrew, last;
template <bool Thr> struct tb { long v; explicit tb(long v) noexcept : v(v) {} operator bool() const noexcept(!Thr) {
  if (Thr && vp_choose(2, "conversion throws")) { vp_set(&convthrew, 1); throw err{31}; }
  bool b = vp_get(&iters) >= 3 || vp_choose(2, "done"); vp_set(&last, b); return b; } };
namespace vp { template <> inline tb<true> make<tb<true>>(long v) { return tb<true>{v}; } template <> inline tb<false> make<tb<false>>(long v) { return tb<false>{v}; } }

// the last iteration's operation is gone when the whole completes
template <class S, class Env = ex::env<>> struct rrun {
  using R = rcv<Env, ex::completion_signatures_of_t<S, Env>>; using op_t = ex::connect_result_t<S, R>;
  obs o; rcv_hooks h; box<op_t> b;
  explicit rrun(S s, Env e = {}) : h{&o, [](void* p) { if (!vp_get(&convthrew)) vp_check(vp_get(&live) == 0, "the last iteration's operation is destroyed before the whole completes"); static_cast<rrun*>(p)->b.destroy(); }, this} { b.emplace_from([&]() -> op_t { return ex::connect((S&&) s, R{&h, (Env&&) e}); }); }
  void start() noexcept { ex::start(b.get()); }
  ~rrun() { if (b.full) b.destroy(); }
};
template <class S> rrun(S) -> rrun<S>;
template <bool Thr> static void until() {
  { rrun r{exec::repeat_until(again<ex::set_value_t(tb<Thr>), EE, SS>{})};
    vp_check(vp_get(&iters) == 0, "nothing runs before start");
    r.start(); drive(); r.o.expect_once();
    if (vp_get(&convthrew)) r.o.expect_error(31);
    else if (kids[0].ch() == value) { vp_check(vp_get(&last) == 1, "repeat_until ends on a value only when the child sent true"); vp_check(r.o.ch() == value, "repeat_until completes with set_value()"); }
    else if (kids[0].ch() == error) r.o.expect_error(kids[0].pay()); else r.o.expect_stopped(); }
  vp_check(vp_get(&live) == 0, "every iteration's operation is destroyed");
}
VP_TEST(until_value) { until<false>(); }
VP_TEST(until_throws) { until<true>(); }
VP_TEST(until_true) { rrun r{exec::repeat_until(ex::then(again<V0, EE, SS>{}, []() noexcept { return std::true_type{}; }))}; r.start(); drive(); r.o.expect_once(); vp_check(vp_get(&iters) == 1, "a constant true ends the loop"); if (kids[0].ch() == error) r.o.expect_error(kids[0].pay()); else vp_check(r.o.ch() == kids[0].ch(), "the outcome"); }
struct bound { char st = 1; bool operator()() const noexcept { vp_check(st == 1, "the function is alive"); return vp_get(&iters) >= 3; } ~bound() { st = 0; } bound() = default; bound(const bound&) noexcept {} };
VP_TEST(until_false) { // never ends on its own
  rrun r{exec::repeat_until(ex::then(again<V0, EE, SS>{}, []() noexcept { return std::false_type{}; }))}; r.start(); for (int i = 0; i < 3 && kids[0].pending(); ++i) fire(0);
  if (!kids[0].pending()) { r.o.expect_once(); vp_check(kids[0].ch() != value, "repeats until an error or a stop"); if (kids[0].ch() == error) r.o.expect_error(kids[0].pay()); else r.o.expect_stopped(); }
  else { r.o.expect_none(); while (kids[0].pending()) fire(0); } }
VP_TEST(until_then) { rrun r{again<V0, EE, SS>{} | ex::then(bound{}) | exec::repeat_until()}; r.start(); drive(); r.o.expect_once(); if (kids[0].ch() == value) { vp_check(vp_get(&iters) == 3, "three iterations"); vp_check(r.o.ch() == value, "value"); } else if (kids[0].ch() == error) r.o.expect_error(kids[0].pay()); else r.o.expect_stopped(); }
VP_TEST(repeat_forever) {
  rrun r{exec::repeat(again<V0, EE, SS>{})}; r.start(); for (int i = 0; i < 3 && kids[0].pending(); ++i) fire(0);
  if (kids[0].pending()) { r.o.expect_none(); drive(); }
  r.o.expect_once(); vp_check(kids[0].ch() != value, "repeats until an error or a stop"); if (kids[0].ch() == error) r.o.expect_error(kids[0].pay()); else r.o.expect_stopped(); }
VP_TEST(repeat_n) {
  int n = vp_choose(4, "count");
  { rrun r{exec::repeat_n(again<V0, EE, SS>{}, n)};
    if (vp_choose(2, "start")) {
    r.start(); drive(); r.o.expect_once();
    if (n == 0) { vp_check(vp_get(&iters) == 0, "repeat_n(0) does not start the child"); vp_check(r.o.ch() == value, "value"); }
    else if (kids[0].ch() == value) { vp_check(vp_get(&iters) == n, "the child runs exactly n times"); vp_check(r.o.ch() == value, "value"); }
    else { vp_check(vp_get(&iters) <= n, "the child runs at most n times"); if (kids[0].ch() == error) r.o.expect_error(kids[0].pay()); else r.o.expect_stopped(); } } }
  vp_check(vp_get(&live) == 0, "every iteration's operation is destroyed");
}
// ---- throwing steps ----
static char conns; 
template <class... Sigs> struct tc_again { // connecting may throw
  using sender_concept = ex::sender_tag;
  template <class, class...> static consteval auto get_completion_signatures() noexcept -> ex::completion_signatures<Sigs...> { return {}; }
  template <ex::receiver R> auto connect(R r) const noexcept(false) -> again_op<R, Sigs...> { if (vp_choose(2, "connect throws")) { vp_set(&convthrew, 1); throw err{55}; } return again_op<R, Sigs...>{(R&&) r}; }
};
template <class... Sigs> struct cc_again : again<Sigs...> { // copying may throw
  cc_again() = default; cc_again(cc_again&&) noexcept = default;
  cc_again(const cc_again&) noexcept(false) { if (vp_choose(2, "copy throws")) { vp_set(&convthrew, 1); throw err{56}; } }
};
template <class S> static void thr(S s, long code) {
  { 
    try {
      run r{std::move(s)}; r.start(); drive(); r.o.expect_once();
      if (vp_get(&convthrew)) r.o.expect_error(code);
      else if (kids[0].ch() == error) r.o.expect_error(kids[0].pay()); else vp_check(r.o.ch() == kids[0].ch(), "the outcome");
    } catch (const err& e) { vp_check(e.e == code && vp_get(&iters) == 0, "connecting the whole may throw what the child throws"); }
  }
  vp_check(vp_get(&live) == 0, "every iteration's operation is destroyed");
}
VP_TEST(until_connect_throws) { thr(exec::repeat_until(ex::then(tc_again<V0, SS>{}, bound{})), 55); }
VP_TEST(until_copy_throws) { thr(exec::repeat_until(ex::then(cc_again<V0, SS>{}, bound{})), 56); }
VP_TEST(repeat_connect_throws) { thr(exec::repeat_until(tc_again<ex::set_value_t(tb<false>), SS>{}), 55); }
VP_TEST(repeat_copy_throws) { thr(exec::repeat_until(cc_again<ex::set_value_t(tb<false>), SS>{}), 56); }
VP_TEST(n_connect_throws) { thr(exec::repeat_n(tc_again<V0, SS>{}, 2), 55); }
VP_TEST(n_copy_throws) { thr(exec::repeat_n(cc_again<V0, SS>{}, 2), 56); }
// the error lives in the child's operation, and copying it may throw
template <bool Thr> struct e2 { long v; char st = 1; explicit e2(long v) noexcept : v(v) {} ~e2() { st = 0; }
  friend long as_long(const e2& e) { vp_check(e.st == 1, "the error is alive"); return e.v; }
  e2(e2&& o) noexcept(!Thr) : v(o.v) { vp_check(o.st == 1, "alive"); if (Thr && vp_choose(2, "error copy throws")) { vp_set(&convthrew, 1); throw err{77}; } o.st = 2; }
  e2(const e2& o) noexcept(!Thr) : v(o.v) { vp_check(o.st == 1, "alive"); if (Thr && vp_choose(2, "error copy throws")) { vp_set(&convthrew, 1); throw err{77}; } } };
template <class E> struct err_snd {
  using sender_concept = ex::sender_tag;
  template <class, class...> static consteval auto get_completion_signatures() noexcept -> ex::completion_signatures<V0, ex::set_error_t(E)> { return {}; }
  template <class R> struct op { using operation_state_concept = ex::operation_state_tag; R r; std::decay_t<E> e{6}; 
    void start() & noexcept { vp_add(&iters, 1); if (vp_choose(2, "error")) ex::set_error((R&&) r, static_cast<E&&>(e)); else if (vp_get(&iters) < 3) ex::set_value((R&&) r); else ex::set_error((R&&) r, static_cast<E&&>(e)); } };
  template <ex::receiver R> auto connect(R r) const noexcept -> op<R> { return {(R&&) r}; }
};
template <class E> struct err_false : err_snd<E> {   // never ends on a value
  template <class, class...> static consteval auto get_completion_signatures() noexcept -> ex::completion_signatures<ex::set_value_t(std::false_type), ex::set_error_t(E)> { return {}; }
  template <class R> struct op { using operation_state_concept = ex::operation_state_tag; R r; std::decay_t<E> e{6}; 
    void start() & noexcept { vp_add(&iters, 1); if (vp_choose(2, "error") || vp_get(&iters) >= 3) ex::set_error((R&&) r, static_cast<E&&>(e)); else ex::set_value((R&&) r, std::false_type{}); } };
  template <ex::receiver R> auto connect(R r) const noexcept -> op<R> { return {(R&&) r}; }
};
template <class S> static void errs(S s) { run r{std::move(s)}; r.start(); r.o.expect_once(); if (vp_get(&convthrew)) r.o.expect_error(77); else if (r.o.ch() == error) r.o.expect_error(6); }
VP_TEST(until_error_rvalue) { errs(exec::repeat(err_snd<e2<false>>{})); }
VP_TEST(until_error_lvalue) { errs(exec::repeat(err_snd<const e2<false>&>{})); }
VP_TEST(until_error_throws) { errs(exec::repeat(err_snd<e2<true>>{})); }
VP_TEST(until_error_false) { errs(exec::repeat_until(err_false<e2<false>>{})); }
VP_TEST(until_error_false_lvalue) { errs(exec::repeat_until(err_false<const e2<false>&>{})); }
VP_TEST(until_error_false_throws) { errs(exec::repeat_until(err_false<e2<true>>{})); }
VP_TEST(n_error_rvalue) { errs(exec::repeat_n(err_snd<e2<false>>{}, 3)); }
VP_TEST(n_error_lvalue) { errs(exec::repeat_n(err_snd<const e2<false>&>{}, 3)); }
VP_TEST(n_error_throws) { errs(exec::repeat_n(err_snd<e2<true>>{}, 3)); }
// ---- stop requests end the loop between iterations ----
VP_TEST(n_stop) {
  run_stop r{exec::repeat_n(again<V0, SS>{}, 3), (bool) vp_choose(2, "stopped before")};
  bool pre = r.src.get().stop_requested();
  r.start(); bool asked = false;
  while (kids[0].pending()) { if (!asked && vp_choose(2, "ask to stop")) { asked = true; r.src.get().request_stop(); } int before = vp_get(&iters); fire(0); if (asked) vp_check(vp_get(&iters) == before, "no iteration starts after the stop request"); }
  r.o.expect_once(); if (pre) { vp_check(vp_get(&iters) == 0, "no iteration starts after the stop request"); r.o.expect_stopped(); }
  else if (kids[0].ch() == stopped) r.o.expect_stopped(); else if (!asked) vp_check(r.o.ch() == value, "value");
}
VP_TEST(until_stop) {
  run_stop r{exec::repeat(again<V0, EE>{}), (bool) vp_choose(2, "stopped before")};
  bool pre = r.src.get().stop_requested();
  r.start(); bool asked = false;
  for (int i = 0; kids[0].pending(); ++i) { if (!asked && (i == 2 || vp_choose(2, "ask to stop"))) { asked = true; r.src.get().request_stop(); } int before = vp_get(&iters); fire(0); if (asked) vp_check(vp_get(&iters) == before, "no iteration starts after the stop request"); }
  r.o.expect_once(); if (pre) { vp_check(vp_get(&iters) == 0, "no iteration starts after the stop request"); r.o.expect_stopped(); }
  else if (kids[0].ch() == error) r.o.expect_error(kids[0].pay()); else r.o.expect_stopped();
}
// ---- the child's operation is nested at most as deep as the trampoline allows ----
template <int N> struct nest {
  using sender_concept = ex::sender_tag;
  template <class, class...> static consteval auto get_completion_signatures() noexcept -> ex::completion_signatures<V0> { return {}; }
  template <class R> struct op { using operation_state_concept = ex::operation_state_tag; R r; void start() & noexcept { long d = vp_add(&depth, 1); vp_check(d <= N, "the nesting of iterations is bounded"); vp_add(&iters, 1); R q((R&&) r); ex::set_value((R&&) q); vp_add(&depth, -1); } };
  template <ex::receiver R> auto connect(R r) const noexcept -> op<R> { return {(R&&) r}; }
};
VP_TEST(n_depth_close) { vp_config("stackspan", 8); run r{exec::repeat_n(nest<17>{}, 60)}; r.start(); r.o.expect_once(); vp_check(vp_get(&iters) == 60 && r.o.ch() == value, "every iteration runs"); }
VP_TEST(until_depth_close) { vp_config("stackspan", 8); run r{exec::repeat_until(ex::then(nest<17>{}, []() noexcept { return vp_get(&iters) == 60; }))}; r.start(); r.o.expect_once(); vp_check(vp_get(&iters) == 60 && r.o.ch() == value, "every iteration runs"); }
VP_TEST(n_depth) { run r{exec::repeat_n(nest<17>{}, 60)}; r.start(); r.o.expect_once(); vp_check(vp_get(&iters) == 60 && r.o.ch() == value, "every iteration runs"); }
VP_TEST(until_depth) { run r{exec::repeat_until(ex::then(nest<17>{}, []() noexcept { return vp_get(&iters) == 60; }))}; r.start(); r.o.expect_once(); vp_check(vp_get(&iters) == 60 && r.o.ch() == value, "every iteration runs"); }
VP_TEST(nested_loops) { run r{exec::repeat_n(exec::repeat_n(nest<17>{}, 5), 6)}; r.start(); r.o.expect_once(); vp_check(vp_get(&iters) == 30 && r.o.ch() == value, "every iteration runs"); }
// ---- sequence ----
template <class S> static void seq2(S s) {
  { run r{std::move(s)}; r.start(); fire(0);
    if (kids[0].ch() == value) { vp_check(kids[1].started() == 1, "the next sender is started when the previous completed with a value"); vp_check(kids[0].destroyed() >= 1, "the finished operation is destroyed"); fire(1); r.o.expect_once();
      if (kids[1].ch() == value) r.o.expect_value(kids[1].pay()); else if (kids[1].ch() == error) r.o.expect_error(kids[1].pay()); else r.o.expect_stopped(); }
    else { vp_check(!kids[1].started(), "nothing is started after an error or a stop"); r.o.expect_once(); if (kids[0].ch() == error) r.o.expect_error(kids[0].pay()); else r.o.expect_stopped(); } }
  vp_check(kids[0].destroyed() == kids[0].connected() && kids[1].destroyed() == kids[1].connected(), "every operation is destroyed");
}
VP_TEST(seq_two) { seq2(exec::sequence(snd<0, m_any, V0, EE, SS>{}, snd<1, m_any, VV, EE, SS>{})); }
VP_TEST(seq_one) { run r{exec::sequence(snd<0, m_any, VV, EE, SS>{})}; r.start(); fire(0); r.o.expect_once(); if (kids[0].ch() == value) r.o.expect_value(kids[0].pay()); else if (kids[0].ch() == error) r.o.expect_error(kids[0].pay()); else r.o.expect_stopped(); }
VP_TEST(seq_three) {
  { run r{exec::sequence(snd<0, m_any, V0, EE, SS>{}, snd<1, m_any, V0, EE, SS>{}, snd<2, m_any, VL, EE, SS>{})}; r.start(); 
    for (int i = 0; i < 3; ++i) { vp_check(kids[i].started() == 1, "each sender is started in its turn"); for (int j = i + 1; j < 3; ++j) if (!kids[i].completed()) vp_check(!kids[j].started(), "and not before the previous one completed"); fire(i); vp_check(kids[i].completed(), "completed");
      if (kids[i].ch() != value || i == 2) { r.o.expect_once(); for (int j = i + 1; j < 3; ++j) vp_check(!kids[j].started(), "nothing is started after an error or a stop");
        if (kids[i].ch() == value) r.o.expect_value(kids[i].pay()); else if (kids[i].ch() == error) r.o.expect_error(kids[i].pay()); else r.o.expect_stopped(); break; } } }
  for (int i = 0; i < 3; ++i) vp_check(kids[i].destroyed() == kids[i].connected(), "every operation is destroyed");
}
VP_TEST(seq_connect_throws) {
  { run r{exec::sequence(snd<0, m_any, V0, SS>{}, throwing_connect_snd<1, m_any, VL, SS>{})}; r.start(); fire(0);
    if (kids[0].ch() == stopped) r.o.expect_stopped(); else if (!kids[1].connected()) r.o.expect_error(55); else { fire(1); if (kids[1].ch() == value) r.o.expect_value(kids[1].pay()); else r.o.expect_stopped(); } r.o.expect_once(); }
  vp_check(kids[0].destroyed() == kids[0].connected() && kids[1].destroyed() == kids[1].connected(), "every operation is destroyed");
}
template <int Id, class... Sigs> struct cc_snd : snd<Id, m_any, Sigs...> { cc_snd() = default; cc_snd(cc_snd&&) noexcept = default; cc_snd(const cc_snd&) noexcept(false) { if (vp_choose(2, "copy throws")) throw err{56}; } };
VP_TEST(seq_lvalue) { // connecting an lvalue copies the senders, which may throw
  { auto s = exec::sequence(cc_snd<0, V0, SS>{}, cc_snd<1, VL, SS>{}); using S = decltype(s)&;
  try { run<S> r{s}; r.start(); fire(0); if (kids[0].ch() == value) fire(1); r.o.expect_once(); } catch (const err& e) { vp_check(e.e == 56, "the copy's exception leaves connect"); } }
  vp_check(kids[0].destroyed() == kids[0].connected() && kids[1].destroyed() == kids[1].connected(), "every operation is destroyed");
}
VP_TEST(seq_first_connect_throws) {
  try { run r{exec::sequence(throwing_connect_snd<0, m_any, V0, SS>{}, snd<1, m_any, VL, SS>{})}; r.start(); fire(0); fire(1); r.o.expect_once(); vp_check(kids[0].connected() == 1, "connected"); }
  catch (const err& e) { vp_check(e.e == 55 && !kids[0].connected() && !kids[1].connected(), "the exception of connecting the first sender leaves connect"); }
}
template <int Id, class... Sigs> struct mt_snd : snd<Id, m_any, Sigs...> { char n{}; mt_snd() = default; mt_snd(mt_snd&&) noexcept(false) { if (vp_choose(2, "move throws")) throw err{57}; } };
VP_TEST(seq_move_throws) {
  { try { run r{exec::sequence(snd<0, m_inline, V0>{}, mt_snd<1, VL>{})}; r.start(); fire(1); r.o.expect_once(); if (kids[1].connected()) r.o.expect_value(kids[1].pay()); else r.o.expect_error(57); }
  catch (const err& e) { vp_check(e.e == 57 && !kids[1].connected(), "the exception leaves connect"); } }
  vp_check(kids[0].destroyed() == kids[0].connected() && kids[1].destroyed() == kids[1].connected(), "every operation is destroyed");
}
VP_TEST(seq_never_started) { { run r{exec::sequence(snd<0, m_any, V0, SS>{}, snd<1, m_any, VL, SS>{})}; } vp_check(kids[0].connected() == 1 && kids[0].destroyed() == 1 && !kids[0].started(), "released"); }

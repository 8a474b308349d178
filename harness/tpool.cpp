// exec::thread_pool_base: a pool that only says how to run a task becomes a scheduler with parallel bulk (P33)
#include "vp.hpp"
#include <atomic>
#include <exec/thread_pool_base.hpp>
using namespace vp;
static long plain[8];
static char cnt[16], enq, tids[4], lim, thr[8];
// Par: what the pool says it can do at once; Sub: 0 runs a task within enqueue, 1 on a thread of its own
template <int Par, int Sub> struct mpool : exec::thread_pool_base<mpool<Par, Sub>> {
  char st = 1;
  mpool() = default; mpool(const mpool&) = delete; ~mpool() { vp_check(st == 1, "destroyed once"); st = 0; }
  [[nodiscard]] auto available_parallelism() const noexcept -> std::uint32_t { vp_check(st == 1, "the pool is alive"); return Par; }
  [[nodiscard]] static constexpr auto forward_progress_guarantee() noexcept -> ex::forward_progress_guarantee { return ex::forward_progress_guarantee::concurrent; }
  struct job { exec::_pool_::task_base* t; std::uint32_t id; };
  static void run(void* p) noexcept { auto* j = static_cast<job*>(p); auto jj = *j; delete j; jj.t->execute_(jj.t, jj.id); }
  void enqueue(exec::_pool_::task_base* t, std::uint32_t id = 0) noexcept {
    vp_check(st == 1, "the pool is alive"); vp_add(&enq, 1); vp_check(id < (std::uint32_t) Par, "no more agents than the pool has"); vp_add(&tids[id], 1);
    if constexpr (Sub == 0) t->execute_(t, id); else vp_spawn(&run, new job{t, id}, "pool task");
  }
};
template <class S, class Env = ex::env<>>
struct prun {
  using R = rcv<Env, ex::completion_signatures_of_t<S, Env>>;
  obs o; rcv_hooks h; box<ex::connect_result_t<S, R>> b; char done; int exp = 0;
  explicit prun(S s, Env e = {}) : h{&o, &after, this} { b.emplace_from([&] { return ex::connect(static_cast<S&&>(s), R{&h, static_cast<Env&&>(e)}); }); vp_check(vp_get(&enq) == 0, "connecting runs nothing"); }
  static void after(void* p) { auto* q = static_cast<prun*>(p); q->exp += (int) plain[0] + (int) plain[1] + (int) plain[2]; q->b.destroy(); vp_event_set(&q->done); }
  void start() noexcept { ex::start(b.get()); }
  void wait() { vp_event_wait(&done); o.expect_once(); }
};
template <class S> prun(S) -> prun<S>;
template <class S, class E> prun(S, E) -> prun<S, E>;

template <int Par, int Sub> static void sched() {
  mpool<Par, Sub> p; auto s = p.get_scheduler(); plain[3] = 5;
  prun r{s.schedule() | ex::then([]() noexcept { vp_check(plain[3] == 5, "what the submitter did is visible on the pool"); plain[0] = 4; })};
  r.start(); r.wait(); vp_check(r.o.ch() == value, "schedule completes with set_value"); vp_check(Sub ? r.o.thread() != 0 : r.o.thread() == 0, "where the pool runs its tasks"); vp_check(vp_get(&enq) == 1, "one task is enqueued"); vp_check(plain[0] == 4, "what ran on the pool is visible afterwards");
}
VP_TEST(sched_inline) { sched<1, 0>(); }
VP_TEST(sched_thread) { vp_config("preempt", 2); sched<2, 1>(); }
VP_TEST(queries) {
  mpool<2, 0> p, q; auto s = p.get_scheduler(); 
  vp_check(s == p.get_scheduler() && !(s == q.get_scheduler()), "schedulers of one pool are equal, of two are not");
  vp_check(ex::get_completion_scheduler<ex::set_value_t>(ex::get_env(s.schedule()), ex::env<>{}) == s, "its senders complete on it");
  vp_check(ex::get_completion_scheduler<ex::set_value_t>(ex::get_env(q.get_scheduler().schedule()), ex::env<>{}) == q.get_scheduler(), "its senders complete on it");
  vp_check(ex::get_forward_progress_guarantee(s) == ex::forward_progress_guarantee::concurrent, "the pool's forward progress guarantee");
  vp_check(static_cast<const exec::thread_pool_base<mpool<2, 0>>&>(p).available_parallelism() == 2, "the pool's parallelism");
}
VP_TEST(sched_stop) {
  vp_config("preempt", 2);
  mpool<1, 1> p; ex::inplace_stop_source src; int when = vp_choose(2, "stop before start"); if (when) src.request_stop();
  prun r{p.get_scheduler().schedule(), stop_env{src.get_token()}};
  r.start(); if (!when) src.request_stop(); r.wait();
  vp_check(r.o.ch() == value || r.o.ch() == stopped, "value or stopped"); if (when) r.o.expect_stopped(); vp_check(r.o.thread() != 0, "on the pool");
}
VP_TEST(sched_no_stop) { mpool<1, 0> p; ex::inplace_stop_source src; prun r{p.get_scheduler().schedule(), stop_env{src.get_token()}}; r.start(); r.wait(); vp_check(r.o.ch() == value, "it completes with set_value"); }
// ---- bulk --------------------------------------------------------------------------
struct visit { void operator()(int i) const noexcept { vp_check(i >= 0 && i < vp_get(&lim), "no index beyond the shape"); vp_add(&cnt[i], 1); if (i < 3) plain[i] = i + 1; } };
template <int Par, int Sub, class P, class Shape> static void visits(P pol, Shape shape) {
  plain[0] = plain[1] = plain[2] = 0; vp_set(&lim, (long) shape);
  mpool<Par, Sub> p;
  prun r{ex::schedule(p.get_scheduler()) | ex::bulk(pol, shape, visit{})};
  r.start(); r.wait(); vp_check(r.o.ch() == value, "bulk completes with set_value");
  for (int i = 0; i < 6; ++i) vp_check(vp_get(&cnt[i]) == (i < shape), "every index is visited exactly once, no other is");
  vp_check(r.exp == (shape >= 1) * 1 + (shape >= 2) * 2 + (shape >= 3) * 3, "what every call did is visible to the receiver");
  for (int i = 1; i < Par; ++i) vp_check(vp_get(&tids[i]) <= 1, "each agent at most once");
  vp_check(vp_get(&enq) <= 1 + Par && vp_get(&enq) <= 1 + (shape > 0 ? (long) shape : 0), "no more tasks than agents and indices");
}
VP_TEST(bulk_inline_1) { visits<1, 0>(ex::par, vp_choose(4, "shape")); }
VP_TEST(bulk_inline_3) { visits<3, 0>(ex::par, vp_choose(6, "shape")); }
VP_TEST(bulk_1) { vp_config("preempt", 1); visits<1, 1>(ex::par, vp_choose(3, "shape")); }
VP_TEST(bulk_2) { vp_config("preempt", 2); visits<2, 1>(ex::par, vp_choose(4, "shape")); }
VP_TEST(bulk_3) { vp_config("preempt", 1); visits<3, 1>(ex::par_unseq, vp_choose(5, "shape")); }
VP_TEST(bulk_negative) { visits<2, 0>(ex::par, -1 - vp_choose(2, "shape")); }
VP_TEST(bulk_char) { visits<3, 0>(ex::par, (signed char) (vp_choose(5, "shape") - 1)); }
VP_TEST(bulk_unsigned) { visits<3, 0>(ex::par, (unsigned) vp_choose(5, "shape")); }
VP_TEST(bulk_seq) {                  // a sequenced bulk has one call at a time, in order
  vp_config("preempt", 1); mpool<2, 1> p; static long nx; nx = 0; int n = vp_choose(4, "shape");
  if (vp_choose(2, "unseq")) { prun r{ex::schedule(p.get_scheduler()) | ex::bulk(ex::unseq, n, [](int i) noexcept { vp_check(i == nx++, "in order"); })}; r.start(); r.wait(); }
  else { prun r{ex::schedule(p.get_scheduler()) | ex::bulk(ex::seq, n, [](int i) noexcept { vp_check(i == nx++, "in order"); })}; r.start(); r.wait(); }
  vp_check(nx == n, "every index once");
}
VP_TEST(bulk_values) {
  vp_config("preempt", 1);
  mpool<2, 1> p;
  prun r{ex::schedule(p.get_scheduler()) | ex::then([]() noexcept { return val{7}; }) | ex::bulk(ex::par, 2, [](int i, val& v) noexcept { vp_check(v.v == 7 && v.st == 1, "the function sees the value"); vp_add(&cnt[i], 1); })};
  r.start(); r.wait(); r.o.expect_value(7); vp_check(vp_get(&cnt[0]) == 1 && vp_get(&cnt[1]) == 1, "every index is visited exactly once");
}
VP_TEST(bulk_value_throws) {
  mpool<1, 0> p; int n = vp_choose(2, "shape");
  prun r{ex::schedule(p.get_scheduler()) | ex::let_value([]() noexcept { return snd<0, m_inline, VT, SS>{}; }) | ex::bulk(ex::par, n, [](int i, tval& v) noexcept { vp_check(v.st == 1, "the function sees the value"); vp_add(&cnt[i], 1); })};
  r.start(); r.wait();
  if (r.o.ch() == value) { r.o.expect_value(kids[0].pay()); vp_check(vp_get(&cnt[0]) == n, "every index is visited exactly once"); }
  else if (r.o.ch() == error) { vp_check(r.o.p() == 77 || r.o.p() == 78, "the exception of the copy"); vp_check(vp_get(&cnt[0]) == 0, "and nothing is called"); }
  else vp_check(kids[0].ch() == stopped, "stopped only when the predecessor was");
}
VP_TEST(bulk_throws) {
  vp_config("preempt", 1);
  mpool<2, 1> p;
  prun r{ex::schedule(p.get_scheduler()) | ex::bulk(ex::par, 2, [](int i) { if (vp_choose(2, "throws")) { vp_set(&thr[i], 1); throw err{40 + i}; } })};
  r.start(); r.wait();
  bool t0 = vp_get(&thr[0]), t1 = vp_get(&thr[1]);
  if (!t0 && !t1) vp_check(r.o.ch() == value, "bulk completes with set_value"); else { vp_check(r.o.ch() == error, "an exception becomes the error"); vp_check((t0 && r.o.p() == 40) || (t1 && r.o.p() == 41), "the error is one of those thrown"); }
}
VP_TEST(bulk_predecessor) {
  mpool<1, 0> p;
  prun r{ex::schedule(p.get_scheduler()) | ex::let_value([]() noexcept { return snd<0, m_inline, V0, EE, SS>{}; }) | ex::bulk(ex::par, 2, [](int i) noexcept { vp_add(&cnt[i], 1); })}; r.start(); r.wait();
  vp_check(r.o.ch() == kids[0].ch(), "bulk completes as its predecessor"); vp_check(vp_get(&cnt[0]) == (kids[0].ch() == value), "the function is called only for a value"); if (r.o.ch() == error) vp_check(r.o.p() == kids[0].pay(), "with its error");
}
VP_TEST(bulk_chunked) {
  mpool<2, 0> p; int n = vp_choose(6, "shape");
  prun r{ex::schedule(p.get_scheduler()) | ex::bulk_chunked(ex::par, n, [](int b, int e) noexcept { vp_check(b < e, "a chunk is not empty"); for (; b < e; ++b) vp_add(&cnt[b], 1); })};
  r.start(); r.wait(); for (int i = 0; i < 6; ++i) vp_check(vp_get(&cnt[i]) == (i < n), "the chunks cover every index exactly once");
}
// a function of which only the calls that are not made are noexcept
struct odd { void operator()(int) const noexcept {} void operator()(int b, int) const { vp_add(&cnt[0], 1); if (vp_choose(2, "throws")) { vp_set(&thr[0], 1); throw err{41}; } } };
VP_TEST(bulk_chunked_throws) {
  mpool<1, 0> p; prun r{ex::schedule(p.get_scheduler()) | ex::bulk_chunked(ex::par, 2, odd{})};
  r.start(); r.wait(); if (vp_get(&thr[0])) r.o.expect_error(41); else vp_check(r.o.ch() == value, "it completes with set_value");
}
#ifndef NOUNCHUNKED
VP_TEST(bulk_unchunked) {
  vp_config("preempt", 1); mpool<2, 1> p; int n = vp_choose(4, "shape");
  prun r{ex::schedule(p.get_scheduler()) | ex::bulk_unchunked(ex::par, n, [](int i) noexcept { vp_add(&cnt[i], 1); })};
  r.start(); r.wait(); for (int i = 0; i < 6; ++i) vp_check(vp_get(&cnt[i]) == (i < n), "every index is visited exactly once");
}
#endif
VP_TEST(bulk_destroyed) {            // connected but not started
  mpool<1, 0> p; { prun r{ex::schedule(p.get_scheduler()) | ex::then([]() noexcept { return val{7}; }) | ex::bulk(ex::par, 2, [](int, val&) noexcept {})}; r.b.destroy(); } vp_check(vp_get(&enq) == 0, "nothing runs");
}
VP_TEST(bulk_env) {                  // the predecessor sees the receiver's environment; the bulk sender has its predecessor's attributes
  mpool<1, 0> p; ex::inplace_stop_source src; src.request_stop();
  auto s = ex::schedule(p.get_scheduler()) | ex::bulk(ex::par, 2, [](int) noexcept { vp_add(&cnt[0], 1); });
  vp_check(ex::get_completion_scheduler<ex::set_value_t>(ex::get_env(s), ex::env<>{}) == p.get_scheduler(), "it completes where its predecessor does");
  prun r{std::move(s), stop_env{src.get_token()}}; r.start(); r.wait(); r.o.expect_stopped(); vp_check(vp_get(&cnt[0]) == 0, "nothing is called");
}
VP_TEST(bulk_many_agents) {          // the pool has more agents than the shape's type can count
  mpool<256, 0> p; vp_set(&lim, 3);
  if (vp_choose(2, "unsigned")) { prun r{ex::schedule(p.get_scheduler()) | ex::bulk(ex::par, (unsigned char) 3, visit{})}; r.start(); r.wait(); vp_check(r.o.ch() == value, "bulk completes with set_value"); }
  else { prun r{ex::schedule(p.get_scheduler()) | ex::bulk(ex::par, (signed char) 3, visit{})}; r.start(); r.wait(); vp_check(r.o.ch() == value, "bulk completes with set_value"); }
  for (int i = 0; i < 6; ++i) vp_check(vp_get(&cnt[i]) == (i < 3), "every index is visited exactly once, no other is");
}
// values that can only be moved, and moving them never throws
struct mo { long v; char st = 1; explicit mo(long x) noexcept : v(x) {} mo(mo&& o) noexcept : v(o.v) { vp_check(o.st == 1, "moved while alive"); o.v = -1; } ~mo() { vp_check(st == 1, "destroyed once"); st = 0; } friend long as_long(const mo& m) { vp_check(m.st == 1, "delivered alive"); return m.v; } };
template <class S, class Env = ex::env<>> constexpr bool says_eptr = !std::is_same_v<ex::error_types_of_t<S, Env, ex::__mlist>, ex::__mlist<>>;
VP_TEST(bulk_move_only) {
  mpool<2, 0> p; int n = vp_choose(3, "shape");
  auto s = ex::schedule(p.get_scheduler()) | ex::then([]() noexcept { return mo{9}; }) | ex::bulk_chunked(ex::par, n, [](int b, int e, mo& m) noexcept { vp_check(m.v == 9 && m.st == 1, "the function sees the value"); for (; b < e; ++b) vp_add(&cnt[b], 1); });
  vp_check(!says_eptr<decltype(s)>, "nothing can throw: no error is announced");
  prun r{std::move(s)}; r.start(); r.wait(); r.o.expect_value(9); for (int i = 0; i < 4; ++i) vp_check(vp_get(&cnt[i]) == (i < n), "every index is visited exactly once");
}
VP_TEST(bulk_two_signatures) {       // the predecessor completes with one of two values
  mpool<2, 0> p;
  prun r{ex::schedule(p.get_scheduler()) | ex::let_value([]() noexcept { return snd<0, m_inline, VV, VL>{}; }) | ex::bulk(ex::par, 2, [](int i, auto& v) noexcept { vp_check(as_long(v) == kids[0].pay(), "the function sees the value"); vp_add(&cnt[i], 1); })};
  r.start(); r.wait(); vp_check(vp_get(&cnt[0]) == 1 && vp_get(&cnt[1]) == 1, "every index is visited exactly once"); r.o.expect_value(kids[0].pay());
}
// the function keeps its state: all calls are on the one copy in the operation
struct keeps { long n = 0; char st = 1; keeps() = default; keeps(const keeps& o) noexcept : n(o.n) {} ~keeps() { vp_check(st == 1, "destroyed once"); st = 0; } void operator()(int) noexcept { vp_check(st == 1, "the function is alive"); vp_check(n == vp_get(&cnt[0]), "the function keeps its state"); ++n; vp_add(&cnt[0], 1); } };
VP_TEST(bulk_state) { mpool<1, 0> p; prun r{ex::schedule(p.get_scheduler()) | ex::bulk(ex::par, 3, keeps{})}; r.start(); r.wait(); vp_check(vp_get(&cnt[0]) == 3, "three calls"); }
VP_TEST(two_pools) {                 // from one pool to another
  mpool<2, 1> p; mpool<1, 1> q; auto qs = q.get_scheduler();
  prun r{ex::schedule(p.get_scheduler()) | ex::continues_on(qs) | ex::bulk(ex::par, 2, [](int i) noexcept { vp_add(&cnt[i], 1); })};
  r.start(); r.wait(); vp_check(r.o.ch() == value, "it completes with set_value"); vp_check(vp_get(&cnt[0]) == 1 && vp_get(&cnt[1]) == 1, "every index is visited exactly once");
}

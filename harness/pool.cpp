// exec::static_thread_pool: schedule, bulk, schedule_all
#include "vp.hpp"
#include <atomic>
#include <exec/static_thread_pool.hpp>
using namespace vp;
using Pool = exec::static_thread_pool;
static long plain[8];
static char ev[8], cnt[16];

// an operation destroyed in its completion, which then signals
template <class S, class Env = ex::env<>>
struct prun {
  using R = rcv<Env, ex::completion_signatures_of_t<S, Env>>;
  obs o; rcv_hooks h; box<ex::connect_result_t<S, R>> b; char done; int exp = 0;
  explicit prun(S s, Env e = {}) : h{&o, &after, this} { b.emplace_from([&] { return ex::connect(static_cast<S&&>(s), R{&h, static_cast<Env&&>(e)}); }); }
  static void after(void* p) { auto* q = static_cast<prun*>(p); q->exp += (int) plain[0] + (int) plain[1] + (int) plain[2]; q->b.destroy(); vp_event_set(&q->done); }
  void start() noexcept { ex::start(b.get()); }
  void wait() { vp_event_wait(&done); o.expect_once(); }
};
template <class S> prun(S) -> prun<S>;
template <class S, class E> prun(S, E) -> prun<S, E>;

VP_TEST(unused) { Pool p(2); vp_check(p.available_parallelism() == 2, "the pool reports its size"); if (vp_choose(2, "stop")) p.request_stop(); }
VP_TEST(one) {
  vp_config("preempt", 3);
  Pool p(1);
  prun r{p.get_scheduler().schedule()};
  r.start(); r.wait(); vp_check(r.o.ch() == value, "schedule completes with set_value"); vp_check(r.o.thread() != 0, "on a pool thread");
}
VP_TEST(two_tasks) {
  vp_config("preempt", 2);
  Pool p(2); auto s = p.get_scheduler();
  prun a{s.schedule()}; prun b{ex::schedule(s)};
  a.start(); b.start(); a.wait(); b.wait();
  vp_check(a.o.ch() == value && b.o.ch() == value, "schedule completes with set_value"); vp_check(a.o.thread() != 0 && b.o.thread() != 0, "on a pool thread");
}
VP_TEST(two_submitters) {
  vp_config("preempt", 2);
  Pool p(1); auto s = p.get_scheduler(); static decltype(s)* SP; SP = &s;
  prun a{s.schedule()}; prun b{s.schedule()}; static decltype(b)* B; B = &b;
  vp_spawn([](void*) { B->start(); }, nullptr, "second submitter");
  a.start(); a.wait(); b.wait();
  vp_check(a.o.ch() == value && b.o.ch() == value, "schedule completes with set_value");
  vp_join(1 + 1);
}
VP_TEST(two_schedulers) {            // two threads reach the pool for the first time at once
  vp_config("preempt", 3);
  Pool p(1); static Pool* P; P = &p;
  auto go = [](void*) { prun b{P->get_scheduler().schedule()}; b.start(); b.wait(); vp_check(b.o.ch() == value, "schedule completes with set_value"); };
  vp_spawn(+go, nullptr, "second submitter");
  go(nullptr);
  vp_join(1 + 1);
}
VP_TEST(overflow) {                  // more tasks than the local queue holds
  vp_config("preempt", 0);
  Pool p(1, {.numBlocks = 1, .blockSize = 1}); auto s = p.get_scheduler(); static decltype(s)* SP; SP = &s;
  prun a{s.schedule() | ex::let_value([]() noexcept { return ex::when_all(SP->schedule(), SP->schedule(), SP->schedule(), SP->schedule()); })};
  a.start(); a.wait(); vp_check(a.o.ch() == value, "schedule completes with set_value"); vp_check(a.o.thread() != 0, "on a pool thread");
}
VP_TEST(nested) {                    // scheduled from a pool thread
  vp_config("preempt", 1);
  Pool p(1); auto s = p.get_scheduler(); static decltype(s)* SP; SP = &s;
  prun a{s.schedule() | ex::let_value([]() noexcept { return SP->schedule(); })};
  a.start(); a.wait(); vp_check(a.o.ch() == value, "schedule completes with set_value"); vp_check(a.o.thread() != 0, "on a pool thread");
}
VP_TEST(nested_two) {
  vp_config("preempt", 1);
  Pool p(2); auto s = p.get_scheduler(); static decltype(s)* SP; SP = &s;
  prun a{s.schedule() | ex::let_value([]() noexcept { return ex::when_all(SP->schedule(), SP->schedule()); })};
  a.start(); a.wait(); vp_check(a.o.ch() == value, "schedule completes with set_value"); vp_check(a.o.thread() != 0, "on a pool thread");
}
VP_TEST(on_thread) {
  int t = vp_choose(4, "thread");
  vp_config("preempt", t == 1 ? 2 : 1);
  Pool p(2);
  prun a{p.get_scheduler_on_thread(t).schedule()}; prun b{p.get_constrained_scheduler(&exec::nodemask::any()).schedule()};
  a.start(); b.start(); a.wait(); b.wait(); vp_check(a.o.ch() == value && b.o.ch() == value, "schedule completes with set_value"); vp_check(a.o.thread() != 0 && b.o.thread() != 0, "on a pool thread");
  if (t < 2) vp_check(a.o.thread() == t + 1, "on the thread asked for");
}
VP_TEST(stopped_before) {
  vp_config("preempt", 1);
  Pool p(1); ex::inplace_stop_source src; int when = vp_choose(2, "stop before start"); if (when) src.request_stop();
  prun r{p.get_scheduler().schedule(), stop_env{src.get_token()}};
  r.start(); if (!when) src.request_stop(); r.wait();
  vp_check(r.o.ch() == value || r.o.ch() == stopped, "value or stopped"); if (when) r.o.expect_stopped(); vp_check(r.o.thread() != 0, "on a pool thread");
}
VP_TEST(publishes) {
  vp_config("preempt", 1);
  Pool p(1); plain[0] = 0; plain[3] = 5;
  prun r{p.get_scheduler().schedule() | ex::then([]() noexcept { vp_check(plain[3] == 5, "what the submitter did is visible on the pool"); plain[0] = 4; })};
  r.start(); r.wait(); vp_check(plain[0] == 4, "what ran on the pool is visible afterwards");
}
VP_TEST(thread_failure) {            // a thread cannot be created: the constructor throws, no thread is left
  vp_config("threadfail", 1);
  try { Pool p(2); } catch (...) { }
}
// ---- bulk --------------------------------------------------------------------------
struct visit { void operator()(int i) const noexcept { vp_add(&cnt[i], 1); if (i < 3) plain[i] = i + 1; } };
template <class P> void bulk_visits(P pol, int threads, int shape) {
  plain[0] = plain[1] = plain[2] = 0;
  Pool p(threads);
  auto s = ex::schedule(p.get_scheduler()) | ex::bulk(pol, shape, visit{});
  prun r{std::move(s)};
  r.start(); r.wait(); vp_check(r.o.ch() == value, "bulk completes with set_value");
  for (int i = 0; i < 8; ++i) vp_check(vp_get(&cnt[i]) == (i < shape), "every index is visited exactly once, no other is");
  vp_check(r.exp == (shape >= 1) * 1 + (shape >= 2) * 2 + (shape >= 3) * 3, "what every call did is visible to the receiver");
}
VP_TEST(bulk_par_1) { vp_config("preempt", 1); bulk_visits(ex::par, 1, vp_choose(4, "shape")); }
VP_TEST(bulk_par_2) { vp_config("preempt", 2); bulk_visits(ex::par, 2, 1 + vp_choose(2, "shape")); }
VP_TEST(bulk_par_3) { vp_config("preempt", 1); bulk_visits(ex::par, 2, vp_choose(2, "shape") * 3); }
VP_TEST(bulk_par_5) { vp_config("preempt", 0); bulk_visits(ex::par_unseq, 2, 5); }
VP_TEST(bulk_negative) { vp_config("preempt", 0); bulk_visits(ex::par, 2, -2); }
VP_TEST(bulk_negative_seq) { vp_config("preempt", 0); bulk_visits(ex::seq, 2, -2); }
VP_TEST(bulk_seq) { vp_config("preempt", 0); bulk_visits(ex::seq, 2, 3); }
VP_TEST(bulk_values) {
  vp_config("preempt", 1);
  Pool p(2);
  auto s = ex::schedule(p.get_scheduler()) | ex::then([]() noexcept { return val{7}; }) | ex::bulk(ex::par, 2, [](int i, val& v) noexcept { vp_check(v.v == 7 && v.st == 1, "the function sees the value"); vp_add(&cnt[i], 1); });
  prun r{std::move(s)};
  r.start(); r.wait(); r.o.expect_value(7); vp_check(vp_get(&cnt[0]) == 1 && vp_get(&cnt[1]) == 1, "every index is visited exactly once");
}
VP_TEST(bulk_value_throws) {         // keeping the values throws, the function does not
  vp_config("preempt", 0);
  Pool p(1); int n = vp_choose(2, "shape");
  prun r{ex::schedule(p.get_scheduler()) | ex::let_value([]() noexcept { return snd<0, m_inline, VT, SS>{}; }) | ex::bulk(ex::par, n, [](int i, tval& v) noexcept { vp_check(v.st == 1, "the function sees the value"); vp_add(&cnt[i], 1); })};
  r.start(); r.wait();
  if (r.o.ch() == value) { r.o.expect_value(kids[0].pay()); vp_check(vp_get(&cnt[0]) == n, "every index is visited exactly once"); }
  else if (r.o.ch() == error) { vp_check(r.o.p() == 77 || r.o.p() == 78, "the exception of the copy"); }
  else vp_check(kids[0].ch() == stopped, "stopped only when the predecessor was");
}
VP_TEST(bulk_throws) {
  vp_config("preempt", 1);
  Pool p(2); 
  auto s = ex::schedule(p.get_scheduler()) | ex::bulk(ex::par, 2, [](int i) { if (vp_choose(2, "throws")) { vp_set(&cnt[8 + i], 1); throw err{40 + i}; } });
  prun r{std::move(s)};
  r.start(); r.wait();
  bool t0 = vp_get(&cnt[8]), t1 = vp_get(&cnt[9]);
  if (!t0 && !t1) vp_check(r.o.ch() == value, "bulk completes with set_value"); else { vp_check(r.o.ch() == error, "an exception becomes the error"); vp_check((t0 && r.o.p() == 40) || (t1 && r.o.p() == 41), "the error is one of those thrown"); }
}
VP_TEST(bulk_predecessor) {          // errors and stopped pass by
  vp_config("preempt", 0);
  Pool p(1);
  auto s = ex::schedule(p.get_scheduler()) | ex::let_value([]() noexcept { return snd<0, m_inline, V0, EE, SS>{}; }) | ex::bulk(ex::par, 2, [](int i) noexcept { vp_add(&cnt[i], 1); });
  prun r{std::move(s)}; r.start(); r.wait();
  vp_check(r.o.ch() == kids[0].ch(), "bulk completes as its predecessor"); vp_check(vp_get(&cnt[0]) == (kids[0].ch() == value), "the function is called only for a value"); if (r.o.ch() == error) vp_check(r.o.p() == kids[0].pay(), "with its error");
}
VP_TEST(bulk_chunked) {
  vp_config("preempt", 0);
  Pool p(2);
  int n = vp_choose(4, "shape");
  prun r{ex::schedule(p.get_scheduler()) | ex::bulk_chunked(ex::par, n, [](int b, int e) noexcept { vp_check(b < e, "a chunk is not empty"); for (; b < e; ++b) vp_add(&cnt[b], 1); })};
  r.start(); r.wait(); for (int i = 0; i < 6; ++i) vp_check(vp_get(&cnt[i]) == (i < n), "the chunks cover every index exactly once");
}
VP_TEST(bulk_unchunked) {
  vp_config("preempt", 0);
  Pool p(2);
  int n = vp_choose(4, "shape");
  prun r{ex::schedule(p.get_scheduler()) | ex::bulk_unchunked(ex::par, n, [](int i) noexcept { vp_add(&cnt[i], 1); })};
  r.start(); r.wait(); for (int i = 0; i < 6; ++i) vp_check(vp_get(&cnt[i]) == (i < n), "every index is visited exactly once");
}
// even_share: any shape, any thread count
VP_TEST(even_share) {
  int n = vp_choose(12, "shape"); unsigned t = 1 + vp_choose(5, "threads"); int at = 0;
  for (unsigned i = 0; i < t; ++i) { auto [b, e] = exec::_pool_::even_share(n, i, t); vp_check(b == at && e >= b, "the shares are adjacent"); vp_check((unsigned) (e - b) <= (unsigned) n / t + 1, "and even"); at = e; }
  vp_check(at == n, "and cover the shape");
}
// ---- schedule_all --------------------------------------------------------------------
#include <exec/sequence_senders.hpp>
struct seq_rcv {
  using receiver_concept = ex::receiver_tag;
  rcv_hooks* h;
  template <class Item> auto set_next(Item&& item) noexcept { return ex::then(static_cast<Item&&>(item), [](int i) noexcept { vp_check(vp_thread_id() != 0, "an item runs on a pool thread"); vp_add(&cnt[i], 1); plain[i] = i + 1; }) | ex::upon_stopped([]() noexcept {}); }
  void set_value() noexcept { rcv_hooks k = *h; k.o->complete(value); if (k.after) k.after(k.arg); }
  template <class E> void set_error(E&& e) noexcept { rcv_hooks k = *h; k.o->complete(error, e); if (k.after) k.after(k.arg); }
  void set_stopped() noexcept { rcv_hooks k = *h; k.o->complete(stopped); if (k.after) k.after(k.arg); }
  auto get_env() const noexcept -> ex::env<> { return {}; }
};
struct items { int n; int* begin() const noexcept { static int v[4] = {0, 1, 2, 3}; return v; } int* end() const noexcept { return begin() + n; } };
template <class S> struct srun {
  using op_t = exec::subscribe_result_t<S, seq_rcv>;
  obs o; rcv_hooks h; box<op_t> b; char done; long exp = 0;
  explicit srun(S s) : h{&o, &after, this} { b.emplace_from([&]() -> op_t { return exec::subscribe(static_cast<S&&>(s), seq_rcv{&h}); }); }
  static void after(void* p) { auto* q = static_cast<srun*>(p); q->exp += plain[0] + plain[1] + plain[2]; q->b.destroy(); vp_event_set(&q->done); }
  void start() noexcept { ex::start(b.get()); }
  void wait() { vp_event_wait(&done); o.expect_once(); }
};
template <class S> srun(S) -> srun<S>;
static void all_items(int threads, int n) {
  plain[0] = plain[1] = plain[2] = 0;
  Pool p(threads);
  srun r{exec::schedule_all(p, items{n})};
  r.start(); r.wait(); vp_check(r.o.ch() == value, "the sequence completes with set_value");
  for (int i = 0; i < 4; ++i) vp_check(vp_get(&cnt[i]) == (i < n), "every item is visited exactly once");
  vp_check(r.exp == (n >= 1) * 1 + (n >= 2) * 2 + (n >= 3) * 3, "what every item did is visible to the receiver");
}
VP_TEST(schedule_all_1) { vp_config("preempt", 1); all_items(1, vp_choose(4, "items")); }
VP_TEST(schedule_all_2) { vp_config("preempt", 2); all_items(2, 1 + vp_choose(2, "items")); }

// items that are started later than the sequence, or whose connection fails
struct late_rcv : seq_rcv {
  template <class Item> auto set_next(Item&& item) noexcept {
    return ex::let_value(snd<0, m_any, V0>{}, [item = std::move(item)]() noexcept { return ex::then(item, [](int i) noexcept { vp_check(vp_thread_id() != 0, "an item runs on a pool thread"); vp_add(&cnt[i], 1); }); });
  }
};
template <class R> struct tj_op { using operation_state_concept = ex::operation_state_tag; R r; long st = 1; tj_op(R&& x) noexcept : r(static_cast<R&&>(x)) {} tj_op(tj_op&&) = delete; ~tj_op() { vp_check(st == 1, "only what was connected is destroyed"); st = 0; } void start() & noexcept { ex::set_value(static_cast<R&&>(r)); } };
struct throwing_just {
  using sender_concept = ex::sender_tag;
  template <class, class...> static consteval auto get_completion_signatures() noexcept -> ex::completion_signatures<V0> { return {}; }
  template <ex::receiver R> auto connect(R r) const noexcept(false) -> tj_op<R> { if (vp_choose(2, "connect throws")) throw err{55}; return tj_op<R>{static_cast<R&&>(r)}; }
};
struct odd_rcv : seq_rcv {
  template <class Item> auto set_next(Item&& item) noexcept { vp_add(&cnt[8], 1); return ex::when_all(throwing_just{}, ex::then(static_cast<Item&&>(item), [](int i) noexcept { vp_add(&cnt[i], 1); })); }
};
template <class R, class S> struct xrun {
  using op_t = exec::subscribe_result_t<S, R>;
  obs o; rcv_hooks h; box<op_t> b; char done;
  explicit xrun(S s) : h{&o, &after, this} { b.emplace_from([&]() -> op_t { return exec::subscribe(static_cast<S&&>(s), R{{&h}}); }); }
  static void after(void* p) { auto* q = static_cast<xrun*>(p); q->b.destroy(); vp_event_set(&q->done); }
  void start() noexcept { ex::start(b.get()); }
  void wait() { vp_event_wait(&done); o.expect_once(); }
};
VP_TEST(schedule_all_3) { vp_config("preempt", 1); all_items(2, 3); }
VP_TEST(schedule_all_late) {
  vp_config("preempt", 2);
  Pool p(1);
  auto s = exec::schedule_all(p, items{1});
  xrun<late_rcv, decltype(s)> r{std::move(s)};
  r.start(); if (kids[0].pending()) { r.o.expect_none(); fire(0); } r.wait(); vp_check(r.o.ch() == value, "the sequence completes with set_value"); vp_check(vp_get(&cnt[0]) == 1, "the item is visited");
}
VP_TEST(schedule_all_connect_fails) {
  vp_config("preempt", 0);
  Pool p(1);
  auto s = exec::schedule_all(p, items{2});
  xrun<odd_rcv, decltype(s)> r{std::move(s)};
  r.start(); r.wait();
  int n = vp_get(&cnt[8]); vp_check(n >= 1 && n <= 2, "set_next is called once per item");
  if (r.o.ch() == error) { vp_check(r.o.p() == 55, "the exception is delivered"); vp_check(vp_get(&cnt[0]) + vp_get(&cnt[1]) == 0, "no item was visited"); }
  else vp_check(r.o.ch() == value && vp_get(&cnt[0]) == 1 && vp_get(&cnt[1]) == 1, "every item is visited exactly once");
}

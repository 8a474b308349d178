// Asio operations as senders: exec::asio::completion_token and use_sender (P34)
#include "vp.hpp"
#include "asio/exec/asio/asio_config.hpp"
#include <exec/asio/completion_token.hpp>
#include <exec/asio/use_sender.hpp>
using namespace vp;
namespace as = exec::asio; namespace ba = boost::asio;
static char live, ncancel, ran[4], done1;
static long plain, datum;
struct prom { prom() noexcept { vp_add(&live, 1); } prom(prom&& o) noexcept { vp_check(o.st == 1, "moved while alive"); vp_add(&live, 1); } prom(const prom& o) noexcept { vp_check(o.st == 1, "copied while alive"); vp_add(&live, 1); } ~prom() { vp_check(st == 1, "destroyed once"); st = 0; vp_add(&live, -1); } char st = 1; };
// what a thread or the executor does later
struct task { virtual void go() noexcept = 0; virtual ~task() {} };
template <class F> struct tk final : task { F f; explicit tk(F x) : f(static_cast<F&&>(x)) {} void go() noexcept override { static_cast<F&&>(f)(); } };
static task* pend[3];
template <class F> static void later(int i, F f) { pend[i] = new tk<F>(static_cast<F&&>(f)); }
static void work(int i, bool run) { task* t = pend[i]; pend[i] = nullptr; if (!t) return; if (run) t->go(); delete t; }
static void work_thread(void* p) { long k = (long) p; work((int) (k & 3), (k >> 2) != 0); }
static int spawn_work(int i, bool run = true) { return vp_spawn(&work_thread, (void*) (long) (i | (run << 2)), "asio thread"); }
// an executor: K 0 runs at once, 1 queues in slot I, 2 throws and loses it, 3 loses it
template <int K, int I = 0> struct hex {
  long id = 3;
  template <class F> void execute(F f) const { if constexpr (K == 0) static_cast<F&&>(f)(); else if constexpr (K == 1) later(I, static_cast<F&&>(f)); else if constexpr (K == 2) { vp_set(&ran[3], 1); throw err{61}; } }
  template <class F, class A> void post(F&& f, const A&) const { execute(std::decay_t<F>(static_cast<F&&>(f))); }
  template <class F, class A> void dispatch(F&& f, const A&) const { execute(std::decay_t<F>(static_cast<F&&>(f))); }
  template <class F, class A> void defer(F&& f, const A&) const { execute(std::decay_t<F>(static_cast<F&&>(f))); }
  bool operator==(const hex& o) const noexcept { return id == o.id; }
};
template <class H, class E> static auto exec_of(const H& h, E e) { return ba::get_associated_executor(h, e); }
// a sender from an initiating function
template <class Sig, class Tok, class F, class... As> static auto op(Tok t, F f, As&&... as) { return ba::async_initiate<Tok, Sig>(static_cast<F&&>(f), t, static_cast<As&&>(as)...); }
// an operation destroyed inside its completion
template <class S, class Env = ex::env<>> struct arun {
  using R = rcv<Env, ex::completion_signatures_of_t<S, Env>>;
  obs o; rcv_hooks h; box<ex::connect_result_t<S, R>> b; char done;
  explicit arun(S s, Env e = {}) : h{&o, &after, this} { b.emplace_from([&] { return ex::connect(static_cast<S&&>(s), R{&h, static_cast<Env&&>(e)}); }); }
  static void after(void* p) { auto* q = static_cast<arun*>(p); q->b.destroy(); vp_event_set(&q->done); }
  void start() noexcept { ex::start(b.get()); }
  void wait() { vp_event_wait(&done); o.expect_once(); }
};
template <class S> arun(S) -> arun<S>;
template <class S, class E> arun(S, E) -> arun<S, E>;
struct fin { long h = vp_heap(); ~fin() { vp_check(vp_heap() == h, "everything allocated is released"); vp_check(vp_get(&live) == 0, "everything constructed is destroyed"); } };

VP_TEST(at_once) {                   // completed, dropped or failed within the initiating function
  fin g; int k = vp_choose(4, "what the initiation does");
  { arun r{op<void(long)>(as::completion_token, [p = prom(), k](auto h, long x) { vp_check(x == 7 && p.st == 1, "the arguments of the initiation"); int k_ = k; if (k_ == 0) static_cast<decltype(h)&&>(h)(x); if (k_ == 1) h(x); if (k_ == 2) throw err{51}; }, 7l)};
    r.o.expect_none(); r.start(); r.o.expect_once(); if (k < 2) r.o.expect_value(7); if (k == 2) r.o.expect_error(51); if (k == 3) r.o.expect_stopped(); }
}
VP_TEST(not_started) { fin g; { arun r{op<void()>(as::completion_token, [p = prom()](auto h) { h(); })}; r.b.destroy(); r.o.expect_none(); } }
VP_TEST(multishot) {
  fin g; auto s = op<void(long)>(as::completion_token, [p = prom()](auto h, long x) { vp_check(p.st == 1, "alive"); h(x); }, 4l);
  { arun<const decltype(s)&> r{s}; r.start(); r.o.expect_once(); r.o.expect_value(4); } { arun<const decltype(s)&> r{s}; r.start(); r.o.expect_value(4); } { arun r{std::move(s)}; r.start(); r.o.expect_value(4); }
}
VP_TEST(later_) {                    // the handler is kept; it is called or dropped after start has returned; or the initiation still throws
  fin g; int k = vp_choose(2, "the initiation throws"), d = vp_choose(2, "the handler is called");
  { arun r{op<void(long)>(as::completion_token, [k](auto h, long x) { later(0, [h = std::move(h), x]() mutable noexcept { std::move(h)(x); }); if (k) throw err{52}; }, 8l)};
    r.start(); r.o.expect_none(); work(0, d); r.o.expect_once(); if (k) r.o.expect_error(52); else if (d) r.o.expect_value(8); else r.o.expect_stopped(); }
}
VP_TEST(thread) {                    // the same, on another thread that does not wait for the initiation to return
  vp_config("preempt", 3); int k = vp_choose(2, "the initiation throws"), d = vp_choose(2, "the handler is called"); static int D; D = d; plain = 0;
  { arun r{op<void(long)>(as::completion_token, [k](auto h, long x) { plain = 5; later(0, [h = std::move(h), x]() mutable noexcept { vp_check(plain == 5, "what the initiation did"); std::move(h)(x); }); spawn_work(0, D); if (k) throw err{52}; }, 8l)};
    r.start(); r.wait(); if (k) r.o.expect_error(52); else if (d) r.o.expect_value(8); else r.o.expect_stopped(); }
}
VP_TEST(stop) {                      // the stop request becomes a cancellation; then the operation completes
  fin g; ex::inplace_stop_source src; int when = vp_choose(4, "when stop is requested"), d = vp_choose(2, "the handler is called"); if (when == 0) src.request_stop();
  { arun r{op<void(long)>(as::completion_token, [](auto h, long x) {
      auto sl = ba::get_associated_cancellation_slot(h); vp_check(sl.is_connected(), "the handler has a cancellation slot"); sl.assign([p = prom()](ba::cancellation_type t) { vp_check(p.st == 1, "alive"); vp_check(t == ba::cancellation_type::all, "everything is cancelled"); vp_add(&ncancel, 1); });
      later(0, [h = std::move(h), x]() mutable noexcept { std::move(h)(x); }); }, 8l), stop_env{src.get_token()}};
    if (when == 1) src.request_stop();
    r.start(); r.o.expect_none(); vp_check(vp_get(&ncancel) == (when < 2), "a stop request made before start is a cancellation");
    if (when == 2) { src.request_stop(); vp_check(vp_get(&ncancel) == 1, "a stop request is a cancellation, once"); }
    work(0, d); r.o.expect_once(); if (d) r.o.expect_value(8); else r.o.expect_stopped(); }
  if (when == 3) src.request_stop(); vp_check(vp_get(&ncancel) == (when < 3), "nothing is cancelled after the completion");
}
VP_TEST(stop_at_once) {              // completed within the initiation: no callback stays
  fin g; ex::inplace_stop_source src; int k = vp_choose(3, "what the initiation does");
  { arun r{op<void(long)>(as::completion_token, [k](auto h, long x) { int k_ = k; if (k_ == 0) h(x); if (k_ == 1) throw err{51}; }, 7l), stop_env{src.get_token()}}; r.start(); r.o.expect_once(); }
  src.request_stop();
}
// the stop source may end with the operation: at its completion nothing is registered with it any more
VP_TEST(stop_source_ends) {
  fin g; int k = vp_choose(4, "what the initiation does"), d = vp_choose(2, "the handler is called");
  { run_stop r{op<void(long)>(as::completion_token, [k](auto h, long x) { int k_ = k; if (k_ == 0) h(x); if (k_ == 1) throw err{51}; if (k_ == 3) later(0, [h = std::move(h), x]() mutable noexcept { std::move(h)(x); }); }, 7l)};
    r.start(); if (k == 3) work(0, d); r.o.expect_once(); if (k == 0 || (k == 3 && d)) r.o.expect_value(7); else if (k == 1) r.o.expect_error(51); else r.o.expect_stopped(); }
}
VP_TEST(stop_source_ends_intermediate) {
  fin g; int d = vp_choose(3, "what the intermediate handler does");
  { run_stop r{op<void(long)>(as::completion_token, [d](auto h, long x) { auto e = exec_of(h, hex<1>{}); e.execute([h = std::move(h), x, d]() mutable { int d_ = d; auto h_ = std::move(h); if (d_ == 0) std::move(h_)(x); if (d_ == 1) throw err{53}; }); }, 9l)};
    r.start(); r.o.expect_none(); work(0, vp_choose(2, "the handler runs")); r.o.expect_once(); }
}
// an executor that counts outstanding work hears of it through the wrapped one
struct wex : hex<0> { void on_work_started() const noexcept { vp_add(&ran[1], 1); } void on_work_finished() const noexcept { vp_add(&ran[2], 1); } };
VP_TEST(work_counts) {
  fin g; { arun r{op<void(long)>(as::completion_token, [](auto h, long x) { auto e = exec_of(h, wex{}); e.on_work_started(); vp_check(vp_get(&ran[1]) == 1 && vp_get(&ran[2]) == 0, "started work is counted"); e.on_work_finished(); vp_check(vp_get(&ran[1]) == 1 && vp_get(&ran[2]) == 1, "finished work is counted"); h(x); }, 7l)}; r.start(); r.o.expect_value(7); }
}
VP_TEST(stop_race) {                 // stop request, intermediate handler and completion on three threads
  vp_config("preempt", 2); static ex::inplace_stop_source* SRC; ex::inplace_stop_source src; SRC = &src; datum = 0; int d = vp_choose(2, "the handler is called");
  { arun r{op<void(long)>(as::completion_token, [](auto h, long x) {
      auto e = exec_of(h, hex<1>{}); auto sl = ba::get_associated_cancellation_slot(h);
      datum = 1; sl.assign([](ba::cancellation_type) { vp_check(datum >= 1, "cancellation sees what the handlers did"); vp_add(&ncancel, 1); });
      e.execute([h = std::move(h), x, sl]() mutable { datum = 2; std::move(h)(x); }); }, 8l), stop_env{src.get_token()}};
    r.start(); spawn_work(0, d); spawn_stop(src); r.wait(); if (d) r.o.expect_value(8); else r.o.expect_stopped(); }
  vp_join_all(); vp_check(vp_get(&ncancel) <= 1, "cancelled at most once");
}
VP_TEST(stop_race_start) {           // the same, while the operation is being started
  vp_config("preempt", 2); ex::inplace_stop_source src; datum = 0; int d = vp_choose(2, "the handler is called"); static int D; D = d;
  { arun r{op<void(long)>(as::completion_token, [](auto h, long x) {
      auto sl = ba::get_associated_cancellation_slot(h); datum = 1; sl.assign([](ba::cancellation_type) { vp_check(datum == 1, "cancellation sees what the initiation did"); vp_add(&ncancel, 1); });
      later(0, [h = std::move(h), x]() mutable noexcept { std::move(h)(x); }); spawn_work(0, D); }, 8l), stop_env{src.get_token()}};
    spawn_stop(src); r.start(); r.wait(); if (d) r.o.expect_value(8); else r.o.expect_stopped(); }
  vp_join_all();
}
// intermediate handlers through the associated executor
template <int K> static void intermediate() {
  fin g; int d = vp_choose(4, "what the intermediate handler does");
  { arun r{op<void(long)>(as::completion_token, [d](auto h, long x) { auto e = exec_of(h, hex<K>{}); vp_set(&done1, 1); e.execute([h = std::move(h), x, d]() mutable { vp_set(&ran[0], 1); if (d == 0) std::move(h)(x); if (d == 1) throw err{53}; if (d == 2) { auto h2 = std::move(h); } }); }, 9l)};
    r.start(); if (K == 1) { r.o.expect_none(); work(0, vp_choose(2, "the handler runs")); }
    r.o.expect_once(); bool ok = vp_get(&ran[0]);
    if (K == 2) r.o.expect_error(61); else if (!ok) r.o.expect_stopped(); else if (d == 0) r.o.expect_value(9); else if (d == 1) r.o.expect_error(53); else r.o.expect_stopped(); }
}
VP_TEST(intermediate_inline) { intermediate<0>(); }
VP_TEST(intermediate_queued) { intermediate<1>(); }
VP_TEST(intermediate_throws) { intermediate<2>(); }
VP_TEST(intermediate_lost) { intermediate<3>(); }
VP_TEST(nested) {                    // an intermediate handler inside an intermediate handler, and what runs after the completion
  fin g; int d = vp_choose(4, "what the inner handler does"), t = vp_choose(2, "the outer handler throws");
  { arun r{op<void(long)>(as::completion_token, [d, t](auto h, long x) { auto e = exec_of(h, hex<0>{}); e.execute([h = std::move(h), x, d, t, e]() mutable { e.execute([h = std::move(h), x, d]() mutable { if (d == 0) std::move(h)(x); if (d == 1) throw err{54}; if (d == 2) { auto h2 = std::move(h); } }); if (t && d) throw err{55}; }); }, 9l)};
    r.start(); r.o.expect_once(); if (d == 0) r.o.expect_value(9); else if (d == 1) r.o.expect_error(54); else if (t) r.o.expect_error(55); else r.o.expect_stopped(); }
}
VP_TEST(ways) {                      // post, dispatch and defer
  fin g; int k = vp_choose(3, "way"), d = vp_choose(2, "throws");
  { arun r{op<void(long)>(as::completion_token, [k, d](auto h, long x) { auto e = exec_of(h, hex<1>{}); auto f = [h = std::move(h), x, d]() mutable { if (d) throw err{56}; std::move(h)(x); }; if (k == 0) e.post(std::move(f), std::allocator<void>()); if (k == 1) e.dispatch(std::move(f), std::allocator<void>()); if (k == 2) e.defer(std::move(f), std::allocator<void>()); }, 9l)};
    r.start(); r.o.expect_none(); work(0, true); r.o.expect_once(); if (d) r.o.expect_error(56); else r.o.expect_value(9); }
}
// two branches that share the handler; the last one to end ends the operation
template <bool Thr> static void branches() {
  int a = vp_choose(2, "first branch throws"), b = vp_choose(2, "second branch throws"), c = vp_choose(2, "the last one calls the handler");
  { arun r{op<void(long)>(as::completion_token, [a, b, c](auto h, long x) { auto e0 = exec_of(h, hex<1, 0>{}); auto e1 = exec_of(h, hex<1, 1>{}); struct both { decltype(h) h; std::atomic<int> n; bool c; void end(long x) { if (n.fetch_sub(1) == 1 && c) std::move(h)(x); } }; std::shared_ptr<both> sh(new both{std::move(h), 2, c != 0});
      e0.execute([sh, x, a]() mutable { auto p = std::move(sh); if (a) { p->n.fetch_sub(1); throw err{57}; } p->end(x); }); e1.execute([sh = std::move(sh), x, b]() mutable { auto p = std::move(sh); if (b) { p->n.fetch_sub(1); throw err{58}; } p->end(x); }); }, 9l)};
    r.start(); r.o.expect_none();
    if constexpr (Thr) { spawn_work(0); spawn_work(1); r.wait(); }
    else { work(0, true); r.o.expect_none(); work(1, true); r.o.expect_once(); }
    if (a && b) { vp_check(r.o.ch() == error && (r.o.p() == 57 || (Thr && r.o.p() == 58)), "the first exception"); } else if (a) { r.o.expect_error(57); } else if (b) { r.o.expect_error(58); }
    else if (c) r.o.expect_value(9); else r.o.expect_stopped(); }
}
VP_TEST(two_branches) { fin g; branches<false>(); }
VP_TEST(two_branches_threads) { vp_config("preempt", 2); branches<true>(); }
// what is called with is converted to what was declared, before the receiver is completed
template <class Sig, class... As> static void values(long want, As&&... as) {
  arun r{op<Sig>(as::completion_token, [](auto h, auto&&... a) { h(static_cast<As&&>(a)...); }, static_cast<As&&>(as)...)};
  r.start(); r.o.expect_once(); r.o.expect_value(want);
}
VP_TEST(value_exact) { values<void(val)>(3, val{3}); }
VP_TEST(value_from_lvalue) { fin g; arun r{op<void(val)>(as::completion_token, [](auto h) { val v{4}; h(v); vp_check(v.v == 4 && v.st == 1, "an lvalue is left alone"); })}; r.start(); r.o.expect_once(); r.o.expect_value(4); }
VP_TEST(value_from_const) { arun r{op<void(val)>(as::completion_token, [](auto h) { const val v{4}; h(v); })}; r.start(); r.o.expect_once(); r.o.expect_value(4); }
VP_TEST(value_const_ref) { arun r{op<void(const val&)>(as::completion_token, [](auto h) { h(val{6}); })}; r.start(); r.o.expect_once(); r.o.expect_value(6); }
VP_TEST(value_ref) { static val v{5}; arun r{op<void(val&)>(as::completion_token, [](auto h) { h(v); })}; r.start(); r.o.expect_once(); r.o.expect_value(5); vp_check(v.st == 1, "not moved from"); }
VP_TEST(value_converts) { arun r{op<void(long)>(as::completion_token, [](auto h) { h((short) 12); })}; r.start(); r.o.expect_once(); r.o.expect_value(12); }
VP_TEST(value_two) { arun r{op<void(val, long)>(as::completion_token, [](auto h) { val v{2}; h(v, 3); })}; r.start(); r.o.expect_once(); vp_check(r.o.ch() == value && r.o.nargs() == 2 && r.o.p(0) == 2 && r.o.p(1) == 3, "both values"); }
VP_TEST(value_throws) {              // the conversion throws: its exception, and nothing else
  arun r{op<void(tval)>(as::completion_token, [](auto h) { try { tval v{4}; h(v); } catch (...) { vp_check(false, "the handler does not throw"); } })}; r.start(); r.o.expect_once();
  if (r.o.ch() == value) r.o.expect_value(4); else vp_check(r.o.ch() == error && (r.o.p() == 77 || r.o.p() == 78), "the exception of the conversion");
}
VP_TEST(value_signatures) {          // an operation with two signatures
  int k = vp_choose(2, "signature");
  arun r{ba::async_initiate<const as::completion_token_t, void(val), void(long, long)>([k](auto h) { if (int k_ = k) h(1l, 2l); else h(val{6}); }, as::completion_token)}; r.start(); r.o.expect_once();
  if (k) vp_check(r.o.ch() == value && r.o.nargs() == 2 && r.o.p(0) == 1 && r.o.p(1) == 2, "both values"); else r.o.expect_value(6);
}
// the handler's associations
template <class T> struct al0 { using value_type = T; long id; explicit al0(long i) noexcept : id(i) {} template <class U> al0(const al0<U>& o) noexcept : id(o.id) {} T* allocate(std::size_t n) { return std::allocator<T>().allocate(n); } void deallocate(T* p, std::size_t n) noexcept { std::allocator<T>().deallocate(p, n); } template <class U> bool operator==(const al0<U>& o) const noexcept { return id == o.id; } };
struct aenv0 { auto query(ex::get_allocator_t) const noexcept { return al0<char>(5); } };
VP_TEST(associations) {
  arun r{op<void()>(as::completion_token, [](auto h) {
    vp_check(ba::get_associated_allocator(h).id == 5, "the allocator of the environment");
    auto e = exec_of(h, hex<0>{4}), f = exec_of(h, hex<0>{4}), g = exec_of(h, hex<0>{6}); vp_check(e == f && !(e != f), "executors of one handler over equal executors are equal"); vp_check(e != g && !(e == g), "over different ones they are not");
    h(); }), aenv0{}}; r.start(); r.o.expect_once(); vp_check(r.o.ch() == value, "completed");
}
// ---- use_sender: a leading error code is not a value ---------------------------------
static long code(const std::exception_ptr& p) { long r = -1; try { std::rethrow_exception(p); } catch (const as::system_error& e) { r = e.code().value(); } catch (const std::system_error& e) { r = e.code().value(); } catch (const err& e) { r = -e.e; } return r; }
struct crcv { using receiver_concept = ex::receiver_tag; long* out; obs* o;
  template <class... As> void set_value(As... as) && noexcept { *out = (0 + ... + as_long(as)); vp_add(&ran[0], 1); } void set_error(std::exception_ptr p) && noexcept { *out = code(p); vp_add(&ran[1], 1); } void set_stopped() && noexcept { vp_add(&ran[2], 1); } };
template <class S> static long crun(S s) { long out = -77; obs o; { auto c = ex::connect(static_cast<S&&>(s), crcv{&out, &o}); ex::start(c); } vp_check(vp_get(&ran[0]) + vp_get(&ran[1]) + vp_get(&ran[2]) == 1, "completed once"); return out; }
VP_TEST(error_codes) {
  int k = vp_choose(4, "error code");
  long v = crun(op<void(as::error_code, long)>(as::use_sender, [k](auto h) { int k_ = k; if (k_ == 0) h(as::error_code(), 21l); if (k_ == 1) h(ba::error::make_error_code(ba::error::operation_aborted), 22l); if (k_ == 2) h(as::errc::make_error_code(as::errc::operation_canceled), 23l); if (k_ == 3) h(as::errc::make_error_code(as::errc::not_connected), 24l); }));
  if (k == 0) vp_check(vp_get(&ran[0]) == 1 && v == 21, "no error: the other values"); else if (k == 3) vp_check(vp_get(&ran[1]) == 1 && v == (long) as::errc::not_connected, "an error: a system_error with that code"); else vp_check(vp_get(&ran[2]) == 1, "a cancelled operation is stopped");
}
VP_TEST(error_code_only) { int k = vp_choose(2, "error"); long v = crun(op<void(as::error_code)>(as::use_sender, [k](auto h) { int k_ = k; const as::error_code e = k_ ? as::errc::make_error_code(as::errc::timed_out) : as::error_code(); h(e); })); vp_check(vp_get(&ran[k]) == 1, "the channel"); if (k) vp_check(v == (long) as::errc::timed_out, "the code"); }
VP_TEST(no_error_code) { int k = vp_choose(3, "ends"); long v = crun(op<void(long)>(as::use_sender, [k](auto h) { int k_ = k; if (k_ == 0) h(31l); if (k_ == 1) throw err{59}; })); vp_check(vp_get(&ran[k]) == 1, "the channel"); if (k == 0) vp_check(v == 31, "the value"); if (k == 1) vp_check(v == -59, "the exception"); }
// the same with std::error_code; the category says which codes mean that the operation has been cancelled
struct cat_t final : std::error_category {
  int base; constexpr explicit cat_t(int b) : base(b) {}
  const char* name() const noexcept override { return "vp"; } std::string message(int) const override { return "m"; }
  bool equivalent(int c, const std::error_condition& e) const noexcept override { return e.value() == c + base; }
  bool equivalent(const std::error_code& e, int c) const noexcept override { return base == 0 && &e.category() == this && e.value() == c; }
};
namespace std { inline namespace _V2 { const error_category& generic_category() noexcept { static cat_t c{0}; return c; } } }
static const cat_t& cat() { static cat_t c{100}; return c; }
template <class E> static void std_code(E&& e, long k, long code) {
  long v = crun(op<void(std::error_code, long)>(as::use_sender, [&](auto h) { h(static_cast<E&&>(e), 21l); }));
  vp_check(vp_get(&ran[k]) == 1, "the channel"); if (k == 0) vp_check(v == 21, "the value"); if (k == 1) vp_check(v == code, "the code");
}
VP_TEST(std_error_code) {
  constexpr int oc = (int) std::errc::operation_canceled; int k = vp_choose(4, "what the handler is called with");
  if (k == 0) std_code(std::error_code(0, cat()), 0, 0); if (k == 1) std_code(std::error_code(oc - 100, cat()), 2, 0); if (k == 2) std_code(std::error_code(oc, cat()), 1, oc); if (k == 3) { const std::error_code e(9, cat()); std_code(e, 1, 9); }
}
VP_TEST(use_sender_stop) {           // environment and cancellation pass through
  fin g; ex::inplace_stop_source src;
  { arun r{op<void(long)>(as::use_sender, [](auto h, long x) { ba::get_associated_cancellation_slot(h).assign([](ba::cancellation_type) { vp_add(&ncancel, 1); }); later(0, [h = std::move(h), x]() mutable noexcept { std::move(h)(x); }); }, 8l), stop_env{src.get_token()}};
    r.start(); src.request_stop(); vp_check(vp_get(&ncancel) == 1, "cancelled"); work(0, true); r.o.expect_once(); r.o.expect_value(8); }
}

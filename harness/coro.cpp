// Coroutines: task, as_awaitable, awaitables used as senders (P12)
#include "vp.hpp"
#include <system_error>
#include <exec/task.hpp>
#include <exec/at_coroutine_exit.hpp>
#include <exec/on_coro_disposition.hpp>
using namespace vp;
namespace xx = exec;
static char live;                                   // how many locals are alive
struct loc { loc() { vp_add(&live, 1); } loc(loc&&) { vp_add(&live, 1); } ~loc() { vp_add(&live, -1); } };
static long plain[4];
struct ienv { using start_scheduler_type = ex::inline_scheduler; };
struct eenv { using start_scheduler_type = ex::inline_scheduler; using error_types = ex::completion_signatures<ex::set_error_t(err), ex::set_error_t(std::exception_ptr)>; };
template <class T> using itask = ex::task<T, ienv>;
struct heap_ok { long h = vp_heap(); ~heap_ok() { vp_check(vp_heap() == h, "every coroutine frame is deallocated"); vp_check(vp_get(&live) == 0, "every local is destroyed"); } };

// ---- one task, one awaited child -----------------------------------------------------
template <class S> static itask<long> one(S s) { loc l; long v = co_await std::move(s); vp_set(&plain[1], v); co_return v + 1; }
template <class S> static void one_t(S s) {
  heap_ok g;
  { run r{one(std::move(s))};
    vp_check(kids[0].started() == 0, "a task does not run before it is started");
    r.start();
    if (kids[0].started() && !kids[0].completed()) { r.o.expect_none(); fire(0); }
    r.o.expect_once();
    if (kids[0].ch() == value) r.o.expect_value(kids[0].pay() + 1);
    else if (kids[0].ch() == error) r.o.expect_error(kids[0].pay());
    else r.o.expect_stopped(); }
}
VP_TEST(task_await) { one_t(snd<0, m_any, VL, EE, EP, SS>{}); }
VP_TEST(task_await_stopping) { one_t(stop_snd<0, VL, EP>{}); }
VP_TEST(task_unstarted) { heap_ok g; { auto t = one(snd<0, m_any, VL>{}); auto u = std::move(t); if (vp_choose(2, "connect")) { run r{std::move(u)}; } } vp_check(kids[0].connected() == 0, "a task that is not started does not run"); }
static itask<void> voids(snd<0, m_any, V0, SS> s) { loc l; co_await std::move(s); vp_add(&plain[0], 1); co_await ex::just_stopped(); }
VP_TEST(task_void) { heap_ok g; { run r{voids({})}; r.start(); if (!kids[0].completed()) fire(0); r.o.expect_once(); r.o.expect_stopped(); vp_check(vp_get(&plain[0]) == (kids[0].ch() == value), "the body goes on after a value only"); } }
static itask<val> move_only(snd<0, m_any, VV, EE> s) { loc l; val v = co_await std::move(s); co_return std::move(v); }
VP_TEST(task_move) { heap_ok g; { run r{move_only({})}; r.start(); if (!kids[0].completed()) fire(0); r.o.expect_once(); vp_check(r.o.ch() == kids[0].ch() && r.o.p() == kids[0].pay(), "with the result of the child"); } }
static itask<tval> throwing(snd<0, m_any, VT> s) { loc l; tval v = co_await std::move(s); co_return std::move(v); }
VP_TEST(task_throwing_moves) { heap_ok g; { run r{throwing({})}; r.start(); if (!kids[0].completed()) fire(0); r.o.expect_once(); if (r.o.ch() == value) vp_check(r.o.p() == kids[0].pay(), "the value"); else { vp_check(r.o.ch() == error, "an error"); vp_check(r.o.p() == 77 || r.o.p() == 78, "the exception"); } } }
static itask<long> throws(snd<0, m_any, V0> s) { loc l; co_await std::move(s); throw err{9}; }
VP_TEST(task_throws) { heap_ok g; { run r{throws({})}; r.start(); if (!kids[0].completed()) fire(0); r.o.expect_once(); r.o.expect_error(9); } }
static itask<long> catches(snd<0, m_any, VL, EE, EP> s) { loc l; try { co_return co_await std::move(s); } catch (const err& e) { co_return e.e + 100; } }
VP_TEST(task_catches) { heap_ok g; { run r{catches({})}; r.start(); if (!kids[0].completed()) fire(0); r.o.expect_once(); r.o.expect_value(kids[0].ch() == value ? kids[0].pay() : kids[0].pay() + 100); } }
static ex::task<long, eenv> with_err(int how, snd<0, m_any, V0> s) { loc l; co_await std::move(s);
  if (how == 0) co_yield ex::with_error{err{5}};
  if (how == 1) co_yield ex::with_stopped{};
  if (how == 2) co_return ex::with_error{err{6}};
  if (how == 3) co_return ex::with_stopped{};
  if (how == 4) throw err{7};
  co_return 8; }
VP_TEST(task_yields) { heap_ok g; { int h = vp_choose(6, "how the task ends"); run r{with_err(h, {})}; r.start(); if (!kids[0].completed()) fire(0); r.o.expect_once();
  if (h == 0 || h == 2) r.o.expect_error(5 + h / 2); else if (h == 4) r.o.expect_error(7); else if (h == 5) r.o.expect_value(8); else r.o.expect_stopped(); } }
static ex::task<void, eenv> with_err_v(int how, snd<0, m_any, V0> s) { loc l; co_await std::move(s);
  if (how == 0) co_yield ex::with_error{err{5}};
  if (how == 1) co_yield ex::with_stopped{};
  if (how == 2) throw err{7}; }
VP_TEST(task_yields_void) { heap_ok g; { int h = vp_choose(4, "how the task ends"); run r{with_err_v(h, {})}; r.start(); if (!kids[0].completed()) fire(0); r.o.expect_once();
  if (h == 0) r.o.expect_error(5); else if (h == 1) r.o.expect_stopped(); else if (h == 2) r.o.expect_error(7); else vp_check(r.o.ch() == value, "a task that returns completes with a value"); } }

// ---- nested tasks -------------------------------------------------------------------------
template <class S> static itask<long> inner(S s) { loc l; co_return co_await std::move(s); }
template <class S> static itask<long> outer(S s) { loc l; long v = co_await inner(std::move(s)); vp_check(vp_get(&live) == 1, "the locals of an awaited task are gone when the awaiter resumes"); loc m; co_return v + 1; }
template <class S> static void nested_t(S s) { heap_ok g; { run r{outer(std::move(s))}; r.start(); if (!kids[0].completed()) fire(0); r.o.expect_once();
  if (kids[0].ch() == value) r.o.expect_value(kids[0].pay() + 1); else if (kids[0].ch() == error) r.o.expect_error(kids[0].pay()); else r.o.expect_stopped(); } }
VP_TEST(task_nested) { nested_t(snd<0, m_any, VL, EE, SS>{}); }
static itask<long> outer2(int how) { loc l; long s = 0;
  for (int i = 0; i < 2; ++i) { try { s += co_await inner(snd<0, m_any, VL, EE>{}); } catch (const err&) { s += 1000; } }
  if (how) co_await with_err(1, {}); co_return s; }
VP_TEST(task_nested_twice) { heap_ok g; { int h = vp_choose(2, "how"); run r{outer2(h)}; r.start(); if (!kids[0].completed()) fire(0); if (!kids[0].completed()) fire(0); if (h) { if (!kids[0].completed()) fire(0); } r.o.expect_once(); vp_check(r.o.ch() == (h ? stopped : value), "a stopped child stops the awaiting task"); } }
static itask<long> outer3() { loc l; auto t = inner(snd<0, m_any, VL>{}); co_return 3; }
VP_TEST(task_child_dropped) { heap_ok g; { run r{outer3()}; r.start(); r.o.expect_once(); r.o.expect_value(3); vp_check(kids[0].connected() == 0, "a task that is not awaited does not run"); } }
static ex::task<long, eenv> outer4(int h) { loc l; try { co_return co_await with_err(h, {}); } catch (const err& e) { co_return e.e * 10; } }
VP_TEST(task_nested_yields) { heap_ok g; { int h = vp_choose(6, "how the task ends"); run r{outer4(h)}; r.start(); if (!kids[0].completed()) fire(0); r.o.expect_once();
  if (h == 0 || h == 2) r.o.expect_value((5 + h / 2) * 10); else if (h == 4) r.o.expect_value(70); else if (h == 5) r.o.expect_value(8); else r.o.expect_stopped(); } }

// ---- stop tokens ----------------------------------------------------------------------------
template <class F> static void stop_t(F mk) { heap_ok g; { bool al = vp_choose(2, "already"); ex::inplace_stop_source src; if (al) src.request_stop(); run r{mk(), stop_env{src.get_token()}}; r.start(); if (!al) { r.o.expect_none(); src.request_stop(); } r.o.expect_once(); r.o.expect_stopped(); } }
VP_TEST(task_stop) { stop_t([] { return one(stop_snd<0, VL>{}); }); }
VP_TEST(task_stop_nested) { stop_t([] { return outer(stop_snd<0, VL>{}); }); }
struct wtok {                                      // a stop token of another type
  ex::inplace_stop_token t;
  template <class F> struct callback_type { ex::inplace_stop_callback<F> c; template <class G> callback_type(wtok k, G&& g) noexcept(std::is_nothrow_constructible_v<F, G>) : c(k.t, static_cast<G&&>(g)) {} };
  bool stop_requested() const noexcept { return t.stop_requested(); }
  bool stop_possible() const noexcept { return t.stop_possible(); }
  bool operator==(const wtok&) const noexcept = default;
};
struct sstop_env { wtok t; auto query(ex::get_stop_token_t) const noexcept { return t; } };
static void t_fire0(void*) { fire_started(0); }
VP_TEST(task_std_stop) { heap_ok g; { ex::inplace_stop_source src; run r{one(snd<0, m_later, VL, SS>{}), sstop_env{{src.get_token()}}}; r.start(); bool s = vp_choose(2, "stop"); if (s) src.request_stop(); vp_check(stop_seen(0) == s, "a stop request reaches the awaited sender"); fire(0); r.o.expect_once(); } }
VP_TEST(task_std_stop_nested) { heap_ok g; { ex::inplace_stop_source src; bool al = vp_choose(2, "already"); if (al) src.request_stop(); run r{outer(snd<0, m_later, VL, SS>{}), sstop_env{{src.get_token()}}}; r.start(); bool s = vp_choose(2, "stop"); if (s) src.request_stop(); vp_check(stop_seen(0) == (s || al), "a stop request reaches the awaited sender"); fire(0); r.o.expect_once(); src.request_stop(); } }
VP_TEST(task_std_stop_dead) { heap_ok g; { ex::inplace_stop_source src; { run r{one(snd<0, m_later, VL, EE, SS>{}), sstop_env{{src.get_token()}}}; r.start(); fire(0); r.o.expect_once(); } src.request_stop(); } }
VP_TEST(task_std_stop_inline) { heap_ok g; { ex::inplace_stop_source src; run r{one(stop_snd<0, VL>{}), sstop_env{{src.get_token()}}}; r.start(); src.request_stop(); r.o.expect_once(); r.o.expect_stopped(); } }


// ---- scheduler affinity ------------------------------------------------------------------------
template <int Mode> struct senv { using start_scheduler_type = sch<1, Mode, V0>; };
template <class T, int Mode = m_later> using stask = ex::task<T, senv<Mode>>;
template <class Sch, class Tok = ex::never_stop_token> struct both_env { Sch s; Tok t{}; auto query(ex::get_start_scheduler_t) const noexcept { return s; } auto query(ex::get_stop_token_t) const noexcept { return t; } };
static stask<long> affine1(snd<0, m_any, VL, EE, SS> s) { loc l; long v;
  try { v = co_await std::move(s); } catch (const err& e) { v = -e.e; }
  vp_check(ctx() == 1, "a task resumes on its scheduler"); co_return v; }
template <class R> static void drive(R& r) { r.start(); for (int i = 0; i < 4; ++i) { if (r.o.n()) break; fire(kids[1].pending() ? 1 : 0); } r.o.expect_once(); }
VP_TEST(task_affine) { heap_ok g; { run r{affine1({}), both_env<sch<1, m_later, V0>>{}}; drive(r);
  if (kids[0].ch() == value) r.o.expect_value(kids[0].pay()); else if (kids[0].ch() == error) r.o.expect_value(-kids[0].pay()); else { r.o.expect_stopped(); }
  vp_check(r.o.ctx() == 1, "and completes on it"); } }
static stask<long> affine_in(snd<0, m_any, VL, EE> s) { loc l; co_return co_await std::move(s); }
static stask<long> affine2(snd<0, m_any, VL, EE> s) { loc l; long v;
  try { v = co_await affine_in(std::move(s)); } catch (const err& e) { v = -e.e; }
  vp_check(ctx() == 1, "a task resumes on its scheduler"); co_return v; }
VP_TEST(task_affine_nested) { heap_ok g; { run r{affine2({}), both_env<sch<1, m_later, V0>>{}}; drive(r); vp_check(r.o.ch() == value && r.o.ctx() == 1, "the task completes on its scheduler"); } }
static stask<long> affine3(snd<0, m_any, VL> s) { auto w = co_await ex::read_env(ex::get_start_scheduler); static_assert(std::is_same_v<decltype(w), sch<1, m_later, V0>>); vp_check(w.tag == 41, "the task knows the scheduler it was started with"); auto w2 = co_await ex::read_env(ex::get_scheduler); vp_check(w2.tag == 41, "and so do its children"); co_return co_await std::move(s); }
VP_TEST(task_sched_env) { heap_ok g; { run r{affine3({}), both_env<sch<1, m_later, V0>>{{41}}}; drive(r); vp_check(r.o.ch() == value, "completes"); } }

// ---- allocators ----------------------------------------------------------------------------------
static char allocs, alloc_bytes, alloc_objs;
template <class T> struct talloc { using value_type = T; long id; explicit talloc(long i) noexcept : id(i) { vp_add(&alloc_objs, 1); } talloc(const talloc& o) noexcept : id(o.id) { vp_add(&alloc_objs, 1); } ~talloc() { vp_add(&alloc_objs, -1); } template <class U> talloc(const talloc<U>& o) noexcept : id(o.id) { vp_add(&alloc_objs, 1); }
  T* allocate(std::size_t n) { if (vp_choose(2, "allocation fails")) throw std::bad_alloc(); vp_add(&allocs, 1); vp_add(&alloc_bytes, n * sizeof(T)); vp_check(id == 17, "the allocator given is used"); return static_cast<T*>(::operator new(n * sizeof(T))); }
  void deallocate(T* p, std::size_t n) noexcept { vp_add(&allocs, -1); vp_add(&alloc_bytes, -(long) (n * sizeof(T))); vp_check(id == 17, "the allocator given is used"); ::operator delete(p); }
  template <class U> bool operator==(const talloc<U>& o) const noexcept { return id == o.id; } };
static itask<long> allocd(std::allocator_arg_t, talloc<char>, snd<0, m_any, VL, SS> s) { loc l; co_return co_await std::move(s); }
VP_TEST(task_alloc) { heap_ok g;
  try { auto t = allocd(std::allocator_arg, talloc<char>{17}, {}); vp_check(vp_get(&allocs) == 1, "the frame comes from the allocator"); if (vp_choose(2, "start it")) { run r{std::move(t)}; drive(r); } } catch (const std::bad_alloc&) { vp_check(vp_get(&allocs) == 0, "nothing is leaked"); }
  vp_check(vp_get(&allocs) == 0 && vp_get(&alloc_bytes) == 0, "and goes back to it, with the size it was allocated with"); vp_check(vp_get(&alloc_objs) == 0, "every copy of the allocator is destroyed"); }

// ---- exec::task ------------------------------------------------------------------------------------
using is_t = ex::inline_scheduler;
template <class S> static xx::task<long> xone(S s) { loc l; long v = co_await std::move(s); vp_set(&plain[1], v); co_return v + 1; }
template <class S> static xx::task<long> xouter(S s) { loc l; long v = co_await xone(std::move(s)); vp_check(vp_get(&live) == 1, "the locals of an awaited task are gone when the awaiter resumes"); co_return v + 1; }
template <class F> static void xrun(F mk, long add) { heap_ok g; { run r{mk(), both_env<is_t>{}}; vp_check(kids[0].started() == 0, "a task does not run before it is started"); r.start(); if (!kids[0].completed()) { r.o.expect_none(); fire(0); } r.o.expect_once();
  if (kids[0].ch() == value) r.o.expect_value(kids[0].pay() + add); else if (kids[0].ch() == error) r.o.expect_error(kids[0].pay()); else r.o.expect_stopped(); } }
VP_TEST(xtask_await) { xrun([] { return xone(snd<0, m_any, VL, EE, EP, SS>{}); }, 1); }
VP_TEST(xtask_nested) { xrun([] { return xouter(snd<0, m_any, VL, EE, SS>{}); }, 2); }
VP_TEST(xtask_unstarted) { heap_ok g; { auto t = xone(snd<0, m_any, VL>{}); auto u = std::move(t); if (vp_choose(2, "connect")) { run r{std::move(u), both_env<is_t>{}}; } } vp_check(kids[0].connected() == 0, "a task that is not started does not run"); }
static xx::task<tval> xthrowing(snd<0, m_any, VT> s) { loc l; tval v = co_await std::move(s); co_return std::move(v); }
VP_TEST(xtask_throwing_moves) { heap_ok g; { run r{xthrowing({}), both_env<is_t>{}}; r.start(); if (!kids[0].completed()) fire(0); r.o.expect_once(); if (r.o.ch() == value) vp_check(r.o.p() == kids[0].pay(), "the value"); else { vp_check(r.o.ch() == error, "an error"); vp_check(r.o.p() == 77 || r.o.p() == 78, "the exception"); } } }
static xx::task<void> xthrows(snd<0, m_any, V0> s) { loc l; co_await std::move(s); throw err{9}; }
VP_TEST(xtask_throws) { heap_ok g; { run r{xthrows({}), both_env<is_t>{}}; r.start(); if (!kids[0].completed()) fire(0); r.o.expect_once(); r.o.expect_error(9); } }
VP_TEST(xtask_stop) { heap_ok g; { bool al = vp_choose(2, "already"); ex::inplace_stop_source src; if (al) src.request_stop(); run r{xone(stop_snd<0, VL>{}), both_env<is_t, ex::inplace_stop_token>{{}, src.get_token()}}; r.start(); if (!al) { r.o.expect_none(); src.request_stop(); } r.o.expect_once(); r.o.expect_stopped(); } }
VP_TEST(xtask_stop_token) { heap_ok g; { ex::inplace_stop_source src; run r{xouter(snd<0, m_later, VL, SS>{}), both_env<is_t, wtok>{{}, {src.get_token()}}}; r.start(); bool s = vp_choose(2, "stop"); if (s) src.request_stop(); vp_check(stop_seen(0) == s, "a stop request reaches the awaited sender"); fire(0); r.o.expect_once(); } }
VP_TEST(xtask_stop_token_inline) { heap_ok g; { ex::inplace_stop_source src; run r{xone(stop_snd<0, VL>{}), both_env<is_t, wtok>{{}, {src.get_token()}}}; r.start(); src.request_stop(); r.o.expect_once(); r.o.expect_stopped(); } }
// the stop source is gone once the task has completed with a value or an error
VP_TEST(xtask_stop_dead) { heap_ok g; { box<ex::inplace_stop_source> src; ::new (static_cast<void*>(src.mem)) ex::inplace_stop_source; src.full = true;
  using S = xx::task<long>; using R = rcv<both_env<is_t, wtok>>; obs o; rcv_hooks h{&o, [](void* p) { static_cast<box<ex::inplace_stop_source>*>(p)->destroy(); }, &src};
  box<ex::connect_result_t<S, R>> b; b.emplace_from([&] { return ex::connect(xouter(snd<0, m_any, VL, EE>{}), R{&h, {{}, {src.get().get_token()}}}); });
  ex::start(b.get()); if (!kids[0].completed()) fire(0); o.expect_once(); b.destroy(); } }
VP_TEST(task_stop_dead) { heap_ok g; { box<ex::inplace_stop_source> src; ::new (static_cast<void*>(src.mem)) ex::inplace_stop_source; src.full = true;
  using S = itask<long>; using R = rcv<sstop_env>; obs o; rcv_hooks h{&o, [](void* p) { static_cast<box<ex::inplace_stop_source>*>(p)->destroy(); }, &src};
  box<ex::connect_result_t<S, R>> b; b.emplace_from([&] { return ex::connect(outer(snd<0, m_any, VL, EE, SS>{}), R{&h, {{src.get().get_token()}}}); });
  ex::start(b.get()); if (!kids[0].completed()) fire(0); o.expect_once(); b.destroy(); } }
VP_TEST(xtask_race) { vp_config("preempt", 2); heap_ok g; { run r{xone(snd<0, m_later, VL, EE, SS>{}), both_env<is_t>{}}; vp_spawn(t_fire0, nullptr, "child completion"); r.start(); vp_join_all(); r.o.expect_once(); } }
using X1 = sch<1, m_later, V0, EP, SS>;
static xx::task<long> xaff(snd<0, m_any, VL, EE, SS> s) { loc l; long v;
  try { v = co_await std::move(s); } catch (const err& e) { v = -e.e; }
  vp_check(kids[1].ch() != value || ctx() == 1, "a task resumes on its scheduler"); co_return v; }
VP_TEST(xtask_affine) { heap_ok g; { run r{xaff({}), both_env<X1>{}}; drive(r); if (kids[1].ch() == stopped) r.o.expect_stopped(); else if (kids[1].ch() == value) vp_check(r.o.ctx() == 1, "and completes on it"); } }
// a child that completes where it starts only with values
template <int Id, int Mode, class... Sigs> struct bvsnd : snd<Id, Mode, Sigs...> { struct env { auto query(ex::get_completion_behavior_t<ex::set_value_t>) const noexcept { return ex::completion_behavior::inline_completion; } auto query(ex::get_completion_behavior_t<ex::set_error_t>) const noexcept { return ex::completion_behavior::unknown; } }; auto get_env() const noexcept -> env { return {}; } };
static xx::task<long> xaff2(bvsnd<0, m_any, VL, EE> s) { loc l; long v;
  try { v = co_await std::move(s); } catch (const err& e) { v = -e.e; vp_check(ctx() == 1, "a task resumes on its scheduler after an error, too"); }
  co_return v; }
VP_TEST(xtask_affine_error) { heap_ok g; { run r{xaff2({}), both_env<sch<1, m_later, V0>>{}}; drive(r); vp_check(r.o.ch() == value, "completes"); } }

// ---- at_coroutine_exit -------------------------------------------------------------------------------
static char step;
static xx::task<long> xexit(snd<0, m_any, VL, EE, SS> s) { loc l;
  co_await xx::at_coroutine_exit([](long a) -> xx::task<void> { loc m; vp_check(vp_get(&step) == 1, "cleanup actions run in reverse order"); vp_check(a == 5, "with their arguments"); vp_set(&step, 2); co_await snd<2, m_any, V0>{}; vp_check(vp_get(&step) == 2, ""); vp_set(&step, 3); }, 5l);
  co_await xx::at_coroutine_exit([]() -> xx::task<void> { vp_check(vp_get(&step) == 0, "cleanup actions run once, after the body"); vp_check(kids[0].completed() == 1, "after the body"); vp_set(&step, 1); co_return; });
  long v = co_await std::move(s); co_return v; }
VP_TEST(xtask_at_exit) { heap_ok g; { run r{xexit({}), both_env<is_t>{}}; r.start(); if (!kids[0].completed()) { vp_check(vp_get(&step) == 0, "no cleanup before the end"); fire(0); } if (!kids[2].completed()) { r.o.expect_none(); fire(2); } r.o.expect_once(); vp_check(vp_get(&step) == 3, "every cleanup action ran before the task completes");
  if (kids[0].ch() == value) r.o.expect_value(kids[0].pay()); else if (kids[0].ch() == error) r.o.expect_error(kids[0].pay()); else r.o.expect_stopped(); } }
// cleanup for one way of ending
static char ran[4];
static xx::task<long> xdisp(snd<0, m_any, VL, EE, SS> s) { loc l;
  auto [x] = co_await xx::on_coroutine_succeeded([](long a) -> xx::task<void> { loc m; vp_add(&ran[1], 1); vp_check(a == 6, "with the arguments as the body left them"); vp_check(vp_get(&ran[0]) == 1, "in reverse order"); co_await snd<2, m_any, V0>{}; }, 5l);
  co_await xx::on_coroutine_failed([](val v) -> xx::task<void> { loc m; vp_add(&ran[2], 1); vp_check(v.v == 7 && v.st == 1, "with its arguments"); vp_check(vp_get(&ran[0]) == 1, "in reverse order"); co_await snd<2, m_any, V0>{}; }, val(7));
  co_await xx::on_coroutine_stopped([]() -> xx::task<void> { loc m; vp_add(&ran[3], 1); vp_check(vp_get(&ran[0]) == 1, "in reverse order"); co_await snd<2, m_any, V0>{}; });
  co_await xx::at_coroutine_exit([]() -> xx::task<void> { vp_add(&ran[0], 1); vp_check(kids[0].completed() == 1, "after the body"); co_return; });
  x = 6; long v = co_await std::move(s); co_return v; }
VP_TEST(xtask_on_disposition) { heap_ok g; { run r{xdisp({}), both_env<is_t>{}}; r.start(); if (!kids[0].completed()) { for (int i = 0; i < 4; ++i) vp_check(vp_get(&ran[i]) == 0, "no cleanup before the end"); fire(0); } if (!kids[2].completed()) { r.o.expect_none(); fire(2); } r.o.expect_once(); vp_check(vp_get(&ran[0]) == 1, "cleanup for every ending runs once"); vp_check(vp_get(&ran[1]) == (kids[0].ch() == value), "cleanup for success runs once, after success only"); vp_check(vp_get(&ran[2]) == (kids[0].ch() == error), "cleanup for failure runs once, after a failure only"); vp_check(vp_get(&ran[3]) == (kids[0].ch() == stopped), "cleanup for stopping runs once, after stopping only");
  if (kids[0].ch() == value) r.o.expect_value(kids[0].pay()); else if (kids[0].ch() == error) r.o.expect_error(kids[0].pay()); else r.o.expect_stopped(); } }
VP_TEST(xtask_cleanup_dropped) { heap_ok g; { if (vp_choose(2, "which")) (void) xx::on_coroutine_succeeded([](val) -> xx::task<void> { co_return; }, val(3)); else (void) xx::at_coroutine_exit([](val) -> xx::task<void> { co_return; }, val(3)); } }
VP_TEST(xtask_cleanup_throws) { vp_config("terminate-ok", 1); int k = vp_choose(4, "which"); run r{[](int k) -> xx::task<void> { auto act = []() -> xx::task<void> { throw err{3}; co_return; };
  if (k == 0) co_await xx::on_coroutine_succeeded(act); else if (k == 1) co_await xx::at_coroutine_exit(act); else if (k == 2) { co_await xx::on_coroutine_failed(act); throw err{2}; } else { co_await xx::on_coroutine_stopped(act); co_await ex::just_stopped(); } }(k), both_env<is_t>{}}; r.start(); vp_check(false, "an exception of a cleanup action is not swallowed"); }
static xx::task<void> xresched(int thr) { loc l; co_await xx::reschedule_coroutine_on(sch<2, m_later, V0>{}); vp_check(ctx() == 2, "the coroutine goes on on the new scheduler");
  co_await snd<0, m_any, V0>{}; vp_check(ctx() == 2, "and stays there"); if (thr) throw err{4}; }
template <class R> static void drive3(R& r) { r.start(); for (int i = 0; i < 8; ++i) { if (r.o.n()) break; fire(kids[1].pending() ? 1 : kids[2].pending() ? 2 : 0); } r.o.expect_once(); }
VP_TEST(xtask_resched) { heap_ok g; { int t = vp_choose(2, "throw"); run r{xresched(t), both_env<sch<1, m_later, V0>>{}}; drive3(r); vp_check(r.o.ch() == (t ? error : value), "the outcome of the body"); vp_check(r.o.ctx() == 1, "the task completes on the scheduler it was started on"); } }
static xx::task<long> xresched_fail() { loc l; try { co_await xx::reschedule_coroutine_on(sch<2, m_later, V0, EP>{}); } catch (const err& e) { co_return e.e; } co_return 0; }
VP_TEST(xtask_resched_fail) { heap_ok g; { run r{xresched_fail(), both_env<is_t>{}}; drive3(r); r.o.expect_value(kids[2].ch() == value ? 0 : kids[2].pay()); } }

static xx::task<long> xresched_stop() { loc l; co_await xx::reschedule_coroutine_on(sch<2, m_any, V0, SS>{}); vp_check(kids[2].ch() == value, "the coroutine goes on only if it has got there"); co_return 1; }
VP_TEST(xtask_resched_stop) { heap_ok g; { run r{xresched_stop(), both_env<sch<1, m_later, V0>>{}}; drive3(r); if (kids[2].ch() == stopped) r.o.expect_stopped(); else r.o.expect_value(1); } }
// a scheduler whose senders fail to connect
template <int Id> struct xsch { using scheduler_concept = ex::scheduler_tag;
  struct env { auto query(ex::get_completion_scheduler_t<ex::set_value_t>) const noexcept { return xsch{}; } auto query(ex::get_completion_scheduler_t<ex::set_stopped_t>) const noexcept { return xsch{}; } };
  struct sender : throwing_connect_snd<Id, m_inline, V0> { auto get_env() const noexcept -> env { return {}; } };
  auto schedule() const noexcept -> sender { return {}; } bool operator==(const xsch&) const noexcept = default; };
static xx::task<long> xresched_throw() { loc l; try { co_await xx::reschedule_coroutine_on(xsch<2>{}); } catch (const err& e) { vp_check(kids[2].started() == 0, "nothing has been started"); co_return e.e; } co_return 0; }
VP_TEST(xtask_resched_throw) { heap_ok g; { run r{xresched_throw(), both_env<is_t>{}}; drive3(r); vp_check(r.o.ch() == value, "the exception of connect reaches the coroutine"); vp_check(r.o.p() == 55 || kids[2].started() == 1, "and only if connect has thrown"); } }
// cleanup for one way of ending runs on the scheduler of the coroutine, too
static xx::task<long> xdisp_sch(int k) { loc l;
  auto act = []() -> xx::task<void> { loc m; co_await snd<2, m_later, V0>{}; vp_check(ctx() == 1, "the cleanup goes on on the scheduler of the coroutine"); vp_add(&ran[1], 1); };
  if (k == 0) co_await xx::on_coroutine_succeeded(act); else if (k == 1) co_await xx::on_coroutine_failed(act); else co_await xx::at_coroutine_exit(act);
  if (k == 1) throw err{5}; co_return 3; }
VP_TEST(xtask_disposition_scheduler) { heap_ok g; { int k = vp_choose(3, "which"); run r{xdisp_sch(k), both_env<sch<1, m_later, V0>>{}}; drive3(r); vp_check(vp_get(&ran[1]) == 1, "the cleanup runs once"); if (k == 1) r.o.expect_error(5); else r.o.expect_value(3); } }

// ---- awaitables as senders --------------------------------------------------------------------------------
static char aw_live; static char susp;
template <int Ready, class Ret, int Thr, class V> struct aw {
  long tok = 3;
  aw() { vp_add(&aw_live, 1); } aw(aw&& o) noexcept { vp_add(&aw_live, 1); } ~aw() { vp_add(&aw_live, -1); tok = 0; }
  bool await_ready() noexcept(!(Thr & 1)) { vp_check(tok == 3, "the awaiter is alive"); if ((Thr & 1) && vp_choose(2, "await_ready throws")) throw err{1}; return Ready == 2 ? vp_choose(2, "ready") : Ready; }
  Ret await_suspend(std::coroutine_handle<> h) noexcept(!(Thr & 2)) { vp_check(tok == 3, "the awaiter is alive"); if ((Thr & 2) && vp_choose(2, "await_suspend throws")) throw err{2};
    if constexpr (std::is_void_v<Ret>) { if (vp_choose(2, "resumes inside await_suspend")) h.resume(); else vp_set(&susp, (long) h.address()); }
    else if constexpr (std::is_same_v<Ret, bool>) { int c = vp_choose(3, "no suspension, suspended, resumed"); if (c == 0) return false; if (c == 1) { vp_set(&susp, (long) h.address()); return true; } h.resume(); return true; }
    else { int c = vp_choose(2, "same handle, noop"); if (c == 0) return h; vp_set(&susp, (long) h.address()); return std::noop_coroutine(); } }
  V await_resume() noexcept(!(Thr & 4)) { vp_check(tok == 3, "the awaiter is alive"); if ((Thr & 4) && vp_choose(2, "await_resume throws")) throw err{3}; if constexpr (!std::is_void_v<V>) return V(long{8}); }
};
struct co_op { co_op() { vp_add(&aw_live, 1); } co_op(co_op&&) noexcept { vp_add(&aw_live, 1); } ~co_op() { vp_add(&aw_live, -1); } aw<0, void, false, long> operator co_await() && { return {}; } };
struct as_aw { template <class P> aw<2, bool, false, long> as_awaitable(P&) && { return {}; } };
struct both_aw { template <class P> co_op as_awaitable(P&) && { return {}; } };
template <class A> static void aw_t(bool val) { heap_ok g; { run r{A{}}; bool go = vp_choose(2, "start"); if (!go) return; r.start(); if (vp_get(&susp)) { r.o.expect_none(); std::coroutine_handle<>::from_address((void*) vp_get(&susp)).resume(); } r.o.expect_once();
   if (r.o.ch() == value) { if (val) r.o.expect_value(8); } else { vp_check(r.o.ch() == error, "an awaitable completes with a value or an error"); vp_check(r.o.p() >= 1 && r.o.p() <= 3, "the exception that was thrown"); } }
  vp_check(vp_get(&aw_live) == 0, "every awaiter is destroyed once"); }
VP_TEST(aw_void) { aw_t<aw<2, void, false, long>>(true); }
VP_TEST(aw_bool) { aw_t<aw<2, bool, false, void>>(false); }
VP_TEST(aw_handle) { aw_t<aw<2, std::coroutine_handle<>, false, val>>(true); }
VP_TEST(aw_throw_void) { aw_t<aw<2, void, 7, long>>(true); }
VP_TEST(aw_throw_bool) { aw_t<aw<2, bool, 7, void>>(false); }
VP_TEST(aw_throw_handle) { aw_t<aw<2, std::coroutine_handle<>, 7, val>>(true); }
VP_TEST(aw_throw_ready) { aw_t<aw<2, bool, 1, long>>(true); }
VP_TEST(aw_throw_suspend) { aw_t<aw<2, bool, 2, long>>(true); }
VP_TEST(aw_throw_suspend_void) { aw_t<aw<2, void, 2, void>>(false); }
VP_TEST(aw_throw_resume) { aw_t<aw<2, std::coroutine_handle<>, 4, long>>(true); }
VP_TEST(aw_co_op) { aw_t<co_op>(true); }
VP_TEST(aw_as) { aw_t<as_aw>(true); }
VP_TEST(aw_both) { aw_t<both_aw>(true); }
struct throw_as { template <class P> aw<2, bool, false, long> as_awaitable(P&) && { if (vp_choose(2, "as_awaitable throws")) throw err{1}; return {}; } };
struct throw_co { aw<2, bool, false, long> operator co_await() && { if (vp_choose(2, "co_await throws")) throw err{1}; return {}; } };
VP_TEST(aw_throw_as) { aw_t<throw_as>(true); }
VP_TEST(aw_throw_co) { aw_t<throw_co>(true); }
VP_TEST(aw_then) { heap_ok g; { run r{ex::then(aw<2, bool, false, long>{}, [](long v) noexcept { return v + 1; })}; r.start(); if (vp_get(&susp)) std::coroutine_handle<>::from_address((void*) vp_get(&susp)).resume(); r.o.expect_once(); r.o.expect_value(9); } vp_check(vp_get(&aw_live) == 0, "every awaiter is destroyed once"); }
VP_TEST(aw_sync_wait) { heap_ok g; { auto r = ex::sync_wait(aw<1, bool, false, long>{}); vp_check(r && std::get<0>(*r) == 8, "sync_wait of an awaitable"); } vp_check(vp_get(&aw_live) == 0, "every awaiter is destroyed once"); }
VP_TEST(task_awaits_awaitable) { heap_ok g; { run r{[]() -> itask<long> { loc l; co_return co_await aw<2, bool, false, long>{}; }()}; r.start(); if (vp_get(&susp)) std::coroutine_handle<>::from_address((void*) vp_get(&susp)).resume(); r.o.expect_once(); r.o.expect_value(8); } vp_check(vp_get(&aw_live) == 0, "every awaiter is destroyed once"); }

// an error code arrives as a std::system_error that holds it
struct cat_t final : std::error_category { const char* name() const noexcept override { return "vp"; } std::string message(int) const override { return "m"; } };
static const cat_t& cat() { static cat_t c; return c; }
struct cenv { using start_scheduler_type = ex::inline_scheduler; using error_types = ex::completion_signatures<ex::set_error_t(std::error_code)>; };
static itask<long> awaits_code(int k) { loc l; try { co_await ex::just_error(std::error_code(k, cat())); } catch (const std::system_error& e) { vp_check(e.code().value() == k && e.code().category() == cat(), "the error code arrives whole"); co_return 0; } co_return 1; }
static xx::task<long> xawaits_code(int k) { loc l; try { co_await ex::just_error(std::error_code(k, cat())); } catch (const std::system_error& e) { vp_check(e.code().value() == k && e.code().category() == cat(), "the error code arrives whole"); co_return 0; } co_return 1; }
static ex::task<void, cenv> ends_with_code(int k) { loc l; co_yield ex::with_error{std::error_code(k, cat())}; }
static itask<long> outer_code(int k) { loc l; try { co_await ends_with_code(k); } catch (const std::system_error& e) { vp_check(e.code().value() == k && e.code().category() == cat(), "the error code arrives whole"); co_return 0; } co_return 1; }
VP_TEST(error_code) { heap_ok g; int w = vp_choose(2, "which"), k = vp_choose(2, "code"); if (w) { run r{xawaits_code(k), both_env<is_t>{}}; r.start(); r.o.expect_value(0); } else { run r{awaits_code(k)}; r.start(); r.o.expect_value(0); } }
VP_TEST(error_code_of_task) { heap_ok g; int k = vp_choose(2, "code"); run r{outer_code(k)}; r.start(); r.o.expect_value(0); }

// ---- a coroutine type of the user's ------------------------------------------------------------------------
static char unh;
template <bool Aware> struct mine {
  struct promise_type : ex::with_awaitable_senders<promise_type> {
    long out = 0;
    mine get_return_object() noexcept { return mine{std::coroutine_handle<promise_type>::from_promise(*this)}; }
    std::suspend_always initial_suspend() noexcept { return {}; }
    std::suspend_always final_suspend() noexcept { return {}; }
    void return_value(long v) noexcept { out = v; }
    void unhandled_exception() noexcept { try { throw; } catch (const err& e) { out = -e.e; } catch (...) { out = -1; } }
    std::coroutine_handle<> unhandled_stopped() noexcept { vp_add(&unh, 1); return std::noop_coroutine(); }
  };
  std::coroutine_handle<promise_type> h;
};
template <class S> static mine<true> mine_one(S s) { loc l; co_return co_await std::move(s); }
template <class S> static void mine_t(S s) { heap_ok g; auto m = mine_one(std::move(s)); m.h.resume(); if (!kids[0].completed()) { vp_check(!m.h.done(), "the coroutine is suspended until the sender completes"); fire(0); }
  if (kids[0].ch() == stopped) { vp_check(vp_get(&unh) == 1 && !m.h.done(), "unhandled_stopped is called once and the coroutine does not go on"); }
  else { vp_check(m.h.done() && vp_get(&unh) == 0, "the coroutine goes on"); vp_check(m.h.promise().out == (kids[0].ch() == value ? kids[0].pay() : -kids[0].pay()), "with the result of the sender"); }
  m.h.destroy(); vp_check(vp_get(&kids[0].destroyed_) == 1, "the operation is destroyed once"); }
VP_TEST(mine_await) { mine_t(snd<0, m_any, VL, EE, EP, SS>{}); }
VP_TEST(mine_inline) { mine_t(ex::then(bvsnd<0, m_inline, VL>{}, [](long v) noexcept { return v; })); }
VP_TEST(mine_tuple) { heap_ok g; auto m = [](snd<0, m_any, ex::set_value_t(long, long)> s) -> mine<true> { auto [a, b] = co_await std::move(s); co_return a + b; }({}); m.h.resume(); if (!kids[0].completed()) fire(0); vp_check(m.h.done() && m.h.promise().out == kids[0].pay() + kids[0].pay(), "several values arrive as a tuple"); m.h.destroy(); }
VP_TEST(mine_abandoned) { heap_ok g; auto m = mine_one(snd<0, m_any, VL>{}); m.h.destroy(); vp_check(kids[0].connected() == 0, "nothing runs"); }
VP_TEST(mine_race) { vp_config("preempt", 3); heap_ok g; auto m = mine_one(snd<0, m_later, VL, SS>{}); vp_spawn(t_fire0, nullptr, "child completion"); m.h.resume(); vp_join_all(); vp_check(m.h.done() == (kids[0].ch() == value), "resumed exactly when a value arrives"); m.h.destroy(); }
struct asnd : snd<0, m_any, VL, SS> { struct env { auto query(ex::get_await_completion_adaptor_t) const noexcept { return ex::stopped_as_optional; } }; auto get_env() const noexcept -> env { return {}; } };
VP_TEST(mine_adapted) { heap_ok g; auto m = [](asnd s) -> mine<true> { std::optional<long> v = co_await std::move(s); co_return v ? *v : 99; }({}); m.h.resume(); if (!kids[0].completed()) fire(0); vp_check(m.h.done() && m.h.promise().out == (kids[0].ch() == value ? kids[0].pay() : 99), "the await completion adaptor is applied"); m.h.destroy(); }

// a coroutine type that knows nothing of senders: tasks are awaited as they are
template <class Env> struct bare {
  struct promise_type {
    long out = 0; Env e{}; std::coroutine_handle<> cont{};
    bare get_return_object() noexcept { return bare{std::coroutine_handle<promise_type>::from_promise(*this)}; }
    std::suspend_always initial_suspend() noexcept { return {}; }
    std::suspend_always final_suspend() noexcept { return {}; }
    void return_value(long v) noexcept { out = v; }
    void unhandled_exception() noexcept { try { throw; } catch (const err& e) { out = -e.e; } catch (...) { out = -1; } }
    std::coroutine_handle<> unhandled_stopped() noexcept { vp_add(&unh, 1); return std::noop_coroutine(); }
    const Env& get_env() const noexcept { return e; }
  };
  std::coroutine_handle<promise_type> h;
};
using ftask = xx::basic_task<long, xx::__task::__default_task_context_impl<xx::__task::__scheduler_affinity::__none>>;    // a task without a scheduler
static ftask fone(snd<0, m_any, VL, EE, SS> s) { loc l; co_return co_await std::move(s); }
static ftask flate(snd<0, m_later, VL, SS> s) { loc l; co_return co_await std::move(s); }
template <class Env> static bare<Env> bare_one(ftask t) { loc l; co_return co_await std::move(t); }
template <class Env> static void bare_end(bare<Env>& m) {
  if (kids[0].ch() == stopped) { vp_check(vp_get(&unh) == 1 && !m.h.done(), "unhandled_stopped is called once and the coroutine does not go on"); }
  else { vp_check(m.h.done() && vp_get(&unh) == 0, "the coroutine goes on"); vp_check(m.h.promise().out == (kids[0].ch() == value ? kids[0].pay() : -kids[0].pay()), "with the result of the task"); }
  m.h.destroy();
}
VP_TEST(xtask_bare) { heap_ok g; auto m = bare_one<both_env<is_t>>(fone({})); m.h.resume(); if (!kids[0].completed()) { vp_check(!m.h.done(), "the coroutine is suspended"); fire(0); } bare_end(m); }
template <class Env, class Set> static void bare_stop(Set set) {
  heap_ok g; ex::inplace_stop_source src; int when = vp_choose(3, "when stop is requested"); auto m = bare_one<Env>(flate({})); set(m.h.promise().e, src);
  if (when == 0) src.request_stop(); m.h.resume(); if (when == 1) src.request_stop(); vp_check(stop_seen(0) == (when < 2), "the task's children see the stop requests of the coroutine that awaits it"); fire(0); bare_end(m);
}
VP_TEST(xtask_bare_stop) { bare_stop<both_env<is_t, ex::inplace_stop_token>>([](auto& e, auto& src) { e = {{}, src.get_token()}; }); }
VP_TEST(xtask_bare_stop_other) { bare_stop<both_env<is_t, wtok>>([](auto& e, auto& src) { e = {{}, {src.get_token()}}; }); }

// ---- races ------------------------------------------------------------------------------------
VP_TEST(task_race) { vp_config("preempt", 2); heap_ok g; { run r{one(snd<0, m_later, VL, EE, SS>{})}; vp_spawn(t_fire0, nullptr, "child completion"); r.start(); vp_join_all(); r.o.expect_once(); } }
VP_TEST(task_race_nested) { vp_config("preempt", 2); heap_ok g; { run r{outer(snd<0, m_later, VL, SS>{})}; vp_spawn(t_fire0, nullptr, "child completion"); r.start(); vp_join_all(); r.o.expect_once(); } }
VP_TEST(task_race_data) { vp_config("preempt", 2); heap_ok g; { run r{one(snd<0, m_later, VL>{})}; vp_spawn([](void*) { plain[0] = 7; fire_started(0); }, nullptr, "child completion"); r.start(); vp_join_all(); vp_check(plain[0] == 7, ""); r.o.expect_once(); } }

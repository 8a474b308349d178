// operations nobody waits for: start_detached, execute, and start_now
#include "vp.hpp"
#include <atomic>
#include <functional>
#include <exec/start_detached.hpp>
#include <exec/execute.hpp>
#include <exec/start_now.hpp>
#include <exec/async_scope.hpp>
#include <exec/just_from.hpp>
using namespace vp;
namespace xx = exec;
static char got[8], live, back, calls, seen, allocs[4];
struct fq_t : ex::__query<fq_t> { static constexpr bool query(ex::forwarding_query_t) noexcept { return true; } };
inline constexpr fq_t fq{};

// a captured object: every one made is destroyed
struct obj { long v; char st = 1; explicit obj(long x) noexcept : v(x) { vp_add(&live, 1); } obj(obj&& o) noexcept : v(o.v) { vp_check(o.st == 1, "moved while alive"); vp_add(&live, 1); } obj(const obj& o) noexcept : v(o.v) { vp_check(o.st == 1, "copied while alive"); vp_add(&live, 1); } ~obj() { vp_check(st == 1, "destroyed once"); st = 0; vp_add(&live, -1); } };

// an allocator that accounts for what it hands out, by identity
template <class T, bool Thr = false> struct al {
  using value_type = T; long id;
  explicit al(long i) noexcept : id(i) {}
  template <class U> al(const al<U, Thr>& o) noexcept : id(o.id) {}
  template <class U> struct rebind { using other = al<U, Thr>; };
  T* allocate(std::size_t n) { if (Thr && vp_choose(2, "allocate throws")) throw std::bad_alloc{}; vp_add(&allocs[id], (long) (n * sizeof(T))); vp_add(&got[id], 1); return static_cast<T*>(::operator new(n * sizeof(T))); }
  void deallocate(T* p, std::size_t n) noexcept { vp_add(&allocs[id], -(long) (n * sizeof(T))); vp_add(&back, 1); ::operator delete(p); }
  template <class U> bool operator==(const al<U, Thr>& o) const noexcept { return id == o.id; }
};
template <bool Thr = false, bool Mv = false> struct aenv {
  al<char, Thr> a; long f; obj o;
  aenv(long id, long x) noexcept : a(id), f(x), o(9) {}
  aenv(aenv&& e) noexcept : a(e.a), f(e.f), o(static_cast<obj&&>(e.o)) {}
  aenv(const aenv& e) noexcept(!Mv) : a(e.a), f(e.f), o(e.o) { if (Mv && vp_choose(2, "environment copy throws")) throw err{31}; }
  auto query(ex::get_allocator_t) const noexcept { return a; }
  long query(fq_t) const noexcept { vp_check(o.st == 1, "the environment is alive"); return f; }
};
// looks at its environment when it starts and when it completes
template <int Id, int Mode, class... Sigs> struct looker : snd<Id, Mode, Sigs...> {
  obj o{1}; long want;
  explicit looker(long w) noexcept : want(w) {}
  template <class R> struct wrap { using receiver_concept = ex::receiver_tag; R r; long want;
    template <class... As> void set_value(As&&... a) && noexcept { vp_check(fq(ex::get_env(r)) == want, "the environment stays until the completion"); ex::set_value(static_cast<R&&>(r), static_cast<As&&>(a)...); }
    void set_stopped() && noexcept { vp_check(fq(ex::get_env(r)) == want, "the environment stays until the completion"); ex::set_stopped(static_cast<R&&>(r)); }
    auto get_env() const noexcept { return ex::get_env(r); } };
  template <class R> struct op { using operation_state_concept = ex::operation_state_tag; kid_op<wrap<R>, Id, Mode, Sigs...> k; obj o; long want; void start() & noexcept { vp_check(fq(ex::get_env(k.r.r)) == want, "the operation sees the environment it was given"); vp_check(ex::get_allocator(ex::get_env(k.r.r)).id == want, "and its allocator"); vp_add(&seen, 1); k.start(); } };
  template <ex::receiver R> auto connect(R r) && noexcept(false) -> op<R> { if (vp_choose(2, "connect throws")) throw err{55}; return op<R>{kid_op<wrap<R>, Id, Mode, Sigs...>{wrap<R>{static_cast<R&&>(r), want}}, static_cast<obj&&>(o), want}; }
};
static void done(int id = 0) {
  vp_check(kids[id].started() == 1 && kids[id].completed() == 1, "the operation ran");
  vp_check(kids[id].connected() == 1 && kids[id].destroyed() == 1, "its state is destroyed once it has completed");
}

// --- start_detached -----------------------------------------------------------------------
VP_TEST(detached) {
  long h = vp_heap();
  xx::start_detached(snd<0, m_any, VV, V0, SS>{});
  vp_check(kids[0].started() == 1, "the operation is started at once");
  if (!kids[0].completed()) { vp_check(kids[0].destroyed() == 0, "and kept until it completes"); fire(0); }
  done(); vp_check(vp_heap() == h, "and its storage is freed");
}
static void t_fire(void* p) { fire_started((int) (long) p); }
VP_TEST(detached_thread) {       // completed by another thread, even before start has returned
  long h = vp_heap();
  vp_spawn(t_fire, (void*) 0l, "completion");
  xx::start_detached(snd<0, m_later, V0, SS>{});
  vp_join_all(); done(); vp_check(vp_heap() == h, "its storage is freed");
}
VP_TEST(detached_throws) {
  vp_config("oom", 1);
  long h = vp_heap();
  try { xx::start_detached(throwing_connect_snd<0, m_any, V0, SS>{}); vp_check(kids[0].started() == 1, "started"); if (!kids[0].completed()) fire(0); done(); }
  catch (const err& e) { vp_check(e.e == 55, "an exception from connecting reaches the caller"); vp_check(kids[0].started() == 0, "and nothing is started"); }
  catch (const std::bad_alloc&) { vp_check(kids[0].connected() == 0, "out of memory reaches the caller"); }
  vp_check(vp_heap() == h, "nothing is leaked");
}
template <bool Thr, bool Mv> static void with_env() {
  long h = vp_heap();
  try { aenv<Thr, Mv> e{2, 2}; if constexpr (Mv) xx::start_detached(looker<0, m_any, VV, SS>{2}, e); else xx::start_detached(looker<0, m_any, VV, SS>{2}, static_cast<aenv<Thr, Mv>&&>(e)); vp_check(kids[0].started() == 1, "started"); vp_check(vp_get(&seen) == 1, "with the environment");
    if (!kids[0].completed()) { vp_check(vp_get(&live) == 3, "the environment and the operation are kept"); vp_check(vp_get(&got[2]) == 1 && vp_get(&allocs[2]) > 0, "in storage from the environment's allocator"); fire(0); }
    done(); vp_check(vp_get(&got[2]) == 1, "one allocation from the environment's allocator"); }
  catch (const err& e) { vp_check(e.e == 55 || (Mv && e.e == 31), "an exception reaches the caller"); vp_check(kids[0].started() == 0, "and nothing is started"); }
  catch (const std::bad_alloc&) { vp_check(Thr && kids[0].connected() == 0, "out of memory reaches the caller"); }
  vp_check(vp_get(&allocs[2]) == 0 && vp_get(&got[2]) == vp_get(&back), "what was allocated is given back to that allocator");
  vp_check(vp_get(&live) == 0, "the environment and the sender are destroyed"); vp_check(vp_heap() == h, "nothing is leaked");
}
VP_TEST(detached_env) { with_env<false, false>(); }
VP_TEST(detached_alloc) { with_env<true, false>(); }
VP_TEST(detached_env_throws) { with_env<false, true>(); }
VP_TEST(detached_lvalues) {      // nothing of the caller's is kept
  long h = vp_heap();
  { obj* q = new obj{4}; auto s = ex::then(snd<0, m_later, V0>{}, [o = static_cast<obj&&>(*q)]() noexcept { vp_check(o.v == 4 && o.st == 1, "the function is alive"); vp_add(&calls, 1); }); aenv<> e{1, 7}; delete q;
    xx::start_detached(s, e); vp_kill(&e.f, sizeof e.f); vp_live(&e.f, sizeof e.f); }
  vp_check(vp_get(&calls) == 0, "not yet"); fire(0);
  vp_check(vp_get(&calls) == 1, "the pipeline runs"); done(); vp_check(vp_get(&live) == 0 && vp_get(&allocs[1]) == 0 && vp_heap() == h, "and is released");
}
VP_TEST(detached_submit) {       // a sender that needs no state is just run
  long h = vp_heap();
  if (vp_choose(2, "with an environment")) { auto s = xx::just_from([](auto sink) noexcept { vp_add(&calls, 1); return sink(1l); }); xx::start_detached(s, aenv<>{1, 7}); }
  else xx::start_detached(xx::just_from([](auto sink) noexcept { vp_add(&calls, 1); return sink(1l); }));
  vp_check(vp_get(&calls) == 1, "the function runs once"); vp_check(vp_get(&live) == 0 && vp_get(&allocs[1]) == 0 && vp_heap() == h, "nothing is kept");
}
VP_TEST(detached_just) { long h = vp_heap(); xx::start_detached(ex::then(ex::just(obj{3}), [](obj o) noexcept { vp_check(o.v == 3 && o.st == 1, "the value arrives"); vp_add(&calls, 1); })); vp_check(vp_get(&calls) == 1 && vp_get(&live) == 0 && vp_heap() == h, "runs once and is released"); }
VP_TEST(detached_error) {        // there is nobody to tell
  vp_config("terminate-ok", 1);
  if (vp_choose(2, "inline")) xx::start_detached(snd<0, m_inline, EE>{}); else { xx::start_detached(snd<0, m_later, EE>{}); fire(0); }
  vp_check(false, "an error completion terminates the program");
}
// --- execute ----------------------------------------------------------------------------------
VP_TEST(execute) {
  long h = vp_heap();
  xx::__execute(sch<0, m_any, V0, SS>{}, [o = obj{5}]() noexcept { vp_check(o.v == 5 && o.st == 1, "the function is alive when it is called"); vp_check(ctx() == 0, "it is called where the scheduler completes"); vp_add(&calls, 1); });
  if (!kids[0].completed()) { vp_check(vp_get(&calls) == 0, "not before"); fire(0); }
  vp_check(vp_get(&calls) == (kids[0].ch() == value), "the function is called once, and only if the scheduler had a place for it");
  done(); vp_check(vp_get(&live) == 0 && vp_heap() == h, "function and operation are released");
}
VP_TEST(execute_throws) {
  vp_config("terminate-ok", 1);
  bool t = vp_choose(2, "function throws");
  xx::__execute(sch<0, m_inline, V0>{}, [t] { vp_add(&calls, 1); if (t) throw err{3}; });
  vp_check(!t, "an exception from the function terminates the program"); vp_check(vp_get(&calls) == 1, "called once");
}
// --- start_now -----------------------------------------------------------------------------------
struct eenv { long f; auto query(ex::get_allocator_t) const noexcept { return al<char>{f}; } long query(fq_t) const noexcept { return f; } };
VP_TEST(now_basic) {
  xx::async_scope sc;
  { auto st = xx::start_now(sc, snd<0, m_any, V0, VV, SS>{}, snd<1, m_any, V0, SS>{});
    vp_check(kids[0].started() == 1 && kids[1].started() == 1, "every sender is started at once");
    run w{st.async_wait()}; vp_check(w.o.n() == 0, "not before start"); w.start();
    while (true) {
      bool all = kids[0].completed() && kids[1].completed();
      vp_check(w.o.n() == all, "the wait completes when the last of them has");
      if (all) break;
      int i = kids[0].completed() ? 1 : kids[1].completed() ? 0 : vp_choose(2, "next");
      fire(i);
    }
    vp_check(w.o.ch() == value, "with set_value");
    run w2{st.async_wait()}; w2.start(); w2.o.expect_once(); vp_check(w2.o.ch() == value, "a later wait completes at once"); }
  done(0); done(1);
  run e{sc.on_empty()}; e.start(); e.o.expect_once();
}
VP_TEST(now_none) { xx::async_scope sc; auto st = xx::start_now(sc); run w{st.async_wait()}; w.start(); w.o.expect_once(); vp_check(w.o.ch() == value, "nothing to wait for"); run w2{st.async_wait()}; w2.start(); w2.o.expect_once(); }
struct thru { template <ex::sender S> auto nest(S&& s) -> std::remove_cvref_t<S> { return static_cast<S&&>(s); } };   // a scope that adds nothing
VP_TEST(now_stop) {
  thru sc;
  { auto st = xx::start_now(sc, stop_snd<0, V0>{}, snd<1, m_later, V0, SS>{});
    vp_check(!stop_seen(1) && !st.get_token().stop_requested(), "nobody asked to stop");
    run w{st.async_wait()}; w.start();
    vp_check(st.request_stop(), "the first request says so"); vp_check(st.get_token().stop_requested() && stop_seen(1), "a stop request reaches the senders"); vp_check(!st.request_stop(), "and is made once");
    vp_check(kids[0].ch() == stopped, "which stops the one that listens"); w.o.expect_none();
    fire(1); w.o.expect_once(); vp_check(w.o.ch() == value, "the wait does not fail"); }
  done(0); done(1);
}
VP_TEST(now_scope_stop) {        // stopping the scope stops the senders too
  xx::async_scope sc;
  { auto st = xx::start_now(sc, snd<0, m_later, V0, SS>{}); sc.request_stop(); (void) st; run w{st.async_wait()}; w.start(); fire(0); w.o.expect_once(); }
  run e{sc.on_empty()}; e.start(); e.o.expect_once();
}
template <class E> static void now_env_(E mk) {
  xx::async_scope sc;
  { auto st = mk(sc); vp_check(vp_get(&seen) == 1, "the sender saw the environment"); run w{st.async_wait()}; w.start(); if (!kids[0].completed()) { w.o.expect_none(); fire(0); } w.o.expect_once(); }
  done(0); vp_check(vp_get(&live) == 0, "released");
}
template <int Id, int Mode, class... Sigs> struct look2 : snd<Id, Mode, Sigs...> {
  template <class R> struct op { using operation_state_concept = ex::operation_state_tag; kid_op<R, Id, Mode, Sigs...> k; void start() & noexcept { vp_check(fq(ex::get_env(k.r)) == 3, "the operation sees the environment it was given"); vp_check(!ex::get_stop_token(ex::get_env(k.r)).stop_requested(), "not stopped"); vp_add(&seen, 1); k.start(); } };
  template <ex::receiver R> auto connect(R r) const noexcept -> op<R> { return op<R>{kid_op<R, Id, Mode, Sigs...>{static_cast<R&&>(r)}}; }
};
VP_TEST(now_env) { now_env_([](xx::async_scope& sc) { return xx::start_now(eenv{3}, sc, look2<0, m_any, V0, SS>{}); }); }
template <bool Env> static void now_throws_() {
  xx::async_scope sc; bool threw = false;
  try {
    auto go = [&] { if constexpr (Env) return xx::start_now(eenv{3}, sc, snd<0, m_any, V0>{}, throwing_connect_snd<1, m_any, V0>{}); else return xx::start_now(sc, snd<0, m_any, V0>{}, throwing_connect_snd<1, m_any, V0>{}); };
    auto st = go();
    run w{st.async_wait()}; w.start(); if (!kids[0].completed()) fire(0); if (!kids[1].completed()) fire(1); w.o.expect_once();
  } catch (const err& e) { threw = true; vp_check(e.e == 55, "an exception from connecting reaches the caller"); vp_check(kids[0].started() == 0 && kids[1].started() == 0, "and nothing is started"); }
  vp_check(kids[0].connected() == kids[0].destroyed() && kids[1].connected() == kids[1].destroyed(), "every operation is destroyed"); (void) threw;
  run e{sc.on_empty()}; e.start(); e.o.expect_once();
}
VP_TEST(now_throws) { now_throws_<false>(); }
VP_TEST(now_throws_env) { now_throws_<true>(); }
// the storage goes as soon as the wait completes
using now_t = decltype(xx::start_now(std::declval<xx::async_scope&>(), std::declval<snd<0, m_later, V0>>(), std::declval<snd<1, m_later, V0>>()));
struct storage {
  box<now_t> b; using J = decltype(std::declval<now_t&>().async_wait()); using R = rcv<ex::env<>, ex::completion_signatures_of_t<J, ex::env<>>>;
  obs o; rcv_hooks h; box<ex::connect_result_t<J, R>> op; long seen = 0;
  static void after(void* p) { auto* s = static_cast<storage*>(p); s->seen = 1; s->op.destroy(); s->b.destroy(); }
  explicit storage(xx::async_scope& sc) : h{&o, &after, this} { b.emplace_from([&] { return xx::start_now(sc, snd<0, m_later, V0>{}, snd<1, m_later, V0>{}); }); }
  void wait() { op.emplace_from([&] { return ex::connect(b.get().async_wait(), R{&h, {}}); }); ex::start(op.get()); }
};
static long plain2[2]; static xx::async_scope* SC;
static void p_fire(void* p) { long i = (long) p; plain2[i] = 1; fire((int) i); }
template <int N> static void now_race_(int n) {
  vp_config("preempt", n);
  xx::async_scope sc; SC = &sc;
  storage st{sc};
  vp_spawn(p_fire, (void*) 0l, "first");
  if (N == 2) vp_spawn(p_fire, (void*) 1l, "second"); else fire(1);
  st.wait();
  vp_join_all(); st.o.expect_once(); vp_check(st.o.ch() == value, "the wait completes once every sender has");
  run e{sc.on_empty()}; e.start(); e.o.expect_once();
}
VP_TEST(now_race) { now_race_<1>(3); }
VP_TEST(now_race2) { now_race_<2>(2); }

// task_scheduler: any scheduler behind one type
#include "vp_bulk.hpp"
using namespace vp;

// ---- the most general scheduler: never fails, stops only if it can be stopped, and does bulk work its own way ---------
static char salive, sdead, wthr;
template <class Env> constexpr bool stoppable = !ex::unstoppable_token<ex::stop_token_of_t<Env>>;
static void finish(kid& k, auto& r) { vp_set(&k.ch_, value); vp_set(&k.completed_, 1); char* cx = &ctx_key[vp_thread_id()]; long old = vp_get(cx); vp_set(cx, (&k - kids) + 1); ex::set_value(std::move(r)); vp_set(cx, old); }
struct worker { virtual void fire() noexcept = 0; };
template <class F> struct job { F* f; std::size_t b, e; static void go(void* p) { auto* j = static_cast<job*>(p); if (j->b < j->e) { vp_set(&ctx_key[vp_thread_id()], 7); (*j->f)(j->b, j->e); } } };
template <class Fn, class R, bool Ch, unsigned long Pad> struct wop final : worker {
  using operation_state_concept = ex::operation_state_tag;
  Fn f; R r; std::size_t n; long st = 1; unsigned char pad[Pad];
  wop(Fn f, R r, std::size_t n) : f(f), r(static_cast<R&&>(r)), n(n) { if (vp_get(&wthr) && vp_choose(2, "connecting the work throws")) { vp_set(&wthr, 2); throw err{55}; } vp_add(&kids[6].conn_, 1); }
  wop(wop&&) = delete; ~wop() { vp_check(st == 1, "the work is destroyed once"); st = 0; vp_add(&kids[6].destroyed_, 1); }
  void start() & noexcept { vp_check(vp_add(&kids[6].started_, 1) == 1, "the work is submitted once"); if (vp_choose(2, "the work is done later")) vp_set(&kids[6].pend_, (long) static_cast<worker*>(this)); else fire(); }
  void fire() noexcept override {
    vp_check(st == 1, "pending work is alive"); vp_set(&kids[6].pend_, 0);
    int how = vp_choose(5, "how the work is split"); std::size_t m = n / 2;
    char* cx = &ctx_key[vp_thread_id()]; long old = vp_get(cx); vp_set(cx, 7);
    if (how == 4) { vp_set(&kids[6].ch_, error); vp_set(&kids[6].completed_, 1); long s = vp_sym("error"); vp_set(&kids[6].pay_, s); ex::set_error(std::move(r), std::make_exception_ptr(err{s})); vp_set(cx, old); return; }
    if constexpr (Ch) {
      if (how == 0) { if (n) f(0, n); } else if (how == 1) { for (std::size_t i = 0; i < n; ++i) f(i, i + 1); }
      else if (how == 2) { if (m < n) f(m, n); if (m) f(0, m); } else { job<Fn> a{&f, 0, m}, b{&f, m, n}; int t = vp_spawn(job<Fn>::go, &a, "worker"); job<Fn>::go(&b); vp_join(t); } }
    else { if (how == 2) for (std::size_t i = n; i-- > 0;) f(i); else for (std::size_t i = 0; i < n; ++i) f(i); }
    vp_set(cx, old); finish(kids[6], r);
  }
};
template <class Fn, bool Ch, unsigned long Pad> struct wsnd { using sender_concept = ex::sender_tag; Fn f; std::size_t n;
  template <class, class...> static consteval auto get_completion_signatures() noexcept -> ex::completion_signatures<V0, EP> { return {}; }
  template <ex::receiver R> auto connect(R r) const -> wop<Fn, R, Ch, Pad> { return wop<Fn, R, Ch, Pad>{f, static_cast<R&&>(r), n}; } };
template <unsigned long Pad> struct wdom : ex::default_domain {
  template <class S, class Env> requires std::same_as<ex::tag_of_t<S>, ex::bulk_chunked_t> || std::same_as<ex::tag_of_t<S>, ex::bulk_unchunked_t>
  static auto transform_sender(ex::set_value_t, S&& s, const Env&) { auto& [tag, data, child] = s; auto& [pol, n, f] = data; vp_check(std::is_same_v<std::remove_cvref_t<decltype(pol.__get())>, ex::parallel_policy>, "the scheduler may do the work in parallel"); return wsnd<std::decay_t<decltype(f)>, std::same_as<std::decay_t<decltype(tag)>, ex::bulk_chunked_t>, Pad>{f, (std::size_t) n}; }
};
// Bulk: does bulk its own way; Obj: the scheduler is an object whose life is watched
template <bool Bulk, unsigned long Pad = 1, unsigned long Obj = 1> struct tsch {
  using scheduler_concept = ex::scheduler_tag;
  long id, st = 1; unsigned char pad[Obj]{};
  explicit tsch(long i) noexcept : id(i) { vp_add(&salive, 1); }
  tsch(const tsch& o) noexcept : id(o.id) { vp_check(o.st == 1, "the scheduler is copied while alive"); vp_add(&salive, 1); }
  tsch(tsch&& o) noexcept : id(o.id) { vp_check(o.st == 1, "the scheduler is moved while alive"); vp_add(&salive, 1); }
  tsch& operator=(const tsch& o) noexcept { vp_check(o.st == 1 && st == 1, "the scheduler is assigned while alive"); id = o.id; return *this; }
  ~tsch() { vp_check(st == 1, "the scheduler is destroyed once"); st = 0; vp_add(&salive, -1); }
  struct env { tsch s; auto query(ex::get_completion_scheduler_t<ex::set_value_t>) const noexcept { return s; } };
  struct sender { using sender_concept = ex::sender_tag; tsch s;
    template <class, class Env> static consteval auto get_completion_signatures() noexcept { if constexpr (stoppable<Env>) return ex::completion_signatures<V0, SS>{}; else return ex::completion_signatures<V0>{}; }
    template <ex::receiver R> auto connect(R r) const noexcept { vp_check(s.st == 1, "the scheduler is used while alive"); vp_set(&sdead, s.id); if constexpr (stoppable<ex::env_of_t<R>>) return kid_op<R, 7, m_any, V0, SS>{static_cast<R&&>(r)}; else return kid_op<R, 7, m_any, V0>{static_cast<R&&>(r)}; }
    auto get_env() const noexcept -> env { return {s}; } };
  auto schedule() const noexcept -> sender { vp_check(st == 1, "the scheduler is used while alive"); return {*this}; }
  auto query(ex::get_completion_domain_t<ex::set_value_t>) const noexcept { if constexpr (Bulk) return wdom<Pad>{}; else return ex::default_domain{}; }
  auto query(ex::get_forward_progress_guarantee_t) const noexcept { return ex::forward_progress_guarantee::parallel; }
  bool operator==(const tsch& o) const noexcept { return id == o.id; }
};
struct ok { heap_ok h; ~ok() { vp_check(vp_get(&salive) == 0, "every copy of the scheduler is destroyed"); vp_check(kids[7].connected() == kids[7].destroyed(), "the scheduler's operation is destroyed"); vp_check(kids[6].connected() == kids[6].destroyed(), "the work is destroyed"); } };
static void fire_s() { fire(7); }
static void fire_b() { if (long p = vp_get(&kids[6].pend_)) ((worker*) p)->fire(); }

// ---- schedule ----------------------------------------------------------------------------------------
template <class S> static void sched() { ok g; ex::task_scheduler t{S{5}}; { run r{ex::schedule(t)}; vp_check(!kids[7].started(), "nothing is scheduled before start"); r.start(); fire_s(); sched_done(r.o); vp_check(r.o.ch() == value, "an unstoppable schedule succeeds"); } vp_check(vp_get(&sdead) == 5, "the given scheduler is used"); }
VP_TEST(schedule) { sched<tsch<false>>(); }
VP_TEST(schedule_big) { sched<tsch<false, 1, 100>>(); }
VP_TEST(schedule_lvalue) { ok g; const auto s = ex::schedule(ex::task_scheduler{tsch<false>{5}}); run<decltype(s)&> r{s}; r.start(); fire_s(); sched_done(r.o); }
VP_TEST(schedule_not_started) { ok g; run r{ex::schedule(ex::task_scheduler{tsch<false>{5}})}; }
VP_TEST(schedule_stop) { ok g; bool al = vp_choose(2, "stop was requested"); run_stop r{ex::schedule(ex::task_scheduler{tsch<false>{5}}), al}; r.start();
  if (kids[7].pending()) { bool s = vp_choose(2, "stop"); if (s) r.src.get().request_stop(); vp_check(stop_seen(7) == (s || al), "a stop request reaches the scheduler"); }
  fire_s(); sched_done(r.o); }
VP_TEST(schedule_other_stop) { ok g; box<ex::inplace_stop_source> src; ::new (static_cast<void*>(src.mem)) ex::inplace_stop_source; src.full = true; bool al = vp_choose(2, "stop was requested"); if (al) src.get().request_stop();
  { run r{ex::schedule(ex::task_scheduler{tsch<false>{5}}), wenv{{src.get().get_token()}}}; r.start();
    if (kids[7].pending()) { bool s = vp_choose(2, "stop"); if (s) src.get().request_stop(); vp_check(stop_seen(7) == (s || al), "a stop request reaches the scheduler"); }
    fire_s(); r.o.expect_once(); if (kids[7].started()) sched_done(r.o); else r.o.expect_stopped(); }
  src.get().request_stop(); src.destroy(); }
VP_TEST(schedule_other_dead) { ok g; box<ex::inplace_stop_source> src; ::new (static_cast<void*>(src.mem)) ex::inplace_stop_source; src.full = true; if (vp_choose(2, "stop was requested")) src.get().request_stop();
  using S = decltype(ex::schedule(std::declval<ex::task_scheduler>())); using R = rcv<wenv>; obs o; rcv_hooks h{&o, [](void* p) { static_cast<box<ex::inplace_stop_source>*>(p)->destroy(); }, &src};
  box<ex::connect_result_t<S, R>> b; b.emplace_from([&] { return ex::connect(ex::schedule(ex::task_scheduler{tsch<false>{5}}), R{&h, {{src.get().get_token()}}}); });
  ex::start(b.get()); fire_s(); o.expect_once(); b.destroy(); }
VP_TEST(equal) { ok g; vp_check(std::is_same_v<ex::completion_signatures_of_t<decltype(ex::schedule(std::declval<ex::task_scheduler>())), ex::env<>>, ex::completion_signatures<V0>>, "an unstoppable schedule only succeeds"); ex::task_scheduler a{tsch<false>{1}}, b{tsch<false>{1}}, c{tsch<false>{2}}, d{tsch<true>{1}}; auto e = c;
  vp_check(a == b, "equal schedulers give equal task schedulers"); vp_check(!(a == c), "different schedulers give different task schedulers"); vp_check(!(a == d), "schedulers of different types differ"); vp_check(c == e, "a copy is equal");
  e = a; vp_check(e == a && !(e == c), "assignment replaces the scheduler"); vp_check(ex::get_completion_scheduler<ex::set_value_t>(ex::get_env(ex::schedule(a)), ex::env<>{}) == a, "the work completes on the scheduler itself");
  vp_check(ex::get_forward_progress_guarantee(a) == ex::forward_progress_guarantee::parallel, "the progress guarantee is the scheduler's"); }
VP_TEST(moved) { ok g; ex::task_scheduler a{tsch<false, 1, 64>{1}}; ex::task_scheduler b{std::move(a)}; a = b; ex::task_scheduler c{tsch<false>{3}}; c = std::move(b); vp_check(c == a, "a moved scheduler is the same"); run r{ex::schedule(c)}; r.start(); fire_s(); sched_done(r.o); vp_check(vp_get(&sdead) == 1, "the given scheduler is used"); }
// the sender and the operation outlive the task_scheduler they came from
VP_TEST(outlives) { ok g; auto s = [] { ex::task_scheduler t{tsch<false, 1, 64>{1}}; return ex::schedule(t); }(); run r{std::move(s)}; r.start(); fire_s(); sched_done(r.o); }

// ---- bulk ---------------------------------------------------------------------------------------------
template <class Sch = tsch<true>, class Mk> static void go(Mk mk, long n, bool p, auto env) {
  ok g; vp_set(&lim, n); vp_set(&par, p);
  { run r{mk(ex::task_scheduler{Sch{5}}), env};
    vp_check(!kids[7].started() && !kids[0].started(), "nothing runs before start");
    r.start(); fire_s(); if (kids[0].connected()) fire(0); fire_b();
    bulk_done(r.o, n); }
  vp_check(kids[0].connected() == kids[0].destroyed(), "the predecessor's operation is destroyed");
}
template <class Pol> constexpr bool is_par = std::is_same_v<Pol, ex::parallel_policy> || std::is_same_v<Pol, ex::parallel_unsequenced_policy>;
template <bool Thr, class Sch = tsch<true>, class Pol> static void forms(Pol p, long n) {
  if (vp_choose(2, "chunked")) go<Sch>([&](auto s) { return ex::bulk_chunked(ex::schedule(s), p, n, chunk<Thr>{}); }, n, is_par<Pol>, ex::env<>{});
  else go<Sch>([&](auto s) { return ex::bulk_unchunked(ex::schedule(s), p, n, one<Thr>{}); }, n, is_par<Pol>, ex::env<>{});
}
VP_TEST(bulk_par) { forms<false>(ex::par, vp_choose(4, "shape")); }
VP_TEST(bulk_seq) { forms<false>(ex::seq, vp_choose(4, "shape")); }
VP_TEST(bulk_par_unseq) { forms<false>(ex::par_unseq, vp_choose(3, "shape")); }
VP_TEST(bulk_unseq) { forms<false>(ex::unseq, vp_choose(3, "shape")); }
VP_TEST(bulk_throws) { forms<true>(ex::par, 3); }
VP_TEST(bulk_seq_throws) { forms<true>(ex::seq, 3); }
VP_TEST(bulk) { go([](auto s) { return ex::bulk(ex::schedule(s), ex::par, 3, one<false>{}); }, 3, true, ex::env<>{}); }
VP_TEST(bulk_bulk_throws) { go([](auto s) { return ex::bulk(ex::schedule(s), ex::par, 3, one<true>{}); }, 3, true, ex::env<>{}); }
VP_TEST(bulk_big) { forms<false, tsch<true, 400>>(ex::par, 2); }
template <class Sch> static void throwing() { ok g; vp_set(&wthr, 1); vp_set(&kids[7].ch_, value); vp_set(&lim, 2); vp_set(&par, 1); { run r{ex::bulk_chunked(ex::schedule(ex::task_scheduler{Sch{5}}), ex::par, 2, chunk<false>{})}; r.start(); fire_s(); fire_b(); r.o.expect_once(); if (vp_get(&wthr) == 2) r.o.expect_error(55); else bulk_done(r.o, 2); } }
VP_TEST(bulk_throwing_connect) { throwing<tsch<true>>(); }
VP_TEST(bulk_big_throwing_connect) { throwing<tsch<true, 400>>(); }
VP_TEST(bulk_oom) { vp_config("oom", 1); forms<false, tsch<true, 400>>(ex::par, 2); }
// a scheduler that leaves bulk work to the default
template <class S> static void plain(S s, long n) { vp_set(&kids[6].started_, 1); vp_set(&lim, n); vp_set(&par, 1); run r{std::move(s)}; r.start(); fire_s(); r.o.expect_once(); vp_check(r.o.ch() == (vp_get(&threw) ? error : value), "completes with a value unless the function throws"); if (vp_get(&threw)) r.o.expect_error(41); else for (long i = 0; i < n; ++i) vp_check(vp_get(&idx[i]) == 1, "every index is visited once"); }
VP_TEST(bulk_plain) { ok g; ex::task_scheduler t{tsch<false>{5}}; long n = vp_choose(4, "shape"); switch (vp_choose(3, "form")) { case 0: plain(ex::bulk_chunked(ex::schedule(t), ex::par, n, chunk<true>{}), n); break; case 1: plain(ex::bulk_unchunked(ex::schedule(t), ex::par, n, one<true>{}), n); break; default: plain(ex::bulk(ex::schedule(t), ex::par, n, one<true>{}), n); } vp_set(&kids[6].started_, 0); }
VP_TEST(bulk_inline) { ok g; ex::task_scheduler t{ex::inline_scheduler{}}; long n = vp_choose(4, "shape"); switch (vp_choose(3, "form")) { case 0: plain(ex::bulk_chunked(ex::schedule(t), ex::par, n, chunk<true>{}), n); break; case 1: plain(ex::bulk_unchunked(ex::schedule(t), ex::par, n, one<true>{}), n); break; default: plain(ex::bulk(ex::schedule(t), ex::par, n, one<true>{}), n); } vp_set(&kids[6].started_, 0); }
struct ienv { auto query(ex::get_start_scheduler_t) const noexcept { return ex::task_scheduler{ex::inline_scheduler{}}; } };
VP_TEST(bulk_inline_start) { ok g; vp_set(&kids[6].started_, 1); vp_set(&lim, 2); vp_set(&par, 1); run r{ex::bulk_chunked(ex::schedule(ex::task_scheduler{ex::inline_scheduler{}}), ex::par, 2, chunk<false>{}), ienv{}}; r.start(); r.o.expect_once(); vp_check(r.o.ch() == value && vp_get(&idx[1]) == 1, "every index is visited once"); vp_set(&kids[6].started_, 0); }
// with a predecessor that has values
template <class... Sigs> struct pre { struct env { ex::task_scheduler s; auto query(ex::get_completion_scheduler_t<ex::set_value_t>) const noexcept { return s; } auto query(ex::get_completion_domain_t<ex::set_value_t>) const noexcept { return ex::task_scheduler_domain{}; } };
  using sender_concept = ex::sender_tag; ex::task_scheduler s; snd<0, m_any, Sigs...> k{};
  template <class, class...> static consteval auto get_completion_signatures() noexcept -> ex::completion_signatures<Sigs...> { return {}; }
  template <ex::receiver R> auto connect(R r) const noexcept(std::is_nothrow_move_constructible_v<R>) { return k.connect(static_cast<R&&>(r)); }
  auto get_env() const noexcept -> env { return env{s}; } };
template <class... Sigs, bool Thr = false> static void with(std::bool_constant<Thr> = {}, int n = 2) {
  vp_set(&kids[7].ch_, value);
  if (vp_choose(2, "chunked")) go([&](auto s) { return ex::bulk_chunked(pre<Sigs...>{s}, ex::par, n, chunk<Thr>{}); }, n, true, ex::env<>{});
  else go([&](auto s) { return ex::bulk_unchunked(pre<Sigs...>{s}, ex::par, n, one<Thr>{}); }, n, true, ex::env<>{});
}
VP_TEST(values) { with<VV, EE, SS>(); }
VP_TEST(values_throw) { with<VV, EE, SS>(std::true_type{}); }
VP_TEST(several_values) { with<VV, V0, EE>(); }
VP_TEST(exceptions) { with<VV, EP>(); }
VP_TEST(owned_values) { with<VO, EE, SS>(); }
template <class... Sigs> struct lpre : pre<Sigs...> { template <ex::receiver R> auto connect(R r) const noexcept -> lop<R> { return {static_cast<R&&>(r)}; } };
VP_TEST(lvalue_values) { ok g; vp_set(&lim, 2); vp_set(&par, 1); vp_set(&kids[7].ch_, value); { run r{ex::bulk_chunked(lpre<VLV>{{ex::task_scheduler{tsch<true>{5}}}}, ex::par, 2, chunk<false>{})}; r.start(); fire_b(); bulk_done(r.o, 2); } }
VP_TEST(stop_predecessor) { ok g; vp_set(&lim, 2); vp_set(&par, 1); vp_set(&kids[7].ch_, value); bool al = vp_choose(2, "stop was requested"); run_stop r{ex::bulk_unchunked(pre<VV, SS>{ex::task_scheduler{tsch<true>{5}}}, ex::par, 2, one<false>{}), al}; r.start();
  if (kids[0].pending()) { bool st = vp_choose(2, "stop"); if (st) r.src.get().request_stop(); vp_check(stop_seen(0) == (st || al), "a stop request reaches the predecessor"); fire(0); } fire_b(); r.o.expect_once(); if (kids[0].ch() == stopped) r.o.expect_stopped(); }
VP_TEST(throwing_values) { ok g; vp_set(&kids[7].ch_, value); vp_set(&lim, 2); vp_set(&par, 1);
  { run r{ex::bulk_unchunked(pre<VT, EE>{ex::task_scheduler{tsch<true>{5}}}, ex::par, 2, one<false>{})}; r.start(); fire(0); fire_b(); r.o.expect_once();
    if (r.o.ch() == error && (r.o.p() == 77 || r.o.p() == 78)) return;
    bulk_done(r.o, 2); } }
VP_TEST(bulk_stop) { ok g; vp_set(&lim, 2); vp_set(&par, 1); bool al = vp_choose(2, "stop was requested");
  auto t = [&](auto s) { run_stop r{std::move(s), al}; r.start(); fire_s(); fire_b(); r.o.expect_once(); if (kids[7].ch() == stopped) r.o.expect_stopped(); else bulk_done(r.o, 2); };
  if (vp_choose(2, "chunked")) t(ex::bulk_chunked(ex::schedule(ex::task_scheduler{tsch<true>{5}}), ex::par, 2, chunk<false>{})); else t(ex::bulk_unchunked(ex::schedule(ex::task_scheduler{tsch<true>{5}}), ex::par, 2, one<false>{})); }
VP_TEST(bulk_not_started) { ok g; { if (vp_choose(2, "chunked")) { run r{ex::bulk_chunked(pre<VV, EE>{ex::task_scheduler{tsch<true>{5}}}, ex::par, 2, chunk<false>{})}; } else { run r{ex::bulk_unchunked(ex::schedule(ex::task_scheduler{tsch<true>{5}}), ex::par, 2, one<false>{})}; } } vp_check(kids[0].connected() == kids[0].destroyed(), "the predecessor's operation is destroyed"); }
static char nadd;
struct adder { void operator()(long b, long e, val& v) noexcept { for (; b != e; ++b) v.v += 10; vp_add(&nadd, 1); } };
VP_TEST(modified) { ok g; vp_set(&kids[7].ch_, value); { run r{ex::bulk_chunked(pre<VV>{ex::task_scheduler{tsch<true>{5}}}, ex::seq, 2L, adder{})}; r.start(); fire(0); fire_b(); r.o.expect_once(); if (kids[6].ch() == value) { vp_check(vp_get(&nadd) == 1, "a sequential policy makes one call"); r.o.expect_value(kids[0].pay() + 10 + 10); } } }
// ---- what the scheduler's operation can ask of the receiver ----------------------------------------------
static char nalloc, asked;
template <class T> struct al { using value_type = T; long id; explicit al(long i) noexcept : id(i) {} template <class U> al(const al<U>& o) noexcept : id(o.id) {}
  T* allocate(std::size_t n) { vp_add(&nalloc, 1); vp_check(id == 3, "the allocator is the given one"); return std::allocator<T>{}.allocate(n); } void deallocate(T* p, std::size_t n) noexcept { vp_add(&nalloc, -1); vp_check(id == 3, "the allocator is the given one"); std::allocator<T>{}.deallocate(p, n); }
  template <class U> bool operator==(const al<U>& o) const noexcept { return id == o.id; } };
struct probe { using scheduler_concept = ex::scheduler_tag; struct env { auto query(ex::get_completion_scheduler_t<ex::set_value_t>) const noexcept { return probe{}; } };
  struct sender { using sender_concept = ex::sender_tag; template <class, class...> static consteval auto get_completion_signatures() noexcept -> ex::completion_signatures<V0> { return {}; }
    template <ex::receiver R> struct op { using operation_state_concept = ex::operation_state_tag; R r; void start() & noexcept {
      { auto e = ex::get_env(r); auto a = ex::get_allocator(e); long n = vp_get(&nalloc); auto* p = a.allocate(40); vp_check(vp_get(&nalloc) == n + 1, "the operation's allocator is the receiver's"); a.deallocate(p, 40);
        vp_check(ex::get_start_scheduler(e) == ex::task_scheduler{tsch<false>{9}}, "the operation's start scheduler is the receiver's"); vp_add(&asked, 1); }
      ex::set_value(static_cast<R&&>(r)); } };
    template <ex::receiver R> auto connect(R r) const noexcept -> op<R> { return {static_cast<R&&>(r)}; } auto get_env() const noexcept -> env { return {}; } };
  auto schedule() const noexcept -> sender { return {}; } bool operator==(const probe&) const noexcept = default; };
struct penv { auto query(ex::get_allocator_t) const noexcept { return al<int>{3}; } auto query(ex::get_start_scheduler_t) const noexcept { return ex::task_scheduler{tsch<false>{9}}; } };
struct pstop : penv { ex::inplace_stop_token t; auto query(ex::get_stop_token_t) const noexcept { return t; } using penv::query; };
VP_TEST(queries) { ok g; { run r{ex::schedule(ex::task_scheduler{probe{}}), penv{}}; r.start(); r.o.expect_once(); } vp_check(vp_get(&asked) == 1 && vp_get(&nalloc) == 0, "the operation asked"); }
VP_TEST(queries_stoppable) { ok g; ex::inplace_stop_source src; { run r{ex::schedule(ex::task_scheduler{probe{}}), pstop{{}, src.get_token()}}; r.start(); r.o.expect_once(); } vp_check(vp_get(&asked) == 1 && vp_get(&nalloc) == 0, "the operation asked"); }
// a receiver that names no start scheduler starts the operation inline
struct sprobe { using scheduler_concept = ex::scheduler_tag; struct env { auto query(ex::get_completion_scheduler_t<ex::set_value_t>) const noexcept { return sprobe{}; } };
  struct sender { using sender_concept = ex::sender_tag; template <class, class...> static consteval auto get_completion_signatures() noexcept -> ex::completion_signatures<V0> { return {}; }
    template <ex::receiver R> struct op { using operation_state_concept = ex::operation_state_tag; R r; void start() & noexcept { { vp_check(ex::get_start_scheduler(ex::get_env(r)) == ex::task_scheduler{ex::inline_scheduler{}}, "the operation is started inline"); vp_add(&asked, 1); } ex::set_value(static_cast<R&&>(r)); } };
    template <ex::receiver R> auto connect(R r) const noexcept -> op<R> { return {static_cast<R&&>(r)}; } auto get_env() const noexcept -> env { return {}; } };
  auto schedule() const noexcept -> sender { return {}; } bool operator==(const sprobe&) const noexcept = default; };
VP_TEST(queries_no_start) { ok g; { run r{ex::schedule(ex::task_scheduler{sprobe{}})}; r.start(); r.o.expect_once(); } vp_check(vp_get(&asked) == 1, "the operation asked"); }
VP_TEST(queries_no_start_stoppable) { ok g; { run_stop r{ex::schedule(ex::task_scheduler{sprobe{}}), false}; r.start(); r.o.expect_once(); } vp_check(vp_get(&asked) == 1, "the operation asked"); }
// the allocator given to the task_scheduler is used for whatever does not fit
VP_TEST(allocator) { ok g; { vp_set(&lim, 2); vp_set(&par, 1); ex::task_scheduler t{tsch<true, 400, 200>{5}, al<int>{3}}; auto u = t; vp_check(vp_get(&nalloc) > 0, "the given allocator is used"); { run r{ex::bulk_chunked(ex::schedule(t), ex::par, 2, chunk<false>{})}; r.start(); fire_s(); fire_b(); bulk_done(r.o, 2); } } vp_check(vp_get(&nalloc) == 0, "everything allocated is released"); }

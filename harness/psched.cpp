// parallel_scheduler over any backend, and its default backend over any pool
#include "vp_bulk.hpp"
#include <stdexec/__detail/__parallel_scheduler_default_impl.hpp>
#include <span>
using namespace vp;
namespace rp = ex::parallel_scheduler_replacement;

// ---- the most general backend: kids[7] is the scheduling, kids[6] the bulk work ----------------
static char bedead, bmode;
enum { b_whole = 0, b_each = 1, b_reverse = 2, b_two_threads = 3 };
static void scratch(std::span<std::byte> s) { for (auto& b : s) b = std::byte{0xcd}; }   // it is the backend's from now on
struct job { rp::bulk_item_receiver_proxy* r; std::size_t b, e; };
static void run_job(void* p) { auto* j = static_cast<job*>(p); if (j->b < j->e) j->r->execute(j->b, j->e); }
static void finish(kid& k, rp::receiver_proxy* r, int execd) {
  vp_set(&k.pend_, 0); vp_set(&k.completed_, 1);
  char* cx = &ctx_key[vp_thread_id()]; long old = vp_get(cx); vp_set(cx, (&k - kids) + 1);
  switch (execd == 1 ? 0 : execd == 2 ? 1 + vp_choose(2, "the backend gives up with") : vp_choose(3, "the backend completes with")) {
  case 0: vp_set(&k.ch_, value); r->set_value(); break;
  case 1: { vp_set(&k.ch_, error); long s = vp_sym("error"); vp_set(&k.pay_, s); r->set_error(std::make_exception_ptr(err{s})); break; }
  default: vp_set(&k.ch_, stopped); r->set_stopped();
  }
  vp_set(cx, old);
}
static void work(rp::bulk_item_receiver_proxy* r, std::size_t n) {
  bool unch = vp_get(&bmode);
  int how = vp_choose(4, "how the backend splits the work");
  if (how == 3 && vp_choose(2, "the backend gives up")) { finish(kids[6], r, 2); return; }
  std::size_t m = n / 2;
  char* cx = &ctx_key[vp_thread_id()]; long old = vp_get(cx); vp_set(cx, 7);
  if (unch || how == b_each) { if (how == b_reverse) for (std::size_t i = n; i-- > 0;) r->execute(i, i + 1); else for (std::size_t i = 0; i < n; ++i) r->execute(i, i + 1); }
  else if (how == b_whole) { if (n) r->execute(0, n); }
  else if (how == b_reverse) { if (m < n) r->execute(m, n); if (m) r->execute(0, m); }
  else { job a{r, 0, m}, b{r, m, n}; int t = vp_spawn(run_job, &a, "worker"); run_job(&b); vp_join(t); }
  vp_set(cx, old);
  finish(kids[6], r, 1);
}
static char pn;
struct be final : rp::parallel_scheduler_backend {
  long st = 1;
  ~be() { vp_check(st == 1, "the backend is destroyed once"); st = 0; vp_add(&bedead, 1); }
  void schedule(rp::receiver_proxy& r, std::span<std::byte> s) noexcept override {
    vp_check(st == 1, "the backend is alive");
    vp_add(&kids[7].started_, 1); scratch(s);
    if (vp_choose(2, "the backend completes later") == 0) finish(kids[7], &r, 0); else vp_set(&kids[7].pend_, (long) &r);
  }
  void bulk(std::size_t n, rp::bulk_item_receiver_proxy& r, std::span<std::byte> s) noexcept {
    vp_check(st == 1, "the backend is alive");
    vp_check(vp_add(&kids[6].started_, 1) == 1, "the work is submitted once"); scratch(s); vp_set(&pn, (long) n);
    if (vp_choose(2, "the backend completes later") == 0) work(&r, n); else vp_set(&kids[6].pend_, (long) &r);
  }
  void schedule_bulk_chunked(std::size_t n, rp::bulk_item_receiver_proxy& r, std::span<std::byte> s) noexcept override { vp_set(&bmode, 0); bulk(n, r, s); }
  void schedule_bulk_unchunked(std::size_t n, rp::bulk_item_receiver_proxy& r, std::span<std::byte> s) noexcept override { vp_set(&bmode, 1); bulk(n, r, s); }
};
static std::shared_ptr<rp::parallel_scheduler_backend> the_be;
namespace stdexec::parallel_scheduler_replacement { auto query_parallel_scheduler_backend() -> std::shared_ptr<parallel_scheduler_backend> { return std::move(the_be); } }
static ex::parallel_scheduler get() { the_be = std::make_shared<be>(); return ex::get_parallel_scheduler(); }
static void fire_s() { if (long p = vp_get(&kids[7].pend_)) finish(kids[7], (rp::receiver_proxy*) p, 0); }
static void fire_b() { if (long p = vp_get(&kids[6].pend_)) { vp_set(&kids[6].pend_, 0); work((rp::bulk_item_receiver_proxy*) p, (std::size_t) vp_get(&pn)); } }
static ex::inplace_stop_token tok_of(kid& k) { auto t = ((rp::receiver_proxy*) vp_get(&k.pend_))->try_query<ex::inplace_stop_token>(ex::get_stop_token); vp_check(t.has_value(), "the backend can ask for the stop token"); return *t; }

// ---- schedule ------------------------------------------------------------------------------------
struct alldead { ~alldead() { vp_check(vp_get(&bedead) == 1, "the backend is released"); } };
VP_TEST(schedule) { heap_ok g; alldead d; run r{get().schedule()}; vp_check(!vp_get(&kids[7].started_), "nothing is scheduled before start"); r.start(); vp_check(vp_get(&kids[7].started_) == 1, "start schedules"); fire_s(); sched_done(r.o); }
VP_TEST(schedule_lvalue) { heap_ok g; alldead d; const auto s = get().schedule(); { run<decltype(s)&> r{s}; r.start(); fire_s(); sched_done(r.o); } vp_check(!vp_get(&bedead), "a sender keeps the backend alive"); }
VP_TEST(schedule_not_started) { heap_ok g; alldead d; run r{get().schedule()}; }
VP_TEST(schedule_stop) { heap_ok g; alldead d; bool al = vp_choose(2, "stop was requested"); run_stop r{get().schedule(), al}; r.start();
  if (al) { r.o.expect_once(); r.o.expect_stopped(); vp_check(!vp_get(&kids[7].started_), "nothing is scheduled after a stop request"); return; }
  if (kids[7].pending()) { bool s = vp_choose(2, "stop"); if (s) r.src.get().request_stop(); vp_check(tok_of(kids[7]).stop_requested() == s, "a stop request reaches the backend"); }
  fire_s(); sched_done(r.o); }
VP_TEST(schedule_other_stop) { heap_ok g; alldead d; box<ex::inplace_stop_source> src; ::new (static_cast<void*>(src.mem)) ex::inplace_stop_source; src.full = true; bool al = vp_choose(2, "stop was requested"); if (al) src.get().request_stop();
  { run r{get().schedule(), wenv{{src.get().get_token()}}}; r.start();
    if (al) { r.o.expect_once(); r.o.expect_stopped(); vp_check(!vp_get(&kids[7].started_), "nothing is scheduled after a stop request"); }
    else { if (kids[7].pending()) { bool s = vp_choose(2, "stop"); if (s) src.get().request_stop(); vp_check(tok_of(kids[7]).stop_requested() == s, "a stop request reaches the backend"); }
      fire_s(); sched_done(r.o); } }
  src.get().request_stop(); src.destroy(); }
// the stop source may die as soon as the receiver is completed
VP_TEST(schedule_other_dead) { heap_ok g; alldead d; box<ex::inplace_stop_source> src; ::new (static_cast<void*>(src.mem)) ex::inplace_stop_source; src.full = true; if (vp_choose(2, "stop was requested")) src.get().request_stop();
  using S = decltype(get().schedule()); using R = rcv<wenv>; obs o; rcv_hooks h{&o, [](void* p) { static_cast<box<ex::inplace_stop_source>*>(p)->destroy(); }, &src};
  box<ex::connect_result_t<S, R>> b; b.emplace_from([&] { return ex::connect(get().schedule(), R{&h, {{src.get().get_token()}}}); });
  ex::start(b.get()); fire_s(); o.expect_once(); b.destroy(); }
VP_TEST(equal) { auto a = get(); auto b = a; vp_check(a == b, "copies of a scheduler are equal"); auto c = get(); vp_check(!(a == c), "schedulers of different backends differ");
  vp_check(ex::get_completion_scheduler<ex::set_value_t>(ex::get_env(ex::schedule(a)), ex::env<>{}) == a, "the work completes on the scheduler itself"); }

// ---- bulk ------------------------------------------------------------------------------------------
template <class Mk> static void go(Mk mk, long n, bool p) {
  heap_ok g; alldead d; vp_set(&lim, n); vp_set(&par, p);
  { run r{mk(get())};
    vp_check(!kids[7].started() && !kids[0].started(), "nothing runs before start");
    r.start(); fire_s(); if (kids[0].connected()) fire(0); fire_b();
    bulk_done(r.o, n); }
  vp_check(kids[0].connected() == kids[0].destroyed(), "the predecessor's operation is destroyed");
}
template <class Pol> constexpr bool is_par = std::is_same_v<Pol, ex::parallel_policy> || std::is_same_v<Pol, ex::parallel_unsequenced_policy>;
template <bool Thr, class Pol> static void forms(Pol p, long n) {
  if (vp_choose(2, "chunked")) go([&](auto s) { return ex::bulk_chunked(ex::schedule(s), p, n, chunk<Thr>{}); }, n, is_par<Pol>);
  else go([&](auto s) { return ex::bulk_unchunked(ex::schedule(s), p, n, one<Thr>{}); }, n, is_par<Pol>);
}
VP_TEST(bulk_par) { forms<false>(ex::par, vp_choose(4, "shape")); }
VP_TEST(bulk_seq) { forms<false>(ex::seq, vp_choose(4, "shape")); }
VP_TEST(bulk_par_unseq) { forms<false>(ex::par_unseq, vp_choose(3, "shape")); }
VP_TEST(bulk_unseq) { forms<false>(ex::unseq, vp_choose(3, "shape")); }
VP_TEST(bulk_throws) { forms<true>(ex::par, 3); }
VP_TEST(bulk_seq_throws) { forms<true>(ex::seq, 3); }
VP_TEST(bulk) { go([](auto s) { return ex::bulk(ex::schedule(s), ex::par, 3, one<false>{}); }, 3, true); }
VP_TEST(bulk_bulk_throws) { go([](auto s) { return ex::bulk(ex::schedule(s), ex::par, 3, one<true>{}); }, 3, true); }
// with a predecessor that has values
template <class... Sigs> struct pre { struct env { ex::parallel_scheduler s; auto query(ex::get_completion_scheduler_t<ex::set_value_t>) const noexcept { return s; } auto query(ex::get_completion_domain_t<ex::set_value_t>) const noexcept { return ex::__parallel_scheduler_domain{}; } };
  using sender_concept = ex::sender_tag; ex::parallel_scheduler s; snd<0, m_any, Sigs...> k{};
  template <class, class...> static consteval auto get_completion_signatures() noexcept -> ex::completion_signatures<Sigs...> { return {}; }
  template <ex::receiver R> auto connect(R r) const noexcept(std::is_nothrow_move_constructible_v<R>) { return k.connect(static_cast<R&&>(r)); }
  auto get_env() const noexcept -> env { return env{s}; } };
template <class... Sigs, bool Thr = false> static void with(std::bool_constant<Thr> = {}, int n = 2) {
  vp_set(&kids[7].ch_, value);
  if (vp_choose(2, "chunked")) go([&](auto s) { return ex::bulk_chunked(pre<Sigs...>{s}, ex::par, n, chunk<Thr>{}); }, n, true);
  else go([&](auto s) { return ex::bulk_unchunked(pre<Sigs...>{s}, ex::par, n, one<Thr>{}); }, n, true);
}
VP_TEST(values) { with<VV, EE, SS>(); }
VP_TEST(values_throw) { with<VV, EE, SS>(std::true_type{}); }
VP_TEST(throwing_values) { heap_ok g; alldead d; vp_set(&kids[7].ch_, value); vp_set(&lim, 2); vp_set(&par, 1);
  { run r{ex::bulk_unchunked(pre<VT, EE>{get()}, ex::par, 2, one<false>{})}; r.start(); fire(0); fire_b(); r.o.expect_once();
    if (r.o.ch() == error && (r.o.p() == 77 || r.o.p() == 78)) return;
    bulk_done(r.o, 2); } }
VP_TEST(exceptions) { with<VV, EP>(); }
VP_TEST(owned_values) { with<VO, EE, SS>(); }
template <class... Sigs> struct lpre : pre<Sigs...> { template <ex::receiver R> auto connect(R r) const noexcept -> lop<R> { return {static_cast<R&&>(r)}; } };
VP_TEST(lvalue_values) { heap_ok g; alldead d; vp_set(&lim, 2); vp_set(&par, 1); vp_set(&kids[7].ch_, value); { run r{ex::bulk_chunked(lpre<VLV>{{get()}}, ex::par, 2, chunk<false>{})}; r.start(); fire_b(); bulk_done(r.o, 2); } }
VP_TEST(stop_predecessor) { heap_ok g; alldead d; vp_set(&lim, 2); vp_set(&par, 1); vp_set(&kids[7].ch_, value); bool al = vp_choose(2, "stop was requested"); run_stop r{ex::bulk_unchunked(pre<VV, SS>{get()}, ex::par, 2, one<false>{}), al}; r.start();
  if (kids[0].pending()) { bool st = vp_choose(2, "stop"); if (st) r.src.get().request_stop(); vp_check(stop_seen(0) == (st || al), "a stop request reaches the predecessor"); fire(0); } fire_b(); r.o.expect_once(); if (kids[0].ch() == stopped) r.o.expect_stopped(); }
VP_TEST(bulk_stop) { heap_ok g; alldead d; vp_set(&lim, 2); vp_set(&par, 1); bool al = vp_choose(2, "stop was requested"); bool ch = vp_choose(2, "chunked");
  auto t = [&](auto s) { run_stop r{std::move(s), al}; r.start(); fire_s(); bool st = false;
    if (r.o.n()) { return; }
    vp_check(kids[6].pending(), "the work is submitted"); st = vp_choose(2, "stop"); if (st) r.src.get().request_stop(); vp_check(tok_of(kids[6]).stop_requested() == st, "a stop request reaches the backend");
    fire_b(); r.o.expect_once(); if (kids[6].ch() == stopped) r.o.expect_stopped(); };
  if (ch) t(ex::bulk_chunked(ex::schedule(get()), ex::par, 2, chunk<false>{})); else t(ex::bulk_unchunked(ex::schedule(get()), ex::par, 2, one<false>{})); }
VP_TEST(bulk_stop_between) { heap_ok g; alldead d; vp_set(&lim, 2); vp_set(&par, 1); run_stop r{ex::bulk_chunked(ex::schedule(get()), ex::par, 2, chunk<false>{})}; r.start();
  if (kids[7].pending()) { r.src.get().request_stop(); fire_s(); r.o.expect_once(); vp_check(!kids[6].started(), "no work is submitted after a stop request"); if (kids[7].ch() == value) r.o.expect_stopped(); else sched_done(r.o); }
  else { fire_b(); r.o.expect_once(); } }
VP_TEST(bulk_not_started) { heap_ok g; alldead d; { if (vp_choose(2, "chunked")) { run r{ex::bulk_chunked(pre<VV, EE>{get()}, ex::par, 2, chunk<false>{})}; } else { run r{ex::bulk_unchunked(ex::schedule(get()), ex::par, 2, one<false>{})}; } } vp_check(kids[0].connected() == kids[0].destroyed(), "the predecessor's operation is destroyed"); }
VP_TEST(bulk_unconnected) { heap_ok g; alldead d; auto s = ex::bulk_chunked(pre<VV, EE>{get()}, ex::par, 2, chunk<false>{}); }
// what the function does to the values reaches the result
static char nadd;
struct adder { void operator()(long b, long e, val& v) noexcept { for (; b != e; ++b) v.v += 10; vp_add(&nadd, 1); } };
VP_TEST(modified) { heap_ok g; alldead d; vp_set(&kids[7].ch_, value); { run r{ex::bulk_chunked(pre<VV>{get()}, ex::seq, 2L, adder{})}; r.start(); fire(0); fire_b(); r.o.expect_once(); if (kids[6].ch() == value) { vp_check(vp_get(&nadd) == 1, "a sequential policy makes one call"); r.o.expect_value(kids[0].pay() + 10 + 10); } } }
// connecting the predecessor throws
template <class... Sigs> struct tpre : pre<Sigs...> { template <ex::receiver R> auto connect(R r) const { return throwing_connect_snd<0, m_any, Sigs...>{}.connect(static_cast<R&&>(r)); } };
VP_TEST(connect_throws) { heap_ok g; alldead d; vp_set(&lim, 2); vp_set(&par, 1); vp_set(&kids[7].ch_, value); bool threw_ = false;
  try { run r{ex::bulk_chunked(tpre<VV>{{get()}}, ex::par, 2, chunk<false>{})}; r.start(); fire(0); fire_b(); r.o.expect_once(); } catch (const err& e) { threw_ = true; vp_check(e.e == 55, "the exception of connect arrives"); }
  vp_check(threw_ == (kids[0].connected() == 0), "connect throws if the predecessor's does"); }

// ---- the default backend over any pool: kid 1 is the pool's scheduling ----------------------------
static char np;
template <unsigned long N, unsigned long A> struct big_op_pad { alignas(A) unsigned char pad[N]; };
template <unsigned long N, unsigned long A, class... Sigs> struct psch {
  using scheduler_concept = ex::scheduler_tag;
  template <class R> struct op { using operation_state_concept = ex::operation_state_tag; kid_op<R, 1, m_any, Sigs...> k; big_op_pad<N, A> p; explicit op(R r) noexcept : k(static_cast<R&&>(r)) { vp_check((reinterpret_cast<unsigned long>(&p) & (A - 1)) == 0, "the operation is suitably aligned"); for (auto& c : p.pad) c = 1; } void start() & noexcept { k.start(); } };
  struct env { psch s; auto query(ex::get_completion_scheduler_t<ex::set_value_t>) const noexcept { return s; } };
  struct sender { using sender_concept = ex::sender_tag; psch s; template <class, class...> static consteval auto get_completion_signatures() noexcept -> ex::completion_signatures<Sigs...> { return {}; }
    template <ex::receiver R> auto connect(R r) const noexcept -> op<R> { return op<R>{static_cast<R&&>(r)}; } auto get_env() const noexcept -> env { return {s}; } };
  auto schedule() const noexcept -> sender { return {*this}; }
  bool operator==(const psch&) const noexcept = default;
};
template <unsigned long N, unsigned long A> struct pool { auto get_scheduler() { return psch<N, A, V0, EP, SS>{}; } int available_parallelism() const noexcept { return (int) vp_get(&np); } };
template <unsigned long N, unsigned long A> static ex::parallel_scheduler dget() { the_be = std::make_shared<ex::__parallel_scheduler_default_impl::__generic_impl<pool<N, A>>>(); return ex::get_parallel_scheduler(); }
static void kid1_done(const obs& o) { o.expect_once(); vp_check(o.ch() == kids[1].ch(), "completes as the pool does"); vp_check(o.ctx() == 1, "completes on the pool"); if (o.ch() == error) o.expect_error(kids[1].pay()); }
template <unsigned long N, unsigned long A> static void dsched() { heap_ok g; { run r{ex::schedule(dget<N, A>())}; r.start(); if (kids[1].connected()) { fire(1); kid1_done(r.o); } else { r.o.expect_once(); r.o.expect_error(-2); } } vp_check(kids[1].connected() == kids[1].destroyed(), "the pool's operation is destroyed"); }
VP_TEST(dflt) { dsched<1, 1>(); }
VP_TEST(dflt_big) { dsched<200, 8>(); }
VP_TEST(dflt_aligned) { dsched<8, 64>(); }
VP_TEST(dflt_aligned_small) { dsched<8, 16>(); }
VP_TEST(dflt_aligned_32) { dsched<8, 32>(); }
// making the pool may fail too; that exception is the client's
VP_TEST(dflt_oom) { vp_config("oom", 1); try { if (vp_choose(2, "big")) dsched<200, 8>(); else dsched<8, 64>(); } catch (const std::bad_alloc&) {} }
VP_TEST(dflt_stop) { heap_ok g; run_stop r{ex::schedule(dget<1, 1>())}; r.start(); if (kids[1].pending()) { bool s = vp_choose(2, "stop"); if (s) r.src.get().request_stop(); vp_check(stop_seen(1) == s, "a stop request reaches the pool"); fire(1); } kid1_done(r.o); }
VP_TEST(dflt_other_stop) { heap_ok g; ex::inplace_stop_source src; run r{ex::schedule(dget<1, 1>()), wenv{{src.get_token()}}}; r.start(); if (kids[1].pending()) { bool s = vp_choose(2, "stop"); if (s) src.request_stop(); vp_check(stop_seen(1) == s, "a stop request reaches the pool"); fire(1); } kid1_done(r.o); }
static char ncalls, nidx[40];
static void seen(long b, long e, long n) { vp_check(b >= 0 && b <= e && e <= n, "only indices below the shape are visited"); if (e > n) return; for (long i = b; i < e; ++i) vp_check(vp_add(&nidx[i], 1) == 1, "an index is visited once"); vp_check(ctx() == 1, "the function is called on the pool"); }
template <unsigned long N, unsigned long A, bool Chunked, class Pol> static void dbulk(Pol p, long n, int par_) {
  heap_ok g; vp_set(&np, par_);
  auto done = [&](auto& r) { r.start(); fire(0); if (kids[1].connected()) fire(1); r.o.expect_once();
    if (kids[0].ch() != value) return;
    if (!kids[1].connected()) { r.o.expect_error(-2); return; }
    if (kids[1].ch() != value) { kid1_done(r.o); return; }
    vp_check(r.o.ch() == value, "the predecessor's values are the result"); for (long i = 0; i < n; ++i) vp_check(vp_get(&nidx[i]) == 1, "every index is visited once"); r.o.expect_value(kids[0].pay()); };
  if constexpr (Chunked) { auto f = [n](long b, long e, val&) noexcept { seen(b, e, n); }; run r{ex::bulk_chunked(pre<VV, EE>{dget<N, A>()}, p, n, f)}; done(r); }
  else { auto f = [n](long i, val&) noexcept { seen(i, i + 1, n); }; run r{ex::bulk_unchunked(pre<VV, EE>{dget<N, A>()}, p, n, f)}; done(r); }
}
static long shp() { static constexpr int n[] = {0, 1, 2, 5, 6, 7, 12, 13, 25}; return n[vp_choose(9, "shape")]; }
VP_TEST(dflt_chunked) { dbulk<1, 1, true>(ex::par, shp(), vp_choose(5, "parallelism")); }
VP_TEST(dflt_unchunked) { dbulk<1, 1, false>(ex::par, shp() % 8, vp_choose(2, "parallelism")); }
VP_TEST(dflt_chunked_seq) { dbulk<1, 1, true>(ex::seq, shp(), vp_choose(3, "parallelism")); }
VP_TEST(dflt_unchunked_seq) { dbulk<1, 1, false>(ex::seq, shp() % 8, 1 + vp_choose(2, "parallelism")); }
VP_TEST(dflt_bulk_big) { if (vp_choose(2, "chunked")) dbulk<300, 8, true>(ex::par, 3, 1); else dbulk<8, 64, false>(ex::par, 3, 1); }
VP_TEST(dflt_bulk_oom) { vp_config("oom", 1); try { if (vp_choose(2, "chunked")) dbulk<300, 8, true>(ex::par, 3, 1); else dbulk<8, 64, false>(ex::par, 3, 1); } catch (const std::bad_alloc&) {} }
// the backend through its own interface
struct prx : rp::bulk_item_receiver_proxy { long n; bool unch; obs o; prx(long n_, bool u) : n(n_), unch(u) {}
  void execute(std::size_t b, std::size_t e) noexcept override { if (unch) vp_check(e == b + 1, "an unchunked call covers one index"); else vp_check(b <= e, "a chunk is a range"); seen((long) b, (long) e, n); }
  void set_value() noexcept override { vp_add(&o.n_, 1); vp_set(&o.ch_, value); } void set_error(std::exception_ptr) noexcept override { vp_add(&o.n_, 1); vp_set(&o.ch_, error); } void set_stopped() noexcept override { vp_add(&o.n_, 1); vp_set(&o.ch_, stopped); }
  void __query_env(ex::__type_index, ex::__type_index, void*) const noexcept override {} };
VP_TEST(dflt_interface) { heap_ok g; vp_set(&np, vp_choose(3, "parallelism")); { alignas(64) std::byte mem[512]; bool u = vp_choose(2, "unchunked"); long n = u ? shp() % 8 : shp(); prx p{n, u};
  auto be = std::make_shared<ex::__parallel_scheduler_default_impl::__generic_impl<pool<1, 1>>>(); if (u) be->schedule_bulk_unchunked((std::size_t) n, p, std::span{mem}); else be->schedule_bulk_chunked((std::size_t) n, p, std::span{mem});
  fire(1); vp_check(vp_get(&p.o.n_) == 1, "completes once"); if (kids[1].connected()) { vp_check(vp_get(&p.o.ch_) == kids[1].ch(), "completes as the pool does"); if (kids[1].ch() == value) for (long i = 0; i < n; ++i) vp_check(vp_get(&nidx[i]) == 1, "every index is visited once"); } } }

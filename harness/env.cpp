// what each child sees in its receiver's environment, and what each sender says about itself
#include "vp.hpp"
#include <exec/env.hpp>
#include <exec/materialize.hpp>
#include <exec/into_tuple.hpp>
#include <exec/repeat_until.hpp>
#include <exec/repeat_n.hpp>
#include <exec/sequence.hpp>
#include <exec/finally.hpp>
#include <exec/fork_join.hpp>
#include <exec/unless_stop_requested.hpp>
#include <exec/variant_sender.hpp>
#include <exec/when_any.hpp>
#include <exec/split.hpp>
#include <exec/ensure_started.hpp>
#include <exec/on.hpp>
#include <exec/reschedule.hpp>
#include <stdexec/__detail/__stop_when.hpp>
using namespace vp;
namespace xx = exec;

// a forwarding query, and one that is not
struct fq_t { static constexpr bool query(ex::forwarding_query_t) noexcept { return true; } template <class E> requires requires(const E& e, fq_t q) { e.query(q); } auto operator()(const E& e) const noexcept { return e.query(*this); } };
struct nq_t { template <class E> requires requires(const E& e, nq_t q) { e.query(q); } auto operator()(const E& e) const noexcept { return e.query(*this); } };
inline constexpr fq_t fq{}; inline constexpr nq_t nq{};
template <class T> struct al { using value_type = T; long id; explicit al(long i) noexcept : id(i) {} template <class U> al(const al<U>& o) noexcept : id(o.id) {} T* allocate(std::size_t n) { return std::allocator<T>{}.allocate(n); } void deallocate(T* p, std::size_t n) { std::allocator<T>{}.deallocate(p, n); } template <class U> bool operator==(const al<U>& o) const noexcept { return id == o.id; } };

static long sym_f, sym_a, sym_n;                 // what the receiver's environment answers
static ex::inplace_stop_source* src;
using S9 = sch<7, m_inline, V0>;
struct penv {
  auto query(ex::get_stop_token_t) const noexcept { return src->get_token(); }
  auto query(ex::get_allocator_t) const noexcept { return al<int>{sym_a}; }
  auto query(ex::get_scheduler_t) const noexcept { return S9{}; }
  auto query(ex::get_start_scheduler_t) const noexcept { return S9{}; }
  long query(fq_t) const noexcept { return sym_f; }
  long query(nq_t) const noexcept { return sym_n; }
};
// which environment a child sees
enum see : int { all = 0, own_token = 1, no_token = 2, other_fq = 4, own_sched = 8, maybe_nq = 16, none_ = 32, sched3 = 64, more = 128 };
template <int See> static void look(const auto& e) {
  using E = std::decay_t<decltype(e)>;
  if constexpr (See & none_) { return; }
  else {
    if constexpr (See & more) vp_check(requires { nq(e); }, "a query of write_env's environment is visible even if it is not a forwarding query");
    vp_check(requires { fq(e); }, "a forwarding query is forwarded to the child");
    if constexpr (requires { fq(e); }) vp_check(fq(e) == ((See & other_fq) ? 99 : sym_f), "a forwarded query answers what the receiver's environment answers");
    if constexpr (requires { ex::get_allocator(e).id; }) vp_check(ex::get_allocator(e).id == sym_a, "the allocator is the receiver's"); else vp_check(false, "the allocator is forwarded to the child");
    if constexpr (See & no_token) vp_check(ex::unstoppable_token<ex::stop_token_of_t<E>>, "the child of unstoppable sees an unstoppable token");
    else {
      vp_check(!ex::unstoppable_token<ex::stop_token_of_t<E>>, "the child sees a stoppable token");
      if constexpr (!(See & own_token)) { if constexpr (requires { ex::get_stop_token(e) == src->get_token(); }) vp_check(ex::get_stop_token(e) == src->get_token(), "the child sees the receiver's stop token"); else vp_check(false, "the child sees the receiver's stop token"); }
    }
    if constexpr (See & own_sched) vp_check(requires { { ex::get_start_scheduler(e) } -> std::same_as<sch<5, m_inline, V0>>; }, "get_start_scheduler is the scheduler the child was put on");
    else if constexpr (!(See & sched3)) vp_check(requires { { ex::get_start_scheduler(e) } -> std::same_as<S9>; }, "get_start_scheduler is the receiver's");
  }
}
static char looked[8];
template <int Id, int See, class... Sigs> struct esnd : snd<Id, m_inline, Sigs...> {
  template <class R> struct op { using operation_state_concept = ex::operation_state_tag; kid_op<R, Id, m_inline, Sigs...> k; void start() & noexcept { look<See>(ex::get_env(k.r)); vp_add(&looked[Id], 1); k.start(); } };
  template <ex::receiver R> auto connect(R r) const noexcept -> op<R> { look<See>(ex::get_env(r)); return op<R>{kid_op<R, Id, m_inline, Sigs...>{static_cast<R&&>(r)}}; }
  struct at { long query(fq_t) const noexcept { return 40 + Id; } long query(nq_t) const noexcept { return 50 + Id; } };
  auto get_env() const noexcept -> at { return {}; }
};
template <int Id, int See> struct esch {
  using scheduler_concept = ex::scheduler_tag;
  struct env { auto query(ex::get_completion_scheduler_t<ex::set_value_t>) const noexcept { return esch{}; } auto query(ex::get_completion_scheduler_t<ex::set_stopped_t>) const noexcept { return esch{}; } };
  struct sender : esnd<Id, See, V0> { auto get_env() const noexcept -> env { return {}; } };
  auto schedule() const noexcept -> sender { return {}; }
  bool operator==(const esch&) const noexcept = default;
};
// with the signatures that make every adaptor below start the children in question
template <int See, int Id = 0> using EV = esnd<Id, See, VL>;
template <int See, int Id = 0> using E0 = esnd<Id, See, V0>;
template <int See, int Id = 0> using ER = esnd<Id, See, VL, EE>;
template <int See, int Id = 0> using ES = esnd<Id, See, VL, SS>;
struct csnd : esnd<0, all, VL> { struct env { auto query(ex::get_completion_scheduler_t<ex::set_value_t>) const noexcept { return sch<4, m_inline, V0>{}; } }; auto get_env() const noexcept -> env { return {}; } };
template <class Mk> static void see(Mk mk, unsigned must) {
  ex::inplace_stop_source s; src = &s;
  sym_f = vp_sym("forwarded"); sym_a = vp_sym("allocator"); sym_n = vp_sym("not forwarded");
  run r{mk(), penv{}};
  r.start();
  r.o.expect_once();
  for (int i = 0; i < 8; ++i) if (must & (1u << i)) vp_check(vp_get(&looked[i]) > 0, "the child ran");
}
VP_TEST(then) { see([] { return ex::then(EV<all>{}, [](long) {}); }, 1); }
VP_TEST(upon_error) { see([] { return ex::upon_error(ER<all>{}, [](err) {}); }, 1); }
VP_TEST(upon_stopped) { see([] { return ex::upon_stopped(ES<all>{}, [] { return 1L; }); }, 1); }
VP_TEST(let_value) { see([] { return ex::let_value(EV<all>{}, [](long&) { return EV<all, 1>{}; }); }, 3); }
VP_TEST(let_error) { see([] { return ex::let_error(ER<all>{}, [](err&) { return EV<all, 1>{}; }); }, 1); }
VP_TEST(let_stopped) { see([] { return ex::let_stopped(ES<all>{}, [] { return EV<all, 1>{}; }); }, 1); }
VP_TEST(let_sched) { see([] { return ex::let_value(sch<5, m_inline, V0>{}.schedule(), [] { return EV<own_sched, 1>{}; }); }, 2); }
VP_TEST(continues_on) { see([] { return ex::continues_on(EV<sched3>{}, esch<1, all>{}); }, 3); }
VP_TEST(schedule_from) { see([] { return ex::schedule_from(EV<all>{}); }, 1); }
VP_TEST(starts_on) { see([] { return ex::starts_on(sch<5, m_inline, V0>{}, EV<own_sched>{}); }, 1); }
VP_TEST(starts_on_inline) { see([] { return ex::starts_on(ex::inline_scheduler{}, EV<all>{}); }, 1); }
VP_TEST(let_inline) { see([] { return ex::let_value(ex::just(), [] { return EV<all, 1>{}; }); }, 2); }
VP_TEST(starts_on_sched) { see([] { return ex::starts_on(esch<1, all>{}, EV<sched3>{}); }, 3); }
VP_TEST(on) { see([] { return ex::on(sch<5, m_inline, V0>{}, EV<own_sched>{}); }, 1); }
VP_TEST(on_closure) { see([] { return ex::on(csnd{}, sch<5, m_inline, V0>{}, ex::let_value([](long&) { return EV<own_sched, 1>{}; })); }, 3); }
VP_TEST(affine) { see([] { return ex::affine(EV<all>{}); }, 1); }
VP_TEST(bulk) { see([] { return ex::bulk(EV<all>{}, ex::par, 2, [](int, long) {}); }, 1); }
VP_TEST(bulk_chunked) { see([] { return ex::bulk_chunked(EV<all>{}, ex::par, 2, [](int, int, long) {}); }, 1); }
VP_TEST(bulk_unchunked) { see([] { return ex::bulk_unchunked(EV<all>{}, ex::par, 2, [](int, long) {}); }, 1); }
VP_TEST(into_variant) { see([] { return ex::into_variant(EV<all>{}); }, 1); }
VP_TEST(stopped_as_optional) { see([] { return ex::stopped_as_optional(ES<all>{}); }, 1); }
VP_TEST(stopped_as_error) { see([] { return ex::stopped_as_error(ES<all>{}, err{1}); }, 1); }
VP_TEST(write_env) { see([] { return ex::write_env(EV<other_fq>{}, ex::prop{fq, 99L}); }, 1); }
template <class Q> static ex::prop<Q, long> pr(long v) { return {Q{}, v}; }
VP_TEST(write_env_more) { see([] { return ex::write_env(EV<other_fq | more>{}, ex::env{pr<nq_t>(98), pr<fq_t>(99)}); }, 1); }
VP_TEST(write_env_nested) { see([] { return ex::write_env(ex::write_env(EV<other_fq>{}, ex::prop{fq, 99L}), ex::prop{fq, 97L}); }, 1); }
VP_TEST(unstoppable) { see([] { return ex::unstoppable(EV<no_token>{}); }, 1); }
VP_TEST(when_all) { see([] { return ex::when_all(EV<own_token>{}, EV<own_token, 1>{}); }, 3); }
VP_TEST(when_all_with_variant) { see([] { return ex::when_all_with_variant(EV<own_token>{}, EV<own_token, 1>{}); }, 3); }
VP_TEST(when_any) { see([] { return xx::when_any(EV<own_token>{}, EV<own_token, 1>{}); }, 1); }
VP_TEST(stop_when) { see([] { static ex::inplace_stop_source s2; return ex::__stop_when(EV<own_token>{}, s2.get_token()); }, 1); }
VP_TEST(sequence) { see([] { return xx::sequence(E0<all>{}, E0<all, 1>{}, EV<all, 2>{}); }, 7); }
VP_TEST(sequence2) { see([] { return ex::__sequence(E0<all>{}, EV<all, 1>{}); }, 3); }
VP_TEST(finally) { see([] { return xx::finally(EV<all>{}, E0<all, 1>{}); }, 3); }
VP_TEST(repeat_n) { see([] { return xx::repeat_n(E0<all>{}, 2); }, 1); }
VP_TEST(repeat_until) { see([] { return xx::repeat_until(ex::then(E0<all>{}, [] { return true; })); }, 1); }
VP_TEST(materialize) { see([] { return xx::materialize(EV<all>{}); }, 1); }
VP_TEST(dematerialize) { see([] { return xx::dematerialize(xx::materialize(EV<all>{})); }, 1); }
VP_TEST(into_tuple) { see([] { return xx::into_tuple(EV<all>{}); }, 1); }
VP_TEST(unless_stop_requested) { see([] { return xx::unless_stop_requested(EV<all>{}); }, 1); }
VP_TEST(fork_join) { see([] { return xx::fork_join(EV<all>{}, ex::let_value([](const long&) { return EV<own_token, 1>{}; }), ex::then([](const long&) {})); }, 3); }
VP_TEST(variant_sender) { see([] { return xx::variant_sender<EV<all>, E0<all, 1>>{EV<all>{}}; }, 1); }
VP_TEST(pipeline) { see([] { return EV<all>{} | ex::then([](long x) { return x; }) | ex::let_value([](long&) { return EV<all, 1>{}; }) | ex::bulk(ex::par, 1, [](int, long) {}); }, 3); }
// ---- attributes: a forwarding query is answered by the child, others are not
template <class Mk> static void attrs(Mk mk) {
  auto s = mk();
  auto e = ex::get_env(s);
  vp_check(requires { fq(e); }, "a forwarding query of the attributes is answered by the child");
  if constexpr (requires { fq(e); }) vp_check(fq(e) == 40, "a forwarded attribute answers what the child answers");
  vp_check(!requires { nq(e); }, "an attribute query that is not a forwarding query is not forwarded");
}
VP_TEST(at_then) { attrs([] { return ex::then(EV<all>{}, [](long) {}); }); }
VP_TEST(at_upon_error) { attrs([] { return ex::upon_error(ER<all>{}, [](err) {}); }); }
VP_TEST(at_upon_stopped) { attrs([] { return ex::upon_stopped(ES<all>{}, [] { return 1L; }); }); }
VP_TEST(at_let_value) { attrs([] { return ex::let_value(EV<all>{}, [](long&) { return EV<all, 1>{}; }); }); }
VP_TEST(at_let_error) { attrs([] { return ex::let_error(ER<all>{}, [](err&) { return EV<all, 1>{}; }); }); }
VP_TEST(at_let_stopped) { attrs([] { return ex::let_stopped(ES<all>{}, [] { return EV<all, 1>{}; }); }); }
VP_TEST(at_affine) { attrs([] { return ex::affine(EV<all>{}); }); }
VP_TEST(at_continues_on) { attrs([] { return ex::continues_on(EV<all>{}, sch<5, m_inline, V0>{}); }); }
VP_TEST(at_on) { attrs([] { return ex::on(sch<5, m_inline, V0>{}, EV<all>{}); }); }
VP_TEST(at_schedule_from) { attrs([] { return ex::schedule_from(EV<all>{}); }); }
VP_TEST(at_write_env) { attrs([] { return ex::write_env(EV<all>{}, ex::prop{fq, 99L}); }); }
VP_TEST(at_unstoppable) { attrs([] { return ex::unstoppable(EV<all>{}); }); }
VP_TEST(at_into_variant) { attrs([] { return ex::into_variant(EV<all>{}); }); }
VP_TEST(at_stopped_as_optional) { attrs([] { return ex::stopped_as_optional(ES<all>{}); }); }
VP_TEST(at_stopped_as_error) { attrs([] { return ex::stopped_as_error(ES<all>{}, 1); }); }
VP_TEST(at_bulk) { attrs([] { return ex::bulk(EV<all>{}, ex::par, 2, [](int, long) {}); }); }
VP_TEST(at_bulk_chunked) { attrs([] { return ex::bulk_chunked(EV<all>{}, ex::par, 2, [](int, int, long) {}); }); }
VP_TEST(at_bulk_unchunked) { attrs([] { return ex::bulk_unchunked(EV<all>{}, ex::par, 2, [](int, long) {}); }); }
VP_TEST(at_unless_stop_requested) { attrs([] { return xx::unless_stop_requested(EV<all>{}); }); }
VP_TEST(at_fork_join) { attrs([] { return xx::fork_join(EV<all>{}, ex::then([](const long&) {})); }); }
// ---- completion schedulers, with identity
struct isch; struct isch_env { long id; auto query(ex::get_completion_scheduler_t<ex::set_value_t>, auto&&...) const noexcept -> isch; auto query(ex::get_completion_scheduler_t<ex::set_stopped_t>, auto&&...) const noexcept -> isch; };
struct isch_snd : snd<6, m_inline, V0> { long id; auto get_env() const noexcept -> isch_env { return {id}; } };
struct isch { using scheduler_concept = ex::scheduler_tag; long id;
  auto schedule() const noexcept -> isch_snd { return isch_snd{{}, id}; }
  bool operator==(const isch&) const noexcept = default; };
inline auto isch_env::query(ex::get_completion_scheduler_t<ex::set_value_t>, auto&&...) const noexcept -> isch { return {id}; }
inline auto isch_env::query(ex::get_completion_scheduler_t<ex::set_stopped_t>, auto&&...) const noexcept -> isch { return {id}; }
struct ienv { isch s; auto query(ex::get_scheduler_t) const noexcept { return s; } auto query(ex::get_start_scheduler_t) const noexcept { return s; } };
template <class T = ex::set_value_t, class Mk> static void csched(Mk mk) {
  isch a{vp_sym("scheduler")}, b{vp_sym("other scheduler")};
  auto s = mk(a);
  auto go = [&](const auto& e, const auto&... env) {
    vp_check(requires { ex::get_completion_scheduler<T>(e, env...); }, "the completion scheduler is known");
    if constexpr (requires { ex::get_completion_scheduler<T>(e, env...); }) vp_check(ex::get_completion_scheduler<T>(e, env...) == a, "the completion scheduler is the one given");
  };
  go(ex::get_env(s), ienv{b});
}
VP_TEST(cs_schedule) { csched([](isch a) { return ex::schedule(a); }); }
VP_TEST(cs_continues_on) { csched([](isch a) { return ex::continues_on(snd<0, m_inline, VL>{}, a); }); }
VP_TEST(cs_continues_on_twice) { csched([](isch a) { return ex::continues_on(ex::continues_on(snd<0, m_inline, VL>{}, isch{a.id + 1}), a); }); }
VP_TEST(cs_then) { csched([](isch a) { return ex::schedule(a) | ex::then([] {}); }); }
VP_TEST(cs_starts_on) { csched([](isch a) { return ex::starts_on(a, ex::just(1)); }); }
// whoever cannot know may keep silent, but says nothing wrong
template <class T = ex::set_value_t, class Mk> static void csilent(Mk mk) {
  isch a{vp_sym("scheduler")}, b{vp_sym("other scheduler")}, c{vp_sym("start scheduler")};
  if (a.id == b.id || c.id == a.id || c.id == b.id) return;
  auto s = mk(a, b);
  auto go = [&](const auto& e, const auto&... env) {
    if constexpr (requires { ex::get_completion_scheduler<T>(e, env...); }) vp_check(ex::get_completion_scheduler<T>(e, env...) == a, "a completion scheduler that is named is the one the operation completes on");
  };
  go(ex::get_env(s), ienv{c});
}
VP_TEST(cs_let_just) { csilent([](isch a, isch) { return ex::let_value(ex::just(1), [a](int) { return ex::schedule(a); }); }); }
VP_TEST(cs_let) { csilent([](isch a, isch b) { return ex::let_value(ex::schedule(b), [a] { return ex::schedule(a); }); }); }
VP_TEST(cs_upon_stopped) { csilent([](isch a, isch b) { return ex::upon_stopped(ex::continues_on(snd<0, m_inline, VL, SS>{}, a), [] {return 1L; }); }); }
VP_TEST(cs_sequence) { csilent([](isch a, isch b) { return exec::sequence(ex::schedule(b), ex::schedule(a)); }); }
VP_TEST(cs_finally) { csilent([](isch a, isch b) { return exec::finally(ex::schedule(b), ex::schedule(a)); }); }
VP_TEST(cs_bulk) { csched([](isch a) { return ex::schedule(a) | ex::bulk(ex::par, 1, [](int) {}); }); }
VP_TEST(cs_stopped) { csched<ex::set_stopped_t>([](isch a) { return ex::schedule(a); }); }
VP_TEST(cs_on_closure) { csched([](isch a) { return ex::on(ex::schedule(a), isch{a.id + 1}, ex::then([] {})); }); }
VP_TEST(cs_just) {                   // completes where it is started
  isch b{vp_sym("scheduler")}; auto s = ex::just(1);
  vp_check(ex::get_completion_scheduler<ex::set_value_t>(ex::get_env(s), ienv{b}) == b, "just completes on the scheduler it is started on");
}
VP_TEST(cs_on) {
  isch a{vp_sym("scheduler")}, b{vp_sym("other scheduler")}; auto s = ex::on(a, ex::just(1));
  vp_check(ex::get_completion_scheduler<ex::set_value_t>(ex::get_env(s), ienv{b}) == b, "on completes on the scheduler it was started on");
}
// ---- environments
template <class E, class Q> concept can = requires(const E& e, Q q) { q(e); };
VP_TEST(env_first_wins) {
  long a = vp_sym("a"), b = vp_sym("b"), c = vp_sym("c");
  auto e = ex::env{pr<fq_t>(a), pr<fq_t>(b), pr<nq_t>(c)};
  vp_check(e.query(fq) == a && e.query(nq) == c, "the first environment that answers a query wins");
  auto e2 = ex::env{e, pr<fq_t>(b)};
  vp_check(e2.query(fq) == a && e2.query(nq) == c, "nested environments are searched in order");
}
VP_TEST(env_reference) {
  auto p = pr<fq_t>(vp_sym("a"));
  auto e = ex::env{std::ref(p)};
  p = pr<fq_t>(7);
  vp_check(e.query(fq) == 7, "an environment of a reference_wrapper refers to it");
  long v = 1; ex::prop q{fq, std::ref(v)}; v = 5;
  vp_check(q.query(fq) == 5, "a prop of a reference_wrapper refers to it");
}
VP_TEST(env_copy) {
  auto p = pr<fq_t>(3); auto e = ex::env{p}; p = pr<fq_t>(7);
  vp_check(e.query(fq) == 3, "an environment holds a copy");
}
VP_TEST(without) {
  long a = vp_sym("a"), c = vp_sym("c");
  auto w = xx::without(ex::env{pr<fq_t>(a), pr<nq_t>(c)}, fq);
  vp_check(!can<decltype(w), fq_t>, "without removes the query");
  vp_check(w.query(nq) == c, "without keeps the others");
  auto m = xx::make_env(penv{}, xx::with(fq, 99L));
  vp_check(m.query(fq) == 99, "make_env overrides its base");
}
VP_TEST(env_from) {
  xx::env_from e{[](fq_t) noexcept { return 12L; }};
  vp_check(fq(e) == 12, "env_from answers with its function");
  vp_check(!can<decltype(e), nq_t>, "env_from answers only what its function accepts");
}
VP_TEST(defaults) {
  ex::env<> e;
  vp_check(std::is_same_v<decltype(ex::get_stop_token(e)), ex::never_stop_token>, "without an answer the stop token never stops");
  vp_check(ex::forwarding_query(fq) && !ex::forwarding_query(nq) && ex::forwarding_query(ex::get_stop_token) && ex::forwarding_query(ex::get_allocator) && ex::forwarding_query(ex::get_scheduler) && ex::forwarding_query(ex::get_domain), "which queries are forwarded");
}
// ---- reading the environment
VP_TEST(read_env) {
  ex::inplace_stop_source s; src = &s; sym_f = vp_sym("forwarded"); sym_a = vp_sym("allocator");
  run r{ex::read_env(fq), penv{}}; r.start(); r.o.expect_value(sym_f);
  run r2{ex::then(ex::get_stop_token(), [&](auto t) { return t == s.get_token() ? 1L : 0L; }), penv{}}; r2.start(); r2.o.expect_value(1);
  run r3{ex::then(ex::get_allocator(), [&](auto t) { return t.id; }), penv{}}; r3.start(); r3.o.expect_value(sym_a);
  run r4{ex::write_env(ex::read_env(fq), ex::prop{fq, 99L}), penv{}}; r4.start(); r4.o.expect_value(99);
  run r5{xx::read_with_default(fq, 5L), penv{}}; r5.start(); r5.o.expect_value(sym_f);
  run r6{xx::read_with_default(fq, 5L), ex::env<>{}}; r6.start(); r6.o.expect_value(5);
}
struct thq_t { template <class E> requires requires(const E& e, thq_t q) { e.query(q); } auto operator()(const E& e) const noexcept(false) { return e.query(*this); } };
struct thenv { long query(thq_t) const noexcept(false) { if (vp_choose(2, "query throws")) throw err{31}; return 8; } };
VP_TEST(read_env_throws) { run r{ex::read_env(thq_t{}), thenv{}}; r.start(); r.o.expect_once(); if (r.o.ch() == error) vp_check(r.o.p() == 31, "the exception is delivered"); else r.o.expect_value(8); }
VP_TEST(sync_wait_env) {
  auto r = ex::sync_wait(ex::then(ex::when_all(ex::read_env(ex::get_scheduler), ex::read_env(ex::get_delegation_scheduler), ex::read_env(ex::get_start_scheduler)), [](auto a, auto b, auto c) { return a == b && b == c; }));
  vp_check(r && std::get<0>(*r), "sync_wait provides its run_loop's scheduler");
  auto q = ex::sync_wait(ex::get_scheduler() | ex::let_value([](auto s) { return ex::schedule(s) | ex::then([] { return 4L; }); }));
  vp_check(q && std::get<0>(*q) == 4, "work can be scheduled back onto the waiting thread");
}
// ---- shared operations: the child's environment is the one given when it was split
struct keep_env { long query(fq_t) const noexcept { return 99; } auto query(ex::get_allocator_t) const noexcept { return al<int>{sym_a}; } };
VP_TEST(split_env) {
  ex::inplace_stop_source s; src = &s; sym_a = vp_sym("allocator");
  run r{xx::split(esnd<0, other_fq | own_token | sched3, VL>{}, keep_env{}), penv{}}; r.start(); r.o.expect_once();
  vp_check(vp_get(&looked[0]) > 0, "the child ran");
}
VP_TEST(ensure_started_env) {
  ex::inplace_stop_source s; src = &s; sym_a = vp_sym("allocator");
  { run r{xx::ensure_started(esnd<0, other_fq | own_token | sched3, VL>{}, keep_env{}), penv{}}; r.start(); r.o.expect_once(); }
  vp_check(vp_get(&looked[0]) > 0, "the child ran");
}
VP_TEST(spawn_env) {
  sym_a = vp_sym("allocator");
  { ex::simple_counting_scope sc; ex::spawn(esnd<0, other_fq | sched3 | no_token, V0>{}, sc.get_token(), keep_env{}); ex::sync_wait(sc.join()); }
  vp_check(vp_get(&looked[0]) > 0, "the child ran");
}

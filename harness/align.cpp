// Over-aligned values and operation states through every adaptor that stores them (P29)
#include "vp.hpp"
#include <exec/any_sender_of.hpp>
#include <exec/async_scope.hpp>
#include <exec/when_any.hpp>
#include <exec/variant_sender.hpp>
#include <exec/finally.hpp>
#include <exec/materialize.hpp>
#include <exec/repeat_until.hpp>
#include <exec/repeat_n.hpp>
#include <exec/start_detached.hpp>
#include <exec/split.hpp>
#include <exec/ensure_started.hpp>
#include "vp_scope.hpp"
using namespace vp;
namespace xx = exec;
// an opaque child whose operation state holds an over-aligned object
template <class R, int Id, int Mode, class... Sigs> struct aop : kid_op<R, Id, Mode, Sigs...> { aval a; explicit aop(R&& x) : kid_op<R, Id, Mode, Sigs...>(static_cast<R&&>(x)), a(7) {} void start() & noexcept { vp_check(a.v == 7, "the state is intact"); kid_op<R, Id, Mode, Sigs...>::start(); } };
template <int Id, int Mode, class... Sigs> struct asnd {
  using sender_concept = ex::sender_tag;
  aval a{9};
  template <class, class...> static consteval auto get_completion_signatures() noexcept -> ex::completion_signatures<Sigs...> { return {}; }
  template <ex::receiver R> auto connect(R r) const noexcept -> aop<R, Id, Mode, Sigs...> { vp_check(a.v == 9, "the sender is intact"); return aop<R, Id, Mode, Sigs...>{static_cast<R&&>(r)}; }
};
template <class M> static void go(M mk) { long h = vp_heap(); { run r{mk()}; r.start(); for (int i = 0; i < 3; ++i) { if (kids[0].started() && !kids[0].completed()) fire(0); if (kids[1].started() && !kids[1].completed()) fire(1); } r.o.expect_once(); } vp_check(vp_heap() == h, "everything allocated is released"); }
template <class M> static void val_t(M mk) { long h = vp_heap(); { run r{mk()}; r.start(); for (int i = 0; i < 3; ++i) { if (kids[0].started() && !kids[0].completed()) fire(0); if (kids[1].started() && !kids[1].completed()) fire(1); } r.o.expect_once(); if (kids[0].ch() == value) r.o.expect_value(kids[0].pay()); } vp_check(vp_heap() == h, "everything allocated is released"); }
using A0 = asnd<0, m_any, VA>;
using A1 = asnd<1, m_any, V0>;
VP_TEST(al_then) { val_t([] { return A0{} | ex::then([a = aval{3}](aval x) { vp_check(a.v == 3, "the function is intact"); return x; }); }); }
VP_TEST(al_let) { val_t([] { return A0{} | ex::let_value([a = aval{3}](aval& x) { vp_check(a.v == 3, "the function is intact"); return ex::just(x); }); }); }
VP_TEST(al_let_child) { val_t([] { return A0{} | ex::let_value([](aval& x) { return A1{} | ex::then([&x] { return x; }); }); }); }
VP_TEST(al_when_all) { val_t([] { return ex::when_all(A0{}, A1{}); }); }
VP_TEST(al_when_any) { go([] { return xx::when_any(A0{}, asnd<1, m_any, VA>{}); }); }
VP_TEST(al_continues_on) { val_t([] { return A0{} | ex::continues_on(sch<1, m_any, V0>{}); }); }
VP_TEST(al_on) { val_t([] { return ex::starts_on(sch<1, m_any, V0>{}, A0{}); }); }
VP_TEST(al_split) { val_t([] { return ex::when_all(xx::split(A0{}), A1{}); }); }
VP_TEST(al_ensure) { val_t([] { return xx::ensure_started(A0{}); }); }
VP_TEST(al_finally) { val_t([] { return xx::finally(A0{}, A1{}); }); }
VP_TEST(al_materialize) { val_t([] { return xx::dematerialize(xx::materialize(A0{})); }); }
VP_TEST(al_into_variant) { go([] { return ex::into_variant(A0{}); }); }
VP_TEST(al_optional) { go([] { return ex::stopped_as_optional(asnd<0, m_any, VA, SS>{}); }); }
VP_TEST(al_variant_sender) { val_t([] { return xx::variant_sender<A0, ex::__call_result_t<ex::just_t, aval>>(A0{}); }); }
VP_TEST(al_repeat_n) { go([] { return xx::repeat_n(A1{}, 2); }); }
VP_TEST(al_just) { run r{ex::just(aval{5})}; r.start(); r.o.expect_once(); r.o.expect_value(5); }
VP_TEST(al_bulk) { val_t([] { return A0{} | ex::bulk(ex::seq, 2, [a = aval{4}](int, aval& x) { vp_check(a.v == 4 && x.v == kids[0].pay(), "the values are intact"); }); }); }
using anyr = xx::any_receiver<ex::completion_signatures<VA, SS>>;
VP_TEST(al_any) { val_t([] { return xx::any_sender<anyr>(A0{}); }); }
// an operation state that fits the small buffer of any_sender's operation, but not its alignment
struct alignas(32) mval { long v = 7; };
template <class R> struct mop { using operation_state_concept = ex::operation_state_tag; mval m; void start() & noexcept { vp_check(m.v == 7, "the state is intact"); } };
struct msnd { using sender_concept = ex::sender_tag; mval m{}; template <class, class...> static consteval auto get_completion_signatures() noexcept -> ex::completion_signatures<V0, SS> { return {}; }
  template <ex::receiver R> auto connect(R) const noexcept -> mop<R> { vp_check(m.v == 7, "the sender is intact"); return {}; } };
VP_TEST(al_any_small) { long h = vp_heap(); { run r{xx::any_sender<xx::any_receiver<ex::completion_signatures<V0, SS>>>(msnd{})}; r.start(); } vp_check(vp_heap() == h, "everything allocated is released"); }
struct amsch { using scheduler_concept = ex::scheduler_tag; aval a{6}; auto schedule() const noexcept { vp_check(a.v == 6, "the scheduler is intact"); return sch<0, m_any, V0, SS>{}.schedule(); } bool operator==(const amsch& o) const noexcept { return a.v == o.a.v; } };
VP_TEST(al_any_sched) { long h = vp_heap(); { using S = xx::any_scheduler<xx::any_sender<xx::any_receiver<ex::completion_signatures<V0, SS>>>>; S s{amsch{}}; S t = s; vp_check(t == s, "a copy is equal"); run r{ex::schedule(t)}; r.start(); if (!kids[0].completed()) fire(0); r.o.expect_once(); } vp_check(vp_heap() == h, "everything allocated is released"); }
VP_TEST(al_scope) { long h = vp_heap(); { xx::async_scope sc; { run r{sc.spawn_future(A0{})}; if (!kids[0].completed()) fire(0); r.start(); r.o.expect_once(); r.o.expect_value(kids[0].pay()); } { run e{sc.on_empty()}; e.start(); e.o.expect_once(); } } vp_check(vp_heap() == h, "everything allocated is released"); }
VP_TEST(al_nest) { xx::async_scope sc; val_t([&] { return sc.nest(A0{}); }); run e{sc.on_empty()}; e.start(); e.o.expect_once(); }
VP_TEST(al_detached) { long h = vp_heap(); xx::start_detached(A0{} | ex::then([](aval) {})); if (!kids[0].completed()) fire(0); vp_check(vp_heap() == h, "everything allocated is released"); }
VP_TEST(al_counting) { long h = vp_heap(); { ex::counting_scope sc; ex::spawn(A0{} | ex::then([](aval) noexcept {}), sc.get_token()); if (!kids[0].completed()) fire(0);
  { auto f = ex::spawn_future(asnd<1, m_any, VA>{}, sc.get_token()); run r{std::move(f)}; r.start(); if (!kids[1].completed()) fire(1); r.o.expect_once(); r.o.expect_value(kids[1].pay()); }
  run j{sc.join(), inl_env{}}; j.start(); j.o.expect_once(); } vp_check(vp_heap() == h, "everything allocated is released"); }

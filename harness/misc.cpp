// the small factories and adaptors
#include "vp.hpp"
#include "vp_scope.hpp"
#include <exec/materialize.hpp>
#include <exec/into_tuple.hpp>
#include <exec/just_from.hpp>
#include <exec/create.hpp>
#include <exec/unless_stop_requested.hpp>
#include <exec/variant_sender.hpp>
#include <exec/reschedule.hpp>
using namespace vp;
namespace xx = exec;

static char threw, calls, pend;
static void settle(const obs& o) { o.expect_once(); }
static void gone() { for (int i = 0; i < 4; ++i) vp_check(kids[i].connected() == kids[i].destroyed(), "every child operation is destroyed"); }
template <bool Thr> struct res { long v; char st = 1; explicit res(long x) noexcept : v(x) {} ~res() { st = 0; }
  friend long as_long(const res& e) { vp_check(e.st == 1, "a delivered value is alive"); return e.v; }
  res(res&& o) noexcept(!Thr) : v(o.v) { vp_check(o.st == 1, "a value is moved while alive"); if (Thr && vp_choose(2, "move throws")) { vp_set(&threw, 1); throw err{77}; } o.st = 2; }
  res(const res& o) noexcept(!Thr) : v(o.v) { vp_check(o.st == 1, "a value is copied while alive"); if (Thr && vp_choose(2, "copy throws")) { vp_set(&threw, 1); throw err{77}; } } };
namespace vp { template <> inline res<true> make<res<true>>(long v) { return res<true>{v}; } template <> inline res<false> make<res<false>>(long v) { return res<false>{v}; } }
using VR = ex::set_value_t(res<false>); using VX = ex::set_value_t(res<true>); using EX = ex::set_error_t(res<true>);
// run s over child 0; `f(o)` judges the outcome
template <class S, class F> static void over(S s, F f) {
  long h = vp_heap();
  { run r{std::move(s)};
    vp_check(kids[0].started() == 0, "nothing runs before start");
    if (!vp_choose(2, "start")) r.o.expect_none();
    else {
      r.start();
      if (kids[0].pending()) { r.o.expect_none(); fire(0); }
      settle(r.o); vp_check(r.o.ctx() == 0, "completes where its child did");
      f(r.o);
    } }
  gone(); vp_check(vp_heap() == h, "no memory is leaked");
}
static void same(const obs& o) { if (kids[0].ch() == error) o.expect_error(kids[0].pay()); else if (kids[0].ch() == stopped) o.expect_stopped(); else { vp_check(o.ch() == value, "the value completion"); if (o.nargs()) o.expect_value(kids[0].pay()); } }
static void packed(const obs& o, bool none) { if (vp_get(&threw)) o.expect_error(77); else if (kids[0].ch() == value) { vp_check(o.ch() == value && o.nargs() == 1, "one value"); if (!none || o.p() != -9) o.expect_value(kids[0].pay()); } else same(o); }
// ---- packing the values
VP_TEST(into_variant) { over(ex::into_variant(snd<0, m_any, VR, EE, SS>{}), [](const obs& o) { packed(o, false); }); }
VP_TEST(into_variant_many) { over(ex::into_variant(snd<0, m_any, VR, VL, V0, VV, EP>{}), [](const obs& o) { packed(o, true); }); }
VP_TEST(into_variant_throws) { over(ex::into_variant(snd<0, m_any, VX, VL, SS>{}), [](const obs& o) { packed(o, false); }); }
VP_TEST(into_variant_none) { over(ex::into_variant(snd<0, m_any, EE, SS>{}), same); }
VP_TEST(into_tuple) { over(xx::into_tuple(snd<0, m_any, VR, EE, SS>{}), [](const obs& o) { packed(o, false); }); }
VP_TEST(into_tuple_throws) { over(xx::into_tuple(snd<0, m_any, VX, SS>{}), [](const obs& o) { packed(o, false); }); }
VP_TEST(into_tuple_two) { over(xx::into_tuple(snd<0, m_any, ex::set_value_t(res<false>, long)>{}), [](const obs& o) { vp_check(o.ch() == value, "value"); vp_check(o.p() == kids[0].pay() + kids[0].pay(), "both values are in the tuple"); }); }
// ---- stopped as something else
static void optional(const obs& o) { if (vp_get(&threw)) o.expect_error(77); else if (kids[0].ch() == stopped) o.expect_value(-7); else same(o); }
VP_TEST(as_optional) { over(ex::stopped_as_optional(snd<0, m_any, VR, EE, SS>{}), optional); }
VP_TEST(as_optional_throws) { over(ex::stopped_as_optional(snd<0, m_any, VX, EE, SS>{}), optional); }
VP_TEST(as_optional_piped) { over(snd<0, m_any, VL, SS>{} | ex::stopped_as_optional(), optional); }
VP_TEST(as_error) { over(ex::stopped_as_error(snd<0, m_any, VR, EE, SS>{}, err{3}), [](const obs& o) { if (kids[0].ch() == stopped) o.expect_error(3); else same(o); }); }
VP_TEST(as_error_throws) { try { over(ex::stopped_as_error(snd<0, m_any, VR, SS>{}, res<true>{3}), [](const obs& o) { if (kids[0].ch() == stopped) { if (vp_get(&threw)) o.expect_error(77); else o.expect_error(3); } else same(o); }); } catch (const err& e) { vp_check(e.e == 77 && vp_get(&threw), "creating or connecting throws what the copy throws"); } }
// ---- materialize and back
VP_TEST(materialize) { over(xx::materialize(snd<0, m_any, VR, V0, EE, SS>{}), [](const obs& o) { vp_check(o.ch() == value, "every completion becomes a value"); vp_check(o.p() == kids[0].ch(), "the channel comes first"); if (o.nargs() > 1) vp_check(o.p(1) == kids[0].pay(), "then the datum"); vp_check(o.nargs() <= 2 && (kids[0].ch() != error || o.nargs() == 2) && (kids[0].ch() != stopped || o.nargs() == 1), "and nothing else"); }); }
VP_TEST(round_trip) { over(xx::dematerialize(xx::materialize(snd<0, m_any, VR, V0, EE, SS>{})), same); }
VP_TEST(round_trip_piped) { over(snd<0, m_any, VX, EX>{} | xx::materialize() | xx::dematerialize(), [](const obs& o) { vp_check(!vp_get(&threw), "no copies are made"); same(o); }); }
VP_TEST(dematerialize) { over(xx::dematerialize(ex::then(snd<0, m_any, VL>{}, [](long) noexcept {}) | ex::let_value([] { return ex::just(ex::set_error_t{}, err{4}); })), [](const obs& o) { o.expect_error(4); }); }
VP_TEST(dematerialize_passes) { over(xx::dematerialize(ex::let_value(snd<0, m_any, V0, EE, SS>{}, [] { return ex::just(ex::set_stopped_t{}); })), [](const obs& o) { if (kids[0].ch() == value) o.expect_stopped(); else same(o); }); }
// ---- adaptors that let everything through
VP_TEST(write_env) { over(ex::write_env(snd<0, m_any, VR, VL, EE, SS>{}, ex::prop{ex::get_allocator, 3}), same); }
VP_TEST(unstoppable) {
  ex::inplace_stop_source src; src.request_stop();
  { run r{ex::unstoppable(snd<0, m_any, VR, EE, SS>{}), stop_env{src.get_token()}}; r.start(); if (kids[0].pending()) vp_check(!stop_seen(0), "no stop request is seen"); fire(0); settle(r.o); same(r.o); } gone(); }
VP_TEST(unless_stopped) {
  ex::inplace_stop_source src; bool now = vp_choose(2, "stop requested");
  { run r{xx::unless_stop_requested(snd<0, m_any, VR, EE, SS>{}), stop_env{src.get_token()}};
    if (now) src.request_stop();
    r.start();
    if (now) { r.o.expect_once(); r.o.expect_stopped(); vp_check(kids[0].started() == 0, "the child is not started once stop was requested"); }
    else { if (kids[0].pending()) { src.request_stop(); r.o.expect_none(); vp_check(stop_seen(0), "the child sees later stop requests"); fire(0); } settle(r.o); same(r.o); } }
  gone(); }
VP_TEST(unless_never) { over(xx::unless_stop_requested(snd<0, m_any, VR, EE>{}), same); }
VP_TEST(unless_throws) { ex::inplace_stop_source src; try { run r{xx::unless_stop_requested(throwing_connect_snd<0, m_any, VR>{}), stop_env{src.get_token()}}; r.start(); fire(0); settle(r.o); same(r.o); } catch (const err& e) { vp_check(e.e == 55, "connect throws what the child throws"); vp_check(kids[0].started() == 0, "nothing runs"); } gone(); }
// ---- a variant of senders
template <class V> static void alt(V v, int id) {
  int other = 1 - id;
  { run r{std::move(v)}; r.start(); if (kids[id].pending()) { r.o.expect_none(); fire(id); } settle(r.o); vp_check(kids[other].connected() == 0 && kids[other].started() == 0, "only the chosen sender is connected");
    if (kids[id].ch() == error) r.o.expect_error(kids[id].pay()); else if (kids[id].ch() == stopped) r.o.expect_stopped(); else r.o.expect_value(kids[id].pay()); }
  gone(); }
using A = snd<0, m_any, VR, EE>; using B = snd<1, m_any, VR, VL, SS>; using AB = xx::variant_sender<A, B>;
VP_TEST(variant) { switch (vp_choose(8, "how")) {
  case 0: alt(AB{A{}}, 0); break;
  case 1: alt(AB{B{}}, 1); break;
  case 2: { AB v{A{}}; v = B{}; vp_check(v.index() == 1, "assigned"); alt(std::move(v), 1); break; }
  case 3: { AB v{B{}}; v.emplace<A>(); vp_check(v.index() == 0, "emplaced"); alt(v, 0); break; }
  case 4: { AB v{A{}}, w{B{}}; v.swap(w); vp_check(v.index() == 1 && w.index() == 0, "swapped"); alt(w, 0); break; }
  case 5: { AB v{A{}}, w{B{}}; v = w; vp_check(v.index() == 1 && w.index() == 1, "copied"); alt(v, 1); break; }
  case 6: { const AB v{B{}}; AB w{v}; alt(std::move(w), 1); break; }
  default: { AB v; vp_check(v.index() == 0, "the first by default"); v.emplace<1>(); alt(std::move(v), 1); } } }
// a sender that holds a value: its lifetime in the variant
struct own { using sender_concept = ex::sender_tag; res<false> x{5}; template <class, class...> static consteval auto get_completion_signatures() noexcept -> ex::completion_signatures<VL> { return {}; }
  template <class R> struct op { using operation_state_concept = ex::operation_state_tag; R r; res<false> x; void start() & noexcept { ex::set_value((R&&) r, as_long(x)); } };
  template <ex::receiver R> auto connect(R r) && -> op<R> { return {(R&&) r, (res<false>&&) x}; } template <ex::receiver R> auto connect(R r) const& -> op<R> { return {(R&&) r, x}; } };
VP_TEST(variant_holds) { using V = xx::variant_sender<own, decltype(ex::just(4L))>; V v{own{}}; V w{v}; V u{std::move(v)}; if (vp_choose(2, "reassign")) { w = ex::just(4L); w = own{}; } { run<V&> r{w}; r.start(); r.o.expect_once(); r.o.expect_value(5); } { run<V> r{std::move(u)}; r.start(); r.o.expect_once(); r.o.expect_value(5); } }
// ---- factories
VP_TEST(just) { long a = vp_sym("a"); { run r{ex::just(res<false>{a}, 4L)}; r.o.expect_none(); r.start(); r.o.expect_once(); r.o.expect_value(a); vp_check(r.o.p(1) == 4 && r.o.nargs() == 2, "all values in order"); } }
VP_TEST(just_none) { run r{ex::just()}; r.start(); r.o.expect_once(); vp_check(r.o.ch() == value && r.o.nargs() == 0, "no values"); }
VP_TEST(just_error) { long a = vp_sym("a"); run r{ex::just_error(res<false>{a})}; r.start(); r.o.expect_once(); r.o.expect_error(a); }
VP_TEST(just_stopped) { run r{ex::just_stopped()}; r.start(); r.o.expect_once(); r.o.expect_stopped(); }
VP_TEST(just_lvalue) { long a = vp_sym("a"); res<false> x{a}; const auto s = ex::just(x); x.v = 0; run<decltype(s)&> r{s}; r.start(); r.o.expect_once(); r.o.expect_value(a); run<decltype(s)&> q{s}; q.start(); q.o.expect_value(a); }
struct sinkf { res<false> v; explicit sinkf(long v) noexcept : v(v) {}
  template <class S> auto operator()(S s) noexcept { long x = as_long(v); if constexpr (!std::is_same_v<decltype(s(res<false>{x}, (long) x)), void>) { return s(res<false>{x}, (long) x); } else { vp_add(&calls, 1); s(res<false>{x}, (long) x); } } };
VP_TEST(just_from) { long a = vp_sym("a"); run r{xx::just_from(sinkf{a})}; vp_check(vp_get(&calls) == 0, "lazy"); r.start(); r.o.expect_once(); vp_check(vp_get(&calls) == 1, "called once"); r.o.expect_value(a); vp_check(r.o.p(1) == a, "all values"); }
VP_TEST(just_from_lvalue) { long a = vp_sym("a"); const auto s = xx::just_from(sinkf{a}); run<decltype(s)&> r{s}; r.start(); r.o.expect_once(); r.o.expect_value(a); run<decltype(s)&> q{s}; q.start(); q.o.expect_value(a); vp_check(vp_get(&calls) == 2, "called once each"); }
struct throwf { template <class S> auto operator()(S s) { if constexpr (std::is_same_v<decltype(s(4L)), void>) { vp_add(&calls, 1); if (vp_choose(2, "throws")) { vp_set(&threw, 1); throw err{42}; } s(4L); } else return s(4L); } };
VP_TEST(just_from_throws) { run r{xx::just_from(throwf{})}; r.start(); r.o.expect_once(); if (vp_get(&threw)) r.o.expect_error(42); else r.o.expect_value(4); vp_check(vp_get(&calls) == 1, "called once"); }
VP_TEST(just_error_from) { run r{xx::just_error_from([](auto s) noexcept { return s(err{6}); })}; r.start(); r.o.expect_once(); r.o.expect_error(6); }
VP_TEST(just_stopped_from) { run r{xx::just_stopped_from([](auto s) noexcept { return s(); })}; r.start(); r.o.expect_once(); r.o.expect_stopped(); }
// ---- reading the environment
template <bool Thr> struct q_t { template <class E> auto operator()(const E& e) const noexcept(!Thr) -> decltype(e.query(*this)) { if (Thr && vp_choose(2, "query throws")) { vp_set(&threw, 1); throw err{43}; } return e.query(*this); } };
template <class T> struct q_env { mutable T x; template <bool Thr> auto query(q_t<Thr>) const noexcept -> T { return x; } };
template <class T> struct q_ref { T* x; template <bool Thr> auto query(q_t<Thr>) const noexcept -> T& { return *x; } };
VP_TEST(read_value) { long a = vp_sym("a"); run r{ex::read_env(q_t<false>{}), q_env<res<false>>{res<false>{a}}}; r.start(); r.o.expect_once(); r.o.expect_value(a); }
VP_TEST(read_ref) { long a = vp_sym("a"); res<false> x{a}; run r{ex::read_env(q_t<false>{}), q_ref<res<false>>{&x}}; r.start(); r.o.expect_once(); r.o.expect_value(a); vp_check(x.st == 1, "not moved"); }
VP_TEST(read_throws) { long a = vp_sym("a"); run r{ex::read_env(q_t<true>{}), q_env<res<false>>{res<false>{a}}}; r.start(); r.o.expect_once(); if (vp_get(&threw)) r.o.expect_error(43); else r.o.expect_value(a); }
VP_TEST(read_ref_throws) { long a = vp_sym("a"); res<false> x{a}; run r{ex::read_env(q_t<true>{}), q_ref<res<false>>{&x}}; r.start(); r.o.expect_once(); if (vp_get(&threw)) r.o.expect_error(43); else r.o.expect_value(a); }
// ---- create: completed later by whoever has the context
struct tok { char st = 1; tok() = default; tok(tok&& o) noexcept { vp_check(o.st == 1, "alive"); o.st = 2; vp_add(&pend, 1); } ~tok() { st = 0; } };
static void (*finish)(void*) noexcept; 
template <class C> static void fin_(void* p) noexcept { auto& c = *static_cast<C*>(p); long v = std::get<0>(c.args).v; switch (vp_choose(3, "create completes with")) { case 0: ex::set_value(std::move(c.receiver), (long&&) v); break; case 1: ex::set_error(std::move(c.receiver), err{v}); break; default: ex::set_stopped(std::move(c.receiver)); } }
VP_TEST(create) {
  static char ctxp; long a = vp_sym("a");
  auto s = xx::create<VL, EE, SS>([](auto& c) noexcept { vp_add(&calls, 1); vp_set(&ctxp, (long) &c); finish = fin_<std::remove_reference_t<decltype(c)>>; }, res<false>{a});
  run r{std::move(s)}; vp_check(vp_get(&calls) == 0, "lazy"); r.start(); vp_check(vp_get(&calls) == 1, "called once"); r.o.expect_none(); finish((void*) vp_get(&ctxp)); r.o.expect_once(); if (r.o.ch() == value) r.o.expect_value(a); else if (r.o.ch() == error) r.o.expect_error(a); else r.o.expect_stopped(); }
// the function's result lives as long as the operation
VP_TEST(create_result) { static char died, ctxp; struct keep { keep() = default; keep(keep&&) = delete; ~keep() { vp_add(&died, 1); } };
  { auto s = xx::create<VL, EE, SS>([](auto& c) noexcept -> keep { vp_set(&ctxp, (long) &c); finish = fin_<std::remove_reference_t<decltype(c)>>; return keep{}; }, res<false>{1});
    run r{std::move(s)}; r.start(); vp_check(vp_get(&died) == 0, "the result is kept"); finish((void*) vp_get(&ctxp)); r.o.expect_once(); }
  vp_check(vp_get(&died) == 1, "the result is destroyed with the operation"); }
// ---- reschedule
VP_TEST(reschedule) { using SC = sch<1, m_any, V0, EE, SS>; struct env { auto query(ex::get_start_scheduler_t) const noexcept { return SC{}; } auto query(ex::get_scheduler_t) const noexcept { return SC{}; } };
  { run r{xx::reschedule(snd<0, m_any, VR>{}), env{}}; r.start(); fire(0); if (kids[1].pending()) { r.o.expect_none(); fire(1); } settle(r.o); vp_check(r.o.ctx() == 1, "completes on the environment's scheduler"); if (kids[1].ch() == value) r.o.expect_value(kids[0].pay()); else if (kids[1].ch() == error) r.o.expect_error(kids[1].pay()); else r.o.expect_stopped(); }
  gone(); }

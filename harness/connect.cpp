// laziness of connect, and what happens when connect throws: at every position, for every adaptor
#include "vp.hpp"
#include <exec/materialize.hpp>
#include <exec/into_tuple.hpp>
#include <exec/just_from.hpp>
#include <exec/repeat_until.hpp>
#include <exec/repeat_n.hpp>
#include <exec/sequence.hpp>
#include <exec/finally.hpp>
#include <exec/fork_join.hpp>
#include <exec/unless_stop_requested.hpp>
#include <exec/variant_sender.hpp>
#include <exec/when_any.hpp>
#include <stdexec/__detail/__stop_when.hpp>
using namespace vp;
namespace xx = exec;

// a function object whose moves and copies may throw, with a typestate
template <class F> struct tfn {
  int st = 1; F f;
  explicit tfn(F g) : f(g) {}
  tfn(tfn&& o) noexcept(false) : f(o.f) { vp_check(o.st == 1, "a function is moved only while it holds its value"); if (vp_choose(2, "function move throws")) throw err{61}; o.st = 2; }
  tfn(const tfn& o) noexcept(false) : f(o.f) { vp_check(o.st == 1, "a function is copied only while it holds its value"); if (vp_choose(2, "function copy throws")) throw err{62}; }
  ~tfn() { st = 0; }
  template <class... A> decltype(auto) operator()(A&&... a) { vp_check(st == 1, "a function is called only while it is alive and not moved-from"); calls(); return f(static_cast<A&&>(a)...); }
  template <class... A> decltype(auto) operator()(A&&... a) const { vp_check(st == 1, "a function is called only while it is alive and not moved-from"); calls(); return f(static_cast<A&&>(a)...); }
  static void calls();
};
static char called;
template <class F> void tfn<F>::calls() { vp_add(&called, 1); }

template <int Id = 0> using TS = throwing_connect_snd<Id, m_any, VL>;
template <int Id = 0> using T0 = throwing_connect_snd<Id, m_any, V0>;
template <int Id> struct tsch {
  using scheduler_concept = ex::scheduler_tag;
  struct env { auto query(ex::get_completion_scheduler_t<ex::set_value_t>) const noexcept { return tsch{}; } auto query(ex::get_completion_scheduler_t<ex::set_stopped_t>) const noexcept { return tsch{}; } };
  struct sender : throwing_connect_snd<Id, m_any, V0> { auto get_env() const noexcept -> env { return {}; } };
  auto schedule() const noexcept -> sender { return {}; }
  bool operator==(const tsch&) const noexcept = default;
};
static void idle_state(const char*) {
  bool ok = true;
  for (int i = 0; i < 4; ++i) ok = ok && kids[i].started() == 0;
  vp_check(ok, "nothing runs before start");
  vp_check(vp_get(&called) == 0, "no function is called before start");
}
static void all_gone() {
  bool ok = true;
  for (int i = 0; i < 4; ++i) ok = ok && kids[i].connected() == kids[i].destroyed();
  vp_check(ok, "every child operation that was created is destroyed");
}
template <class Mk> static void lazy(Mk mk) {
  try {
    auto s = mk();
    idle_state("created");
    run r{std::move(s)};
    idle_state("connected");
    if (vp_choose(2, "the operation is started")) {
      r.start();
      for (int n = 0; n < 4; ++n) for (int i = 0; i < 4; ++i) fire(i);
      r.o.expect_once();
      if (r.o.ch() == error) vp_check(r.o.p() == 55 || r.o.p() == 61 || r.o.p() == 62 || r.o.p() == 77 || r.o.p() == 78 || r.o.p() == kids[0].pay(), "an error is one that occurred");
    } else r.o.expect_none();
  } catch (const err& e) { vp_check(e.e == 55 || e.e == 61 || e.e == 62 || e.e == 77 || e.e == 78, "the exception reaches the caller"); idle_state("thrown"); }
  all_gone();
}
#define FN(...) tfn([](__VA_ARGS__) { return 7L; })
VP_TEST(then) { lazy([] { return ex::then(TS<>{}, FN(long)); }); }
VP_TEST(upon_error) { lazy([] { return ex::upon_error(throwing_connect_snd<0, m_any, VL, EE>{}, FN(err)); }); }
VP_TEST(upon_stopped) { lazy([] { return ex::upon_stopped(throwing_connect_snd<0, m_any, VL, SS>{}, FN()); }); }
VP_TEST(let_value) { lazy([] { return ex::let_value(TS<>{}, tfn([](long&) { return TS<1>{}; })); }); }
VP_TEST(let_value_values) { lazy([] { return ex::let_value(throwing_connect_snd<0, m_any, VT>{}, tfn([](tval&) { return TS<1>{}; })); }); }
VP_TEST(let_error) { lazy([] { return ex::let_error(throwing_connect_snd<0, m_any, VL, EE>{}, tfn([](err&) { return TS<1>{}; })); }); }
VP_TEST(let_stopped) { lazy([] { return ex::let_stopped(throwing_connect_snd<0, m_any, VL, SS>{}, tfn([]() { return TS<1>{}; })); }); }
VP_TEST(when_all) { lazy([] { return ex::when_all(TS<0>{}, TS<1>{}, TS<2>{}); }); }
VP_TEST(when_all_values) { lazy([] { return ex::when_all(throwing_connect_snd<0, m_any, VT>{}, TS<1>{}); }); }
VP_TEST(when_all_with_variant) { lazy([] { return ex::when_all_with_variant(TS<0>{}, TS<1>{}); }); }
VP_TEST(when_any) { lazy([] { return xx::when_any(TS<0>{}, TS<1>{}, TS<2>{}); }); }
VP_TEST(into_variant) { lazy([] { return ex::into_variant(throwing_connect_snd<0, m_any, VL, VT>{}); }); }
VP_TEST(continues_on) { lazy([] { return ex::continues_on(throwing_connect_snd<0, m_any, VT>{}, tsch<1>{}); }); }
VP_TEST(starts_on) { lazy([] { return ex::starts_on(tsch<1>{}, TS<0>{}); }); }
VP_TEST(bulk) { lazy([] { return ex::bulk(TS<>{}, ex::par, 2, tfn([](int, long&) {})); }); }
VP_TEST(bulk_chunked) { lazy([] { return ex::bulk_chunked(TS<>{}, ex::seq, 2, tfn([](int, int, long&) {})); }); }
VP_TEST(bulk_unchunked) { lazy([] { return ex::bulk_unchunked(TS<>{}, ex::par, 2, tfn([](int, long&) {})); }); }
VP_TEST(write_env) { lazy([] { return ex::write_env(TS<>{}, ex::env<>{}); }); }
VP_TEST(unstoppable) { lazy([] { return ex::unstoppable(TS<>{}); }); }
VP_TEST(stop_when) { lazy([] { return ex::__stop_when(TS<>{}, ex::inplace_stop_token{}); }); }
VP_TEST(stopped_as_optional) { lazy([] { return ex::stopped_as_optional(throwing_connect_snd<0, m_any, VL, SS>{}); }); }
VP_TEST(stopped_as_error) { lazy([] { return ex::stopped_as_error(throwing_connect_snd<0, m_any, VL, SS>{}, err{55}); }); }
VP_TEST(sequence) { lazy([] { return xx::sequence(T0<0>{}, T0<1>{}, TS<2>{}); }); }
VP_TEST(finally) { lazy([] { return xx::finally(throwing_connect_snd<0, m_any, VT>{}, T0<1>{}); }); }
VP_TEST(repeat_n) { lazy([] { return xx::repeat_n(T0<>{}, 2); }); }
VP_TEST(repeat_until) { lazy([] { return xx::repeat_until(ex::then(T0<>{}, tfn([] { return vp_add(&kids[7].pay_, 1) == 2; }))); }); }
VP_TEST(materialize) { lazy([] { return xx::materialize(throwing_connect_snd<0, m_any, VT, SS>{}); }); }
VP_TEST(dematerialize) { lazy([] { return xx::dematerialize(xx::materialize(throwing_connect_snd<0, m_any, VL, SS>{})); }); }
VP_TEST(into_tuple) { lazy([] { return xx::into_tuple(throwing_connect_snd<0, m_any, VT>{}); }); }
VP_TEST(unless_stop_requested) { lazy([] { return xx::unless_stop_requested(TS<>{}); }); }
VP_TEST(fork_join) { lazy([] { return xx::fork_join(throwing_connect_snd<0, m_any, VT>{}, ex::then([](const tval&) { vp_add(&called, 1); }), ex::continues_on(tsch<1>{}) | ex::then([](auto&&) { })); }); }
VP_TEST(variant_sender) { lazy([]() -> xx::variant_sender<TS<0>, T0<1>> { if (vp_choose(2, "alternative")) return TS<0>{}; return T0<1>{}; }); }
VP_TEST(just) { lazy([] { return ex::just(tval{3}, 4L); }); }
VP_TEST(just_lvalue) { lazy([] { tval t{3}; return ex::just(t); }); }
VP_TEST(just_from) { lazy([] { return xx::just_from(tfn([](auto s) { return s(3L); })); }); }
VP_TEST(pipe) { lazy([] { return TS<>{} | ex::then(FN(long)) | ex::let_value(tfn([](long&) { return TS<1>{}; })) | ex::continues_on(tsch<2>{}); }); }
// connecting a sender that is kept: it is only copied from, and may be connected again
static char eq;
template <class Mk> static void multi(Mk mk) {
  try {
    const auto s = mk();
    run<decltype(s)&> r0{s};
    r0.start(); r0.o.expect_once();
    run<decltype(s)&> r1{s};
    r1.start(); r1.o.expect_once();
    vp_check(r0.o.ch() == error || r1.o.ch() == error || (r0.o.ch() == r1.o.ch() && (r0.o.nargs() == 0 || (vp_get(&eq) != 0 || r0.o.p() == r1.o.p()))), "a sender that is connected twice completes the same way twice");
  } catch (const err&) { }
  all_gone();
}
VP_TEST(multi_then) { multi([] { return ex::then(snd<0, m_inline, VL>{}, FN(long)); }); }
VP_TEST(multi_let) { vp_set(&eq, 1); multi([] { return ex::let_value(snd<0, m_inline, VL>{}, tfn([](long&) { return snd<1, m_inline, VL>{}; })); }); }
VP_TEST(multi_just) { multi([] { return ex::just(tval{3}, 4L); }); }
VP_TEST(multi_when_all) { multi([] { return ex::when_all(ex::just(tval{3}), snd<1, m_inline, VL>{}); }); }
VP_TEST(multi_continues_on) { multi([] { return ex::continues_on(ex::just(tval{3}), sch<1, m_inline, V0>{}); }); }
VP_TEST(multi_finally) { multi([] { return xx::finally(ex::just(tval{3}), snd<1, m_inline, V0>{}); }); }
VP_TEST(multi_sequence) { multi([] { return xx::sequence(snd<1, m_inline, V0>{}, ex::just(tval{3})); }); }
VP_TEST(multi_repeat) { multi([] { return xx::repeat_n(snd<0, m_inline, V0>{}, 2); }); }
VP_TEST(multi_fork_join) { multi([] { return xx::fork_join(ex::just(tval{3}), ex::then([](const tval&) {})); }); }
VP_TEST(multi_variant) { multi([]() -> xx::variant_sender<decltype(ex::just(tval{3})), snd<0, m_inline, V0>> { if (vp_choose(2, "alternative")) return ex::just(tval{3}); return snd<0, m_inline, V0>{}; }); }

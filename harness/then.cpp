// then / upon_error / upon_stopped
#include "vp.hpp"
using namespace vp;

struct fstate { char called{}, res{}, threw{}, dead{}; };
template <class T, bool MayThrow>
struct fn {                     // an opaque user function, with a typestate of its own
  fstate* s; ch_t want; int st = 1;
  fn(fstate* s, ch_t w) : s(s), want(w) {}
  fn(fn&& o) noexcept : s(o.s), want(o.want) { vp_check(o.st == 1, "the function object is moved while it is alive"); o.st = 2; }
  fn(const fn& o) noexcept : s(o.s), want(o.want) { vp_check(o.st == 1, "the function object is copied while it is alive"); }
  ~fn() { st = 0; }
  template <class... As>
  T operator()(As&&... as) noexcept(!MayThrow) {
    vp_check(st == 1, "the function is called on a live function object");
    vp_check(vp_add(&s->called, 1) == 1, "the function is called at most once");
    vp_check(kids[0].ch() == want, "the function is called only for its own channel");
    (vp_check(as_long(as) == kids[0].pay(), "the function receives the predecessor's datum"), ...);
    if constexpr (MayThrow) if (vp_choose(2, "function throws")) { long e = vp_sym("exception"); vp_set(&s->threw, 1); vp_set(&s->res, e); throw err{e}; }
    long y = vp_sym("result"); vp_set(&s->res, y);
    if constexpr (!std::is_void_v<T>) return make<T>(y);
  }
};
template <class T, bool Thr, class S, class Ad>
static void check(S s, Ad ad, ch_t want, bool lvalue = false) {
  fstate f;
  {
    auto sn = ad(s, fn<T, Thr>{&f, want});
    run r{lvalue ? decltype(sn)(sn) : std::move(sn)};
    vp_check(!kids[0].started(), "nothing runs before start");
    vp_check(vp_get(&f.called) == 0, "the function does not run before start");
    r.start();
    if (kids[0].pending()) { vp_check(r.o.n() == 0, "no completion before the predecessor completes"); fire(0); }
    vp_check(kids[0].started() == 1, "the predecessor is started");
    r.o.expect_once();
    if (kids[0].ch() == want) {
      vp_check(vp_get(&f.called) == 1, "the function is called for its channel");
      if (vp_get(&f.threw)) r.o.expect_error(vp_get(&f.res));
      else { vp_check(r.o.ch() == value, "the result is sent on the value channel"); if constexpr (!std::is_void_v<T>) vp_check(r.o.p() == vp_get(&f.res), "the result of the function is delivered"); else vp_check(r.o.nargs() == 0, "a void function yields set_value()"); }
    } else {
      vp_check(vp_get(&f.called) == 0, "the function is not called for another channel");
      switch (kids[0].ch()) { case value: r.o.expect_value(kids[0].pay()); break; case error: r.o.expect_error(kids[0].pay()); break; default: r.o.expect_stopped(); }
    }
  }
  vp_check(kids[0].destroyed() == kids[0].connected(), "every child operation is destroyed");
}
static auto th = [](auto s, auto f) { return ex::then(std::move(s), std::move(f)); };
static auto ue = [](auto s, auto f) { return ex::upon_error(std::move(s), std::move(f)); };
static auto us = [](auto s, auto f) { return ex::upon_stopped(std::move(s), std::move(f)); };
static auto thp = [](auto s, auto f) { return std::move(s) | ex::then(std::move(f)); };
static auto uep = [](auto s, auto f) { return std::move(s) | ex::upon_error(std::move(f)); };
static auto usp = [](auto s, auto f) { return std::move(s) | ex::upon_stopped(std::move(f)); };

VP_TEST(then_long) { check<long, true>(snd<0, m_any, VL, EE, SS>{}, th, value); }
VP_TEST(then_void) { check<void, true>(snd<0, m_any, VL, EP, SS>{}, th, value); }
VP_TEST(then_val) { check<val, true>(snd<0, m_any, VV, EE, SS>{}, thp, value); }
VP_TEST(then_noexcept) { check<val, false>(snd<0, m_any, VV, EE, SS>{}, th, value); }
VP_TEST(then_tval) { check<long, true>(snd<0, m_any, VT, SS>{}, th, value, true); }
VP_TEST(upon_error_long) { check<long, true>(snd<0, m_any, VL, EE, SS>{}, ue, error); }
VP_TEST(upon_error_void) { check<void, true>(snd<0, m_any, V0, EE, SS>{}, ue, error); }
VP_TEST(upon_error_eptr) { check<val, true>(snd<0, m_any, VV, EP, SS>{}, uep, error); }
VP_TEST(upon_error_noexcept) { check<long, false>(snd<0, m_any, VL, EP, EE, SS>{}, ue, error, true); }
VP_TEST(upon_stopped_long) { check<long, true>(snd<0, m_any, VL, EE, SS>{}, us, stopped); }
VP_TEST(upon_stopped_void) { check<void, true>(snd<0, m_any, V0, EP, SS>{}, usp, stopped); }
VP_TEST(upon_stopped_noexcept) { check<val, false>(snd<0, m_any, VV, EE, SS>{}, us, stopped, true); }

// composition: then(upon_error(upon_stopped(x)))
VP_TEST(compose) {
  char a{}, b{}, c{};
  run r{snd<0, m_any, VL, EE, SS>{} | ex::upon_stopped([&]() noexcept { vp_add(&a, 1); return 1L; }) | ex::upon_error([&](err e) { vp_add(&b, 1); return e.e; }) | ex::then([&](long x) { vp_add(&c, 1); return x; })};
  r.start(); fire(0);
  r.o.expect_once();
  vp_check(vp_get(&c) == 1, "then runs once");
  vp_check(vp_get(&a) == (kids[0].ch() == stopped), "upon_stopped runs for stopped");
  vp_check(vp_get(&b) == (kids[0].ch() == error), "upon_error runs for errors");
  r.o.expect_value(kids[0].ch() == stopped ? 1 : kids[0].pay());
}

// bulk, bulk_chunked and bulk_unchunked without a scheduler that customises them
#include "vp.hpp"
using namespace vp;

static char nexti, where, threw, calls, lim;
// the indices seen so far are [0, next)
static void range(long b, long e) {
  vp_add(&calls, 1);
  vp_check(b == vp_get(&nexti), "every index is visited once, in order");
  vp_check(b < e, "a range is not empty");
  vp_check(e <= vp_get(&lim), "no index beyond the shape is visited");
  vp_set(&nexti, e);
}
template <class... As> static void datum(As&... as) {
  if constexpr (sizeof...(As) == 1) {
    long a = (long) std::addressof((as, ...));
    if (vp_get(&where)) vp_check(vp_get(&where) == a, "every call sees the same values");
    vp_set(&where, a);
    vp_check((as_long(as), ...) == kids[0].pay(), "every call sees the predecessor's values");
  }
}
// Thr: throws on its own; K: 0 anything, 1 the function has state (a non-const call operator), 2 throws only for val
template <bool Thr> struct one {      // for bulk and bulk_unchunked
  char st = 1; long state = 0;
  one() = default;
  one(const one& o) noexcept : st(o.st), state(o.state) { vp_check(o.st == 1, "the function is copied while alive"); }
  ~one() { st = 0; }
  template <class I, class... As> void operator()(I i, As&... as) noexcept(!Thr) {
    vp_check(st == 1, "the function is alive");
    vp_check(state == vp_get(&nexti), "the function keeps its state between the calls"); ++state;
    range(i, i + 1); datum(as...);
    if (Thr && vp_choose(2, "the function throws")) { vp_set(&threw, 1); throw err{41}; }
  }
};
template <bool Thr> struct chunk {
  char st = 1;
  chunk() = default; chunk(const chunk& o) noexcept : st(o.st) { vp_check(o.st == 1, "the function is copied while alive"); }
  ~chunk() { st = 0; }
  template <class I, class... As> void operator()(I b, I e, As&... as) noexcept(!Thr) {
    vp_check(st == 1, "the function is alive"); range(b, e); datum(as...);
    if (Thr && vp_choose(2, "the function throws")) { vp_set(&threw, 1); throw err{41}; }
  }
};
template <class S> static void go(S s, long n) {
  long h = vp_heap(); vp_set(&lim, n);
  { run r{std::move(s)};
    vp_check(vp_get(&calls) == 0 && kids[0].started() == 0, "nothing runs before start");
    r.start();
    if (kids[0].pending()) { r.o.expect_none(); vp_check(vp_get(&calls) == 0, "the function is not called before the predecessor has completed"); fire(0); }
    r.o.expect_once();
    vp_check(r.o.ctx() == 0, "completes where the predecessor did");
    if (kids[0].ch() != value) vp_check(vp_get(&calls) == 0, "the function is called for values only");
    if (vp_get(&threw)) r.o.expect_error(41);
    else if (kids[0].ch() == error) r.o.expect_error(kids[0].pay());
    else if (kids[0].ch() == stopped) r.o.expect_stopped();
    else { vp_check(vp_get(&nexti) == (n < 0 ? 0 : n), "every index below the shape is visited, no other"); vp_check(r.o.ch() == value, "the predecessor's values are the result"); if (r.o.nargs()) r.o.expect_value(kids[0].pay()); } }
  vp_check(kids[0].connected() == kids[0].destroyed(), "the child operation is destroyed");
  vp_check(vp_heap() == h, "no memory is leaked");
}
template <bool Thr, class Child, class Pol, class Shape> static void all(Child c, Pol p, Shape n) {
  switch (vp_choose(3, "form")) {
  case 0: go(ex::bulk(c, p, n, one<Thr>{}), n); break;
  case 1: go(ex::bulk_chunked(c, p, n, chunk<Thr>{}), n); break;
  default: go(ex::bulk_unchunked(c, p, n, one<Thr>{}), n); break;
  }
}
using S0 = snd<0, m_any, VV, EE, SS>;
static int shape() { static constexpr int n[5] = {0, 1, 2, 4, -3}; return n[vp_choose(5, "shape")]; }
VP_TEST(nothrow) { all<false>(S0{}, ex::par, shape()); }
VP_TEST(throws) { all<true>(S0{}, ex::par, shape()); }
VP_TEST(seq) { all<true>(S0{}, ex::seq, 3); }
VP_TEST(unseq) { all<false>(S0{}, ex::unseq, 2L); }
VP_TEST(par_unseq) { all<true>(S0{}, ex::par_unseq, (unsigned) vp_choose(3, "shape")); }
VP_TEST(shorts) { all<false>(S0{}, ex::par, (short) shape()); }
VP_TEST(sizes) { all<true>(S0{}, ex::seq, (unsigned long) vp_choose(3, "shape")); }
VP_TEST(several) { all<true>(snd<0, m_any, VV, VL, V0, EP>{}, ex::par, vp_choose(3, "shape")); }
VP_TEST(no_values) { all<true>(snd<0, m_any, EE, SS>{}, ex::par, 2); }
VP_TEST(throwing_copies) { all<false>(snd<0, m_any, VT, EE>{}, ex::par, 2); }    // no copy is made, so none throws
VP_TEST(piped) { switch (vp_choose(3, "form")) { case 0: go(S0{} | ex::bulk(ex::par, 3, one<true>{}), 3); break; case 1: go(S0{} | ex::bulk_chunked(ex::par, 3, chunk<true>{}), 3); break; default: go(S0{} | ex::bulk_unchunked(ex::par, 3, one<true>{}), 3); } }
VP_TEST(lvalue) { const auto s = ex::bulk(S0{}, ex::par, 3, one<false>{}); vp_set(&lim, 3); run<decltype(s)&> r{s}; r.start(); fire(0); r.o.expect_once(); if (kids[0].ch() == value) { vp_check(vp_get(&nexti) == 3, "every index is visited"); r.o.expect_value(kids[0].pay()); } }
VP_TEST(lvalue_un) { const auto s = ex::bulk_unchunked(S0{}, ex::par, 3, one<false>{}); vp_set(&lim, 3); run<decltype(s)&> r{s}; r.start(); fire(0); r.o.expect_once(); if (kids[0].ch() == value) { vp_check(vp_get(&nexti) == 3, "every index is visited"); r.o.expect_value(kids[0].pay()); } }
// a function that throws for one kind of values only
struct some { void operator()(int, val&) noexcept(false) { if (vp_choose(2, "throws")) { vp_set(&threw, 1); throw err{41}; } } void operator()(int, long&) noexcept {} void operator()(int, int, val&) noexcept(false) { if (vp_choose(2, "throws")) { vp_set(&threw, 1); throw err{41}; } } void operator()(int, int, long&) noexcept {} };
template <class S> static void some_t(S s) { run r{std::move(s)}; r.start(); fire(0); r.o.expect_once(); if (vp_get(&threw)) r.o.expect_error(41); else r.o.expect_value(kids[0].pay()); }
VP_TEST(some_throw) { switch (vp_choose(3, "form")) { case 0: some_t(ex::bulk(snd<0, m_any, VV, VL>{}, ex::par, 2, some{})); break; case 1: some_t(ex::bulk_chunked(snd<0, m_any, VV, VL>{}, ex::par, 2, some{})); break; default: some_t(ex::bulk_unchunked(snd<0, m_any, VV, VL>{}, ex::par, 2, some{})); } }
// what the function does to the values reaches the next call and the receiver
static char nadd;
struct adder { void operator()(int i, val& v) noexcept { vp_add(&nadd, 1); v.v += 10; } void operator()(int b, int e, val& v) noexcept { for (; b != e; ++b) { vp_add(&nadd, 1); v.v += 10; } } };
template <class S> static void add_t(S s) { run r{std::move(s)}; r.start(); fire(0); r.o.expect_once(); if (kids[0].ch() == value) { vp_check(vp_get(&nadd) == 3, "three calls"); r.o.expect_value(kids[0].pay() + 10 + 10 + 10); } }
VP_TEST(modified) { switch (vp_choose(3, "form")) { case 0: add_t(ex::bulk(S0{}, ex::par, 3, adder{})); break; case 1: add_t(ex::bulk_chunked(S0{}, ex::par, 3, adder{})); break; default: add_t(ex::bulk_unchunked(S0{}, ex::par, 3, adder{})); } }

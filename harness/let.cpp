// let_value / let_error / let_stopped
#include "vp.hpp"
using namespace vp;

struct fstate { char called{}, threw{}, res{}; };
// the continuation keeps pointers to its arguments: they must stay alive until the
// secondary operation completes
inline char arg_key;
template <class T> struct watch { T* p; };

template <bool Thr, ch_t Want, class Snd2>
struct cont {
  fstate* s;
  int st = 1;
  explicit cont(fstate* s) : s(s) {}
  cont(cont&& o) noexcept : s(o.s) { vp_check(o.st == 1, "the function object is moved while alive"); o.st = 2; }
  cont(const cont& o) noexcept : s(o.s) { vp_check(o.st == 1, "the function object is copied while alive"); }
  ~cont() { st = 0; }
  template <class... As>
  auto operator()(As&... as) noexcept(!Thr) {
    vp_check(st == 1, "the function is called on a live object");
    vp_check(vp_add(&s->called, 1) == 1, "the function is called at most once");
    vp_check(kids[0].ch() == Want, "the function is called only for its own channel");
    (vp_check(as_long(as) == kids[0].pay(), "the function receives the predecessor's datum"), ...);
    if constexpr (Thr) if (vp_choose(2, "function throws")) { vp_set(&s->threw, 1); throw err{9}; }
    return Snd2{as...};
  }
};
// secondary opaque sender (child 1) which checks, when it completes, that the
// let-bound values are still there
template <class... As>
struct second {
  using sender_concept = ex::sender_tag;
  std::tuple<As*...> ps;
  explicit second(As&... as) : ps(&as...) {}
  template <class, class...>
  static consteval auto get_completion_signatures() noexcept -> ex::completion_signatures<VL, EE, SS> { return {}; }
  template <class R>
  struct op : pending_base {
    using operation_state_concept = ex::operation_state_tag;
    R r; std::tuple<As*...> ps; long v[sizeof...(As) + 1];
    op(R&& r, std::tuple<As*...> p) : r((R&&)r), ps(p) { vp_add(&kids[1].conn_, 1); save(std::index_sequence_for<As...>{}); }
    op(op&&) = delete;
    ~op() { check(std::index_sequence_for<As...>{}); vp_add(&kids[1].destroyed_, 1); }
    template <std::size_t... I> void save(std::index_sequence<I...>) { ((v[I] = as_long(*std::get<I>(ps))), ...); }
    template <std::size_t... I> void check(std::index_sequence<I...>) { ((vp_check(v[I] == as_long(*std::get<I>(ps)), "the bound values stay alive and unchanged until the second operation is destroyed")), ...); }
    void start() & noexcept {
      vp_check(vp_get(&kids[0].completed_) == 1, "the second operation starts after the first completed");
      vp_check(vp_add(&kids[1].started_, 1) == 1, "the second operation is started once");
      check(std::index_sequence_for<As...>{});
      if (vp_choose(2, "second completes later")) vp_set(&kids[1].pend_, (long)(pending_base*)this); else go();
    }
    void go() noexcept { check(std::index_sequence_for<As...>{}); R q((R&&)r); complete_any<R, VL, EE, SS>(&kids[1], (R&&)q); }
    void fire() noexcept override { vp_set(&kids[1].pend_, 0); go(); }
  };
  template <ex::receiver R> auto connect(R r) const -> op<R> { return op<R>{(R&&)r, ps}; }
};
template <bool Thr, class S, class Ad>
static void check(S s, Ad ad, ch_t want, fstate& f) {
  {
    run r{ad(s)};
    vp_check(!kids[0].started() && vp_get(&f.called) == 0, "nothing runs before start");
    r.start();
    if (kids[0].pending()) { r.o.expect_none(); fire(0); }
    if (kids[0].ch() == want) {
      vp_check(vp_get(&f.called) == 1, "the function is called for its channel");
      if (vp_get(&f.threw)) { vp_check(kids[1].started() == 0, "no second operation after an exception"); r.o.expect_error(9); }
      else {
        vp_check(kids[1].started() == 1, "the returned sender is started");
        if (kids[1].pending()) { r.o.expect_none(); fire(1); }
        switch (kids[1].ch()) { case value: r.o.expect_value(kids[1].pay()); break; case error: r.o.expect_error(kids[1].pay()); break; default: r.o.expect_stopped(); }
      }
    } else {
      vp_check(vp_get(&f.called) == 0, "the function is not called for another channel");
      switch (kids[0].ch()) { case value: r.o.expect_value(kids[0].pay()); break; case error: r.o.expect_error(kids[0].pay()); break; default: r.o.expect_stopped(); }
    }
    r.o.expect_once();
  }
  vp_check(kids[0].destroyed() == kids[0].connected(), "every first operation is destroyed");
  vp_check(kids[1].destroyed() == kids[1].connected(), "every second operation is destroyed");
}
VP_TEST(let_value) { fstate f; check<true>(snd<0, m_any, VL, EE, SS>{}, [&](auto s) { return ex::let_value(s, cont<true, value, second<long>>{&f}); }, value, f); }
VP_TEST(let_value_noexcept) { fstate f; check<false>(snd<0, m_any, VV, EE, SS>{}, [&](auto s) { return s | ex::let_value(cont<false, value, second<val>>{&f}); }, value, f); }
VP_TEST(let_value_void) { fstate f; check<true>(snd<0, m_any, V0, EE, SS>{}, [&](auto s) { return ex::let_value(s, cont<true, value, second<>>{&f}); }, value, f); }
VP_TEST(let_value_tval) {
  // decay-copying the value may throw: the exception is delivered, the function not called
  fstate f;
  run r{ex::let_value(snd<0, m_any, VT, SS>{}, [&](tval& v) { vp_set(&f.called, 1); vp_check(v.st == 1 && v.v == kids[0].pay(), "the value is bound"); return snd<1, m_any, VL>{}; })};
  r.start(); fire(0); fire(1);
  r.o.expect_once();
  if (kids[0].ch() == stopped) { r.o.expect_stopped(); vp_check(!vp_get(&f.called), "not called"); }
  else if (vp_get(&f.called)) r.o.expect_value(kids[1].pay());
  else { vp_check(r.o.ch() == error && (r.o.p() == 77 || r.o.p() == 78), "the exception of the copy is delivered"); }
}
VP_TEST(let_value_connect_throws) {
  run r{ex::let_value(snd<0, m_any, VL, SS>{}, [&](long&) { return throwing_connect_snd<1, m_any, VL, SS>{}; })};
  r.start(); fire(0); fire(1);
  r.o.expect_once();
  if (kids[0].ch() == stopped) r.o.expect_stopped();
  else if (kids[1].connected() == 0) r.o.expect_error(55);
  else if (kids[1].ch() == value) r.o.expect_value(kids[1].pay()); else r.o.expect_stopped();
}
VP_TEST(let_value_alternatives) {
  // the predecessor may complete with two different value signatures
  char a{}, b{};
  run r{ex::let_value(snd<0, m_any, VL, V0, SS>{}, [&]<class... As>(As&... as) { vp_add(sizeof...(As) ? &a : &b, 1); (vp_check(as == kids[0].pay(), "bound value"), ...); return snd<1, m_any, VL, SS>{}; })};
  r.start(); fire(0); fire(1);
  r.o.expect_once();
  if (kids[0].ch() == stopped) r.o.expect_stopped();
  else { vp_check(vp_get(&a) + vp_get(&b) == 1, "the function is called once"); if (kids[1].ch() == value) r.o.expect_value(kids[1].pay()); else r.o.expect_stopped(); }
}
VP_TEST(let_error) { fstate f; check<true>(snd<0, m_any, VL, EE, SS>{}, [&](auto s) { return ex::let_error(s, cont<true, error, second<err>>{&f}); }, error, f); }
VP_TEST(let_error_eptr) { fstate f; check<false>(snd<0, m_any, VL, EP, SS>{}, [&](auto s) { return s | ex::let_error(cont<false, error, second<std::exception_ptr>>{&f}); }, error, f); }
VP_TEST(let_stopped) { fstate f; check<true>(snd<0, m_any, VL, EE, SS>{}, [&](auto s) { return ex::let_stopped(s, cont<true, stopped, second<>>{&f}); }, stopped, f); }
VP_TEST(let_stopped_noexcept) { fstate f; check<false>(snd<0, m_any, VV, EP, SS>{}, [&](auto s) { return s | ex::let_stopped(cont<false, stopped, second<>>{&f}); }, stopped, f); }
// let_value with a value that owns memory: released exactly once on every path
struct owner { long* p; owner(long v) : p(new long(v)) {} owner(owner&& o) noexcept : p(std::exchange(o.p, nullptr)) {} ~owner() { delete p; } };
VP_TEST(let_value_owner) {
  run r{ex::let_value(ex::then(snd<0, m_any, VL, EE, SS>{}, [](long v) { return owner(v); }), [](owner& o) { return ex::then(snd<1, m_any, VL, EE, SS>{}, [&](long) { return *o.p; }); })};
  r.start(); fire(0); fire(1);
  r.o.expect_once();
  if (kids[0].ch() == value && kids[1].ch() == value) r.o.expect_value(kids[0].pay());
}
// an operation that is destroyed without being started releases everything
VP_TEST(let_value_never_started) {
  { run r{ex::let_value(ex::just(owner(3)), [](owner& o) { return ex::just(*o.p); })}; if (vp_choose(2, "start it")) { r.start(); r.o.expect_once(); r.o.expect_value(3); } }
}

// exactly one of the three steps (keeping the datum, calling the function, connecting
// the sender it returned) may throw, the other two are noexcept
struct terr { long v; char st = 1; explicit terr(long v) noexcept : v(v) {} ~terr() { st = 0; }
  terr(terr&& o) : v(o.v) { if (vp_choose(2, "error copy throws")) throw err{77}; }
  terr(const terr& o) : v(o.v) { if (vp_choose(2, "error copy throws")) throw err{78}; } };
namespace vp { template <> inline terr make<terr>(long v) { return terr{v}; } inline long as_long(const terr& t) { vp_check(t.st == 1, "the error is alive"); return t.v; } }
enum step { keep_throws, call_throws, conn_throws, none_throws };
template <step St, ch_t Want, class Sig, class Let>
static void sole(Let let) {
  using S0 = std::conditional_t<Want == value, snd<0, m_any, Sig, EE, SS>, std::conditional_t<Want == error, snd<0, m_any, VL, Sig, SS>, snd<0, m_any, VL, EE, SS>>>;
  using S1 = std::conditional_t<St == conn_throws, throwing_connect_snd<1, m_any, VL, SS>, snd<1, m_any, VL, SS>>;
  char called{}, threw{};
  {
    run r{let(S0{}, [&]<class... A>(A&...) noexcept(St != call_throws) {
      vp_add(&called, 1);
      if constexpr (St == call_throws) if (vp_choose(2, "function throws")) { vp_set(&threw, 1); throw err{9}; }
      return S1{};
    })};
    r.start(); fire(0); fire(1);
    r.o.expect_once();
    if (kids[0].ch() != Want) {
      vp_check(!vp_get(&called), "the function is called only for its own channel");
      switch (kids[0].ch()) { case value: r.o.expect_value(kids[0].pay()); break; case error: r.o.expect_error(kids[0].pay()); break; default: r.o.expect_stopped(); }
    } else if (!vp_get(&called)) {
      vp_check(St == keep_throws, "the function is called unless keeping the datum failed");
      vp_check(r.o.ch() == error && (r.o.p() == 77 || r.o.p() == 78), "the exception of keeping the datum is delivered");
    } else if (vp_get(&threw)) r.o.expect_error(9);
    else if (!kids[1].connected()) { vp_check(St == conn_throws, "the returned sender is connected"); r.o.expect_error(55); }
    else if (kids[1].ch() == value) r.o.expect_value(kids[1].pay());
    else r.o.expect_stopped();
  }
  vp_check(kids[0].destroyed() == kids[0].connected() && kids[1].destroyed() == kids[1].connected(), "both operations are destroyed");
}
#define LV [](auto s, auto f) { return ex::let_value(s, f); }
#define LE [](auto s, auto f) { return ex::let_error(s, f); }
#define LS [](auto s, auto f) { return ex::let_stopped(s, f); }
using ET = ex::set_error_t(terr);
VP_TEST(let_value_only_keep_throws) { sole<keep_throws, value, VT>(LV); }
VP_TEST(let_value_only_call_throws) { sole<call_throws, value, VL>(LV); }
VP_TEST(let_value_only_connect_throws) { sole<conn_throws, value, VL>(LV); }
VP_TEST(let_value_none_throws) { sole<none_throws, value, VL>(LV); }
VP_TEST(let_error_only_keep_throws) { sole<keep_throws, error, ET>(LE); }
VP_TEST(let_error_only_call_throws) { sole<call_throws, error, EE>(LE); }
VP_TEST(let_error_only_connect_throws) { sole<conn_throws, error, EE>(LE); }
VP_TEST(let_error_none_throws) { sole<none_throws, error, EE>(LE); }
VP_TEST(let_stopped_only_call_throws) { sole<call_throws, stopped, SS>(LS); }
VP_TEST(let_stopped_only_connect_throws) { sole<conn_throws, stopped, SS>(LS); }
VP_TEST(let_stopped_none_throws) { sole<none_throws, stopped, SS>(LS); }

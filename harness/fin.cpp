// exec::finally and exec::fork_join
#include "vp.hpp"
#include <exec/finally.hpp>
#include <exec/fork_join.hpp>
#include <exec/sequence.hpp>
#include "vp_scope.hpp"
using namespace vp;
namespace xx = exec;

// the second operation of a pair: it may only be started once the first one is destroyed
template <class R, int Id, int After, class... Sigs> struct next_op : kid_op<R, Id, m_any, Sigs...> {
  using kid_op<R, Id, m_any, Sigs...>::kid_op;
  void start() & noexcept {
    vp_check(kids[After].completed() == 1, "the final operation starts only after the initial one has completed");
    vp_check(kids[After].connected() == kids[After].destroyed(), "the initial operation is destroyed before the final one starts");
    kid_op<R, Id, m_any, Sigs...>::start();
  }
};
template <int Id, int After, class... Sigs> struct next {
  using sender_concept = ex::sender_tag;
  template <class, class...> static consteval auto get_completion_signatures() noexcept -> ex::completion_signatures<Sigs...> { return {}; }
  template <ex::receiver R> auto connect(R r) const noexcept -> next_op<R, Id, After, Sigs...> { return next_op<R, Id, After, Sigs...>{static_cast<R&&>(r)}; }
};
static void outcome(const obs& o, long thrown = 0) {
  o.expect_once();
  vp_check(kids[1].started() == 1 && kids[1].completed() == 1, "the final operation runs, whatever the outcome of the initial one");
  if (kids[1].ch() == error) o.expect_error(kids[1].pay());
  else if (kids[1].ch() == stopped) o.expect_stopped();
  else if (thrown) o.expect_error(thrown);
  else if (kids[0].ch() == error) o.expect_error(kids[0].pay());
  else if (kids[0].ch() == stopped) o.expect_stopped();
  else { vp_check(o.ch() == value, "the initial operation's values are the result"); if (o.nargs()) o.expect_value(kids[0].pay()); }
}
static void idle() { vp_check(kids[0].started() == 0 && kids[1].started() == 0, "nothing runs before start"); }
static void gone() { for (int i = 0; i < 2; ++i) vp_check(kids[i].connected() == kids[i].destroyed(), "every child operation is destroyed"); }
template <class S> static void fin(S s) {
  long h = vp_heap();
  { run r{std::move(s)};
    idle();
    if (!vp_choose(2, "start")) r.o.expect_none();
    else {
      r.start(); fire(0);
      if (kids[1].pending()) r.o.expect_none();
      fire(1);
      outcome(r.o);
    } }
  gone(); vp_check(vp_heap() == h, "no memory is leaked");
}
VP_TEST(channels) { fin(xx::finally(snd<0, m_any, VV, EE, SS>{}, next<1, 0, V0, EE, SS>{})); }
VP_TEST(more_values) { fin(xx::finally(snd<0, m_any, VV, VL, V0, EP>{}, next<1, 0, V0, EP>{})); }
VP_TEST(only_values) { fin(xx::finally(snd<0, m_any, V0>{}, next<1, 0, V0>{})); }
VP_TEST(only_stopped) { fin(xx::finally(snd<0, m_any, SS>{}, next<1, 0, V0, SS>{})); }
VP_TEST(no_values_in_final) { fin(xx::finally(snd<0, m_any, VV, EE, SS>{}, next<1, 0, EE, SS>{})); }
VP_TEST(piped) { fin(snd<0, m_any, VV, EE>{} | xx::finally(next<1, 0, V0, SS>{})); }
VP_TEST(lvalue) { auto s = xx::finally(snd<0, m_any, VV, SS>{}, next<1, 0, V0, EE>{}); const auto& c = s; run<decltype(c)> r{c}; r.start(); fire(0); fire(1); outcome(r.o); }
VP_TEST(nested) { fin(xx::finally(xx::finally(snd<0, m_any, VV, EE, SS>{}, ex::just()), next<1, 0, V0, EE, SS>{})); }
VP_TEST(sequenced) { fin(xx::finally(snd<0, m_any, VV, EE, SS>{}, xx::sequence(ex::just(), next<1, 0, V0, EE>{}))); }

// results that live in the initial operation, and whose copies may throw
static char threw;
template <bool Thr> struct res { long v; char st = 1; explicit res(long x) noexcept : v(x) {} ~res() { st = 0; }
  friend long as_long(const res& e) { vp_check(e.st == 1, "a delivered value is alive"); return e.v; }
  res(res&& o) noexcept(!Thr) : v(o.v) { vp_check(o.st == 1, "a value is moved while alive"); if (Thr && vp_choose(2, "result move throws")) { vp_set(&threw, 1); throw err{77}; } o.st = 2; }
  res(const res& o) noexcept(!Thr) : v(o.v) { vp_check(o.st == 1, "a value is copied while alive"); if (Thr && vp_choose(2, "result copy throws")) { vp_set(&threw, 1); throw err{77}; } } };
template <class T> using VR = ex::set_value_t(T);
template <class T> using ER = ex::set_error_t(T);
template <class... Sigs> struct holder {      // completes with references into its own operation
  using sender_concept = ex::sender_tag;
  template <class, class...> static consteval auto get_completion_signatures() noexcept -> ex::completion_signatures<Sigs...> { return {}; }
  template <class R> struct op : pending_base { using operation_state_concept = ex::operation_state_tag; R r; res<true> t; res<false> n;
    explicit op(R&& x, long a) : r((R&&) x), t(a), n(a) { vp_add(&kids[0].conn_, 1); vp_set(&kids[0].pay_, a); vp_set(&kids[0].completed_, 0); }
    op(op&&) = delete;
    ~op() { vp_add(&kids[0].destroyed_, 1); }
    template <class Tag, class T> void one(Tag (*)(T)) { vp_set(&kids[0].ch_, as_long(Tag{})); if constexpr (std::is_same_v<std::decay_t<T>, res<true>>) Tag{}((R&&) r, static_cast<T&&>(t)); else Tag{}((R&&) r, static_cast<T&&>(n)); }
    template <class Tag> void one(Tag (*)()) { vp_set(&kids[0].ch_, as_long(Tag{})); Tag{}((R&&) r); }
    void fire() noexcept override { vp_set(&kids[0].pend_, 0); vp_set(&kids[0].completed_, 1); int c = sizeof...(Sigs) > 1 ? vp_choose(sizeof...(Sigs), "completes with") : 0, i = 0; (void) ((i++ == c ? (one((Sigs*) nullptr), true) : false) || ...); }
    void start() & noexcept { vp_add(&kids[0].started_, 1); if (vp_choose(2, "later")) vp_set(&kids[0].pend_, (long) (pending_base*) this); else fire(); } };
  template <ex::receiver R> auto connect(R r) const noexcept -> op<R> { return op<R>{(R&&) r, vp_sym("result")}; }
};
template <class H> static void thr(H) {
  long h = vp_heap();
  { run r{xx::finally(H{}, next<1, 0, V0, EE, SS>{})}; r.start(); fire(0); fire(1);
    outcome(r.o, vp_get(&threw) ? 77 : 0); }
  gone(); vp_check(vp_heap() == h, "no memory is leaked");
}
VP_TEST(refs) { thr(holder<VR<res<false>&>, ER<const res<false>&>>{}); }
VP_TEST(rvalue_refs) { thr(holder<VR<res<false>>, ER<res<false>>, SS>{}); }
VP_TEST(throwing_refs) { thr(holder<VR<const res<true>&>, SS>{}); }
VP_TEST(throwing_value) { thr(holder<VR<res<true>>>{}); }
VP_TEST(throwing_error) { thr(holder<V0, ER<res<true>>>{}); }
VP_TEST(mixed_throwing) { thr(holder<VR<res<true>&>, VR<res<false>&>, ER<res<true>&>>{}); }
VP_TEST(values_dropped) {   // the final sender sends no values: the initial ones are not even copied
  { run r{xx::finally(holder<VR<res<true>>>{}, next<1, 0, EE, SS>{})}; r.start(); fire(0); fire(1); outcome(r.o); vp_check(vp_get(&threw) == 0, "unused results are not copied"); } gone(); }
// completions on other threads, as soon as the operation was started
VP_TEST(threads) {
  { run r{xx::finally(snd<0, m_later, VV, EE, SS>{}, next<1, 0, V0, SS>{})};
    int a = spawn_fire_started(0);
    r.start();
    vp_join(a);
    if (kids[1].pending()) { int b = spawn_fire(1); vp_join(b); }
    outcome(r.o); }
  gone();
}
VP_TEST(stop_request) {
  { ex::inplace_stop_source src; run r{xx::finally(stop_snd<0, VL>{}, next<1, 0, V0, SS>{}), stop_env{src.get_token()}};
    int a = spawn_stop(src);
    r.start();
    fire(0); vp_join(a);
    fire(1);
    outcome(r.o); }
  gone();
}
// ---- fork_join --------------------------------------------------------------------------
// a branch that keeps the references it was sent and looks at them when it completes
static char addr, brs;
template <int Id, class R> struct brcv;
template <int Id> struct bst : pending_base { const void* p = nullptr; long (*look)(const void*) = nullptr; long what = 0; };
template <int Id, class R> struct bbase : bst<Id> { R r; explicit bbase(R&& x) : r((R&&) x) {} };
template <int Id, class R> struct brcv {
  using receiver_concept = ex::receiver_tag; bbase<Id, R>* b;
  void got(long what, const void* p, long (*f)(const void*)) noexcept {
    vp_check(kids[0].connected() == kids[0].destroyed(), "the child operation is destroyed before a branch starts");
    if (p) { if (vp_get(&addr)) vp_check(vp_get(&addr) == (long) p, "all branches see the same cached result"); vp_set(&addr, (long) p); }
    b->what = what; b->p = p; b->look = f; vp_set(&kids[Id].started_, 1);
    if (vp_choose(2, "branch completes later")) { vp_set(&kids[Id].pend_, (long) (pending_base*) b); vp_event_set(&kids[Id].pend_); } else b->fire();
  }
  template <class T> static long lk(const void* p) { return as_long(*static_cast<const T*>(p)); }
  void set_value() noexcept { got(value, nullptr, nullptr); }
  template <class T> void set_value(const T& v) noexcept { got(value, std::addressof(v), lk<T>); }
  template <class T> void set_value(T&&) noexcept = delete;
  template <class T> void set_error(T&& v) noexcept { static_assert(std::is_lvalue_reference_v<T>); got(error, std::addressof(v), lk<std::decay_t<T>>); }
  void set_stopped() noexcept { got(stopped, nullptr, nullptr); }
  auto get_env() const noexcept { return ex::get_env(b->r); }
};
template <int Id, class S, class R> struct bop : bbase<Id, R> {
  using operation_state_concept = ex::operation_state_tag;
  ex::connect_result_t<S, brcv<Id, R>> in;
  bop(S&& s, R&& r) : bbase<Id, R>((R&&) r), in(ex::connect((S&&) s, brcv<Id, R>{this})) { vp_add(&kids[Id].conn_, 1); vp_set(&kids[Id].completed_, 0); }
  bop(bop&&) = delete;
  ~bop() { vp_add(&kids[Id].destroyed_, 1); if (vp_get(&kids[Id].started_)) vp_check(kids[Id].completed() != 0, "a started branch is not destroyed before it completes"); }
  void start() & noexcept { ex::start(in); }
  void fire() noexcept override {
    vp_set(&kids[Id].pend_, 0); vp_set(&kids[Id].completed_, 1);
    long x = this->p ? this->look(this->p) : 0;
    vp_set(&kids[Id].pay_, x); vp_set(&kids[Id].ch_, this->what); vp_add(&brs, 1);
    R q((R&&) this->r);
    if (this->what == value) ex::set_value((R&&) q, (long&&) x); else if (this->what == error) ex::set_error((R&&) q, err{x}); else ex::set_stopped((R&&) q);
  }
};
template <int Id, class S> struct bsnd { using sender_concept = ex::sender_tag; S s;
  template <class, class...> static consteval auto get_completion_signatures() noexcept -> ex::completion_signatures<VL, EE, SS> { return {}; }
  template <ex::receiver R> auto connect(R r) && -> bop<Id, S, R> { return bop<Id, S, R>{(S&&) s, (R&&) r}; }
  template <ex::receiver R> auto connect(R r) const& -> bop<Id, S, R> { return bop<Id, S, R>{S(s), (R&&) r}; } };
template <int Id> struct branch : ex::sender_adaptor_closure<branch<Id>> { template <ex::sender S> auto operator()(S s) const { return bsnd<Id, S>{(S&&) s}; } };
static void joined(const obs& o, int n, long thrown = 0) {
  o.expect_once();
  vp_check(vp_get(&brs) == n, "every branch runs, exactly once, before the whole completes");
  if (thrown) o.expect_error(thrown);
  else if (kids[0].ch() == error) o.expect_error(kids[0].pay());
  else if (kids[0].ch() == stopped) o.expect_stopped();
  else { vp_check(o.ch() == value && o.nargs() == n, "the branches' values are the result"); for (int i = 0; i < n && i < 3; ++i) vp_check(o.p(i) == kids[i + 1].pay(), "the branches' values come in order"); }
}
static void bgone() { for (int i = 0; i < 4; ++i) vp_check(kids[i].connected() == kids[i].destroyed(), "every child operation is destroyed"); }
template <class S> static void fork(S s, int n) {
  long h = vp_heap();
  { run r{std::move(s)};
    for (int i = 0; i < 4; ++i) vp_check(kids[i].started() == 0, "nothing runs before start");
    if (!vp_choose(2, "start")) r.o.expect_none();
    else {
    r.start(); fire(0);
    bool back = vp_choose(2, "branches complete in reverse order");
    for (int i = 0; i < n; ++i) { int b = back ? n - i : i + 1; if (kids[b].pending()) { r.o.expect_none(); fire(b); } }
    joined(r.o, n, vp_get(&threw) ? 77 : 0); } }
  bgone(); vp_check(vp_heap() == h, "no memory is leaked");
}
VP_TEST(fork_two) { fork(xx::fork_join(snd<0, m_any, VV, EE, SS>{}, branch<1>{}, branch<2>{}), 2); }
VP_TEST(fork_one) { fork(xx::fork_join(snd<0, m_any, VV, SS>{}, branch<1>{}), 1); }
VP_TEST(fork_three) { fork(xx::fork_join(snd<0, m_inline, VV, EE>{}, branch<1>{}, branch<2>{}, branch<3>{}), 3); }
VP_TEST(fork_piped) { fork(snd<0, m_any, VV, VL>{} | xx::fork_join(branch<1>{}, branch<2>{}), 2); }
VP_TEST(fork_refs) { fork(xx::fork_join(holder<VR<res<false>&>, ER<const res<false>&>, SS>{}, branch<1>{}, branch<2>{}), 2); }
VP_TEST(fork_rvalues) { fork(xx::fork_join(holder<VR<res<false>>, ER<res<false>>>{}, branch<1>{}, branch<2>{}), 2); }
VP_TEST(fork_throwing) { fork(xx::fork_join(holder<VR<const res<true>&>, SS>{}, branch<1>{}, branch<2>{}), 2); }
VP_TEST(fork_throwing_error) { fork(xx::fork_join(holder<VR<res<false>>, ER<res<true>>>{}, branch<1>{}, branch<2>{}), 2); }
VP_TEST(fork_mixed) { fork(xx::fork_join(holder<VR<res<true>>, VR<res<false>>>{}, branch<1>{}), 1); }
VP_TEST(fork_threads) {
  { run r{xx::fork_join(snd<0, m_later, VV, EE>{}, branch<1>{}, branch<2>{})};
    int a = spawn_fire_started(0);
    r.start();
    vp_join(a);
    int b = kids[1].pending() ? spawn_fire(1) : -1, c = kids[2].pending() ? spawn_fire(2) : -1;
    if (b >= 0) vp_join(b);
    if (c >= 0) vp_join(c);
    joined(r.o, 2); }
  bgone();
}
// a failing branch stops the others; the stop request of the receiver reaches them
VP_TEST(fork_stop) {
  { ex::inplace_stop_source src; run r{xx::fork_join(snd<0, m_inline, VV>{}, ex::let_value([](const val& v) { vp_check(v.st == 1, "the cached result is alive"); return stop_snd<1, VL>{}; }), branch<2>{}), stop_env{src.get_token()}};
    r.start();
    int a = spawn_stop(src);
    fire(1); fire(2); vp_join(a);
    r.o.expect_once();
    if (kids[1].ch() == stopped) r.o.expect_stopped(); else vp_check(r.o.ch() == value, "the branches' values are the result"); }
  vp_check(kids[1].connected() == kids[1].destroyed() && kids[2].connected() == kids[2].destroyed(), "every child operation is destroyed");
}
VP_TEST(fork_branch_fails) {
  { run r{xx::fork_join(snd<0, m_any, VV>{}, ex::let_value([](const val&) { return snd<1, m_any, VL, EE>{}; }), ex::let_value([](const val&) { return stop_snd<2, VL>{}; }))};
    r.start(); fire(0); fire(1);
    if (kids[2].pending()) { vp_check(kids[1].ch() != error, "a failing branch stops the others"); fire(2); }
    r.o.expect_once();
    if (kids[1].ch() == error) r.o.expect_error(kids[1].pay()); else { r.o.expect_value(kids[1].pay()); } }
}

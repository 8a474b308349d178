// Storage the algorithms keep values and operations in: optional, variant, tuple, lazy storage, shared ownership (P32)
#include "vp.hpp"
#include <stdexec/__detail/__optional.hpp>
#include <stdexec/__detail/__variant.hpp>
#include <stdexec/__detail/__tuple.hpp>
#include <stdexec/__detail/__manual_lifetime.hpp>
#include <stdexec/__detail/__intrusive_ptr.hpp>
#include <stdexec/__detail/__scope.hpp>
#include <exec/variant_sender.hpp>
#include <exec/task.hpp>
using namespace vp;
namespace xx = exec;

// an object with a typestate; N tells alternatives apart; every step that may throw does, or not
static char live, threw;
template <int N, bool Thr = false> struct ob {
  long v; int st = 1;
  void born() noexcept { vp_obj_begin(this, "a held object"); vp_add(&live, 1); }
  void chk(const ob& o, const char* w) { vp_check(o.st == 1, "a held object is used only while it holds its value"); if (Thr && vp_choose(2, w)) { vp_set(&threw, 1); throw err{70 + N}; } born(); }
  explicit ob(long x) noexcept(!Thr) : v(x) { if (Thr && vp_choose(2, "construction throws")) { vp_set(&threw, 1); throw err{70 + N}; } born(); }
  ob(ob&& o) noexcept(!Thr) : v(o.v) { chk(o, "move throws"); o.st = 2; }
  ob(const ob& o) noexcept(!Thr) : v(o.v) { chk(o, "copy throws"); }
  ob& operator=(ob&&) = delete;
  ob& operator=(const ob&) = delete;
  ~ob() { vp_check(st != 0, "a held object is destroyed once"); vp_obj_end(this); vp_add(&live, -1); st = 0; }
};
// moves do not throw, copies do
template <int N> struct cp {
  long v; int st = 1;
  void born() noexcept { vp_obj_begin(this, "a held object"); vp_add(&live, 1); }
  explicit cp(long x) noexcept : v(x) { born(); }
  cp(cp&& o) noexcept : v(o.v) { vp_check(o.st == 1, "a held object is used only while it holds its value"); born(); o.st = 2; }
  cp(const cp& o) noexcept(false) : v(o.v) { vp_check(o.st == 1, "a held object is used only while it holds its value"); if (vp_choose(2, "copy throws")) { vp_set(&threw, 1); throw err{70 + N}; } born(); }
  ~cp() { vp_check(st != 0, "a held object is destroyed once"); vp_obj_end(this); vp_add(&live, -1); st = 0; }
};
static long gets(const auto& o) { vp_check(o.st == 1, "what is held is alive and not moved from"); return o.v; }
struct all_gone { ~all_gone() { vp_check(vp_get(&live) == 0, "everything held is destroyed with its storage"); } };
static bool has(const auto& o) { return o.has_value(); }

// ---- optional ---------------------------------------------------------------------------
template <class T> static void opt() {
  all_gone g; long a = vp_sym("a"), b = vp_sym("b");
  ex::__optional<T> o;
  vp_check(!has(o), "an optional starts empty");
  for (int k = 0; k < 2; ++k) {
    int what = vp_choose(4, "what is done to the optional");
    bool was = has(o);
    if (what == 3) { o.reset(); vp_check(!has(o) && vp_get(&live) == 0, "reset destroys what is held"); continue; }
    bool t = false; vp_set(&threw, 0); long x = k ? b : a;
    try {
      if (what == 0) { T& r = o.emplace(x); vp_check(&r == &*o, "emplace returns what it made"); }
      else if (what == 1) o.__emplace_from([&]() -> T { return T(x); });
      else { T in(x); vp_set(&threw, 0); o.emplace(std::move(in)); }
    } catch (const err&) { t = true; }
    (void) was;
    if (vp_get(&threw)) {
      vp_check(t, "an exception of the construction leaves emplace");
      vp_check(has(o) == (vp_get(&live) != 0), "an optional holds an object exactly if it says so");
      if (what < 2) vp_check(!has(o), "a failed emplace leaves the optional empty");
    } else { vp_check(!t && has(o) && vp_get(&live) == 1, "it holds the new object and nothing else"); vp_check(gets(*o) == x && gets(o.value()) == x && gets(*o.operator->()) == x && gets(std::as_const(o).value()) == x, "it holds what was put in"); }
  }
  bool bad = false;
  try { (void) o.value(); } catch (const ex::__bad_optional_access&) { bad = true; }
  vp_check(bad == !has(o), "value() of an empty optional throws");
  bad = false;
  try { (void) std::move(o).value(); } catch (const ex::__bad_optional_access&) { bad = true; }
  vp_check(bad == !has(o), "value() of an empty optional throws");
}
VP_TEST(optional) { opt<ob<0>>(); }
VP_TEST(optional_throwing) { opt<ob<1, true>>(); }
VP_TEST(optional_constructed) {
  all_gone g; long a = vp_sym("a");
  bool t = false; using T = ob<0, true>;
  try {
    if (vp_choose(2, "in place")) { ex::__optional<T> o(std::in_place, a); vp_check(has(o) && gets(*o) == a, "it holds what was put in"); }
    else { T x(a); ex::__optional<T> o(std::move(x)); vp_check(has(o) && gets(*o) == a, "it holds what was put in"); T y(std::move(*o)); vp_check(gets(y) == a, "it can be moved out"); }
  } catch (const err&) { t = true; }
  vp_check(t == (vp_get(&threw) != 0), "an exception of the construction reaches the caller");
  ex::__optional<T> n(ex::__nullopt); vp_check(!has(n), "made from nullopt it is empty");
  ex::__optional<void> v; vp_check(!has(v), "empty"); v.emplace(); vp_check(has(v), "set"); v.reset(); vp_check(!has(v), "reset");
}
// a constructor may destroy the storage the object is being made in: emplace does not touch it afterwards
template <class Store> struct dying { box<Store>* b; explicit dying(box<Store>* x) noexcept : b(x) {} };
struct osuicide { explicit osuicide(box<ex::__optional<osuicide>>* b) noexcept; };
osuicide::osuicide(box<ex::__optional<osuicide>>* b) noexcept { b->destroy(); }
VP_TEST(optional_destroyed_inside) { static box<ex::__optional<osuicide>> b; b.emplace_from([] { return ex::__optional<osuicide>{}; }); if (vp_choose(2, "how")) b.get().emplace(&b); else b.get().__emplace_from([] { return osuicide(&b); }); }
// list constructors are not preferred to plain ones
struct lv { long v; int st = 1; lv(long x) noexcept : v(x) {} lv(std::initializer_list<long>) noexcept : v(-1) {} friend long as_long(const lv& x) { return x.v; } };
VP_TEST(plain_construction) {
  long a = vp_sym("a");
  ex::__optional<lv> o; o.emplace(a); vp_check(o.value().v == a, "constructed from the argument, not from a list of it");
  ex::__optional<lv> p(a); vp_check(p.value().v == a, "constructed from the argument, not from a list of it");
  ex::__manual_lifetime<lv> m; m.__construct(a); vp_check(m.__get().v == a, "constructed from the argument, not from a list of it"); m.__destroy();
}

// ---- lazy storage -------------------------------------------------------------------------
VP_TEST(lazy) {
  all_gone g; long a = vp_sym("a"); using T = ob<0, true>;
  ex::__manual_lifetime<T> m; bool in = false, t = false;
  vp_check(vp_get(&live) == 0, "nothing is made before it is asked for");
  try { if (vp_choose(2, "how")) { T& r = m.__construct(a); vp_check(&r == &m.__get(), "returns what it made"); } else m.__construct_from([&](long x) { return T(x); }, a); in = true; } catch (const err&) { t = true; }
  vp_check(t == (vp_get(&threw) != 0) && in == !t && vp_get(&live) == in, "either an object or an exception");
  if (in) { vp_check(gets(m.__get()) == a && gets(*m.operator->()) == a && gets(std::as_const(m).__get()) == a, "it holds what was put in"); m.__destroy(); }
  vp_check(vp_get(&live) == 0, "destroyed when asked to");
  T* p = nullptr; alignas(T) char mem[sizeof(T)]; (void) p;
  ex::__manual_lifetime<long&> r; static long x, y; long& q = r.__construct(x); vp_check(&q == &x && &r.__get() == &x && r.operator->() == &x, "a reference stays the reference"); (void) mem;
  r.__construct_from([]() -> long& { return y; }); vp_check(&r.__get() == &y, "a reference stays the reference");
  ex::__manual_lifetime<void> w; static char ran; w.__construct_from([](int i) { vp_add(&ran, i); }, 1); vp_check(vp_get(&ran) == 1, "the function is called once");
}

// ---- variant ------------------------------------------------------------------------------
template <class V> static long vval(V& v) {      // what it holds: 100 + index, or 0
  if (v.__is_valueless()) return -1;
  return ex::__visit([](auto& x) -> long { return gets(x); }, v);
}
template <class A, class B> static void var() {
  all_gone g; long a = vp_sym("a");
  ex::__variant<A, B> v{ex::__no_init};
  vp_check(v.__is_valueless() && vp_get(&live) == 0, "a variant starts with nothing");
  for (int k = 0; k < 2; ++k) {
    int what = vp_choose(5, "what is done to the variant"); long x = k ? a + 1 : a; bool t = false; vp_set(&threw, 0);
    std::size_t i = what == 0 || what == 2 ? 0 : 1;
    if (what == 4) continue;
    try {
      if (what == 0) { auto& r = v.template emplace<A>(x); vp_check((void*) &r == v.__data(), "emplace returns what it made"); }
      else if (what == 1) v.template emplace<1>(x);
      else if (what == 2) v.template __emplace_from<0>([&] { return A(x); });
      else v.__emplace_from([&](long z) { return B(z); }, x);
    } catch (const err&) { t = true; }
    vp_check(t == (vp_get(&threw) != 0), "an exception of the construction leaves emplace");
    if (t) vp_check(v.__is_valueless() && vp_get(&live) == 0, "a failed emplace leaves nothing behind");
    else { vp_check(vp_get(&live) == 1 && !v.__is_valueless() && v.index() == i, "it holds the new alternative and nothing else"); vp_check(vval(v) == x, "it holds what was put in"); }
  }
}
VP_TEST(variant) { var<ob<0>, ob<1>>(); }
VP_TEST(variant_throwing) { var<ob<0, true>, ob<1, true>>(); }
// copy, move, assignment (also to itself), swap: the target holds what the source held, or nothing if that threw
template <class A, class B> static void vcopy() {
  all_gone g; long a = vp_sym("a"), b = vp_sym("b"); using V = ex::__variant<A, B>;
  V v{ex::__no_init}, w{ex::__no_init}; long va = -1, wb = -1; std::size_t vi = v.index();
  try { int h = vp_choose(3, "source holds"); if (h == 1) { v.template emplace<0>(a); va = a; } if (h == 2) { v.template emplace<1>(a); va = a; }
        int k = vp_choose(3, "target holds"); if (k == 1) { w.template emplace<0>(b); wb = b; } if (k == 2) { w.template emplace<1>(b); wb = b; } } catch (const err&) { return; }
  vi = v.index(); auto wi = w.index(); vp_set(&threw, 0); bool t = false;
  int how = vp_choose(6, "copy, move, assign, swap");
  try {
    if (how == 0) { V c(v); vp_check(c.index() == vi && vval(c) == va, "a copy holds the same"); vp_check(v.index() == vi && vval(v) == va, "the source of a copy is unchanged"); }
    else if (how == 1) { V c(std::move(v)); vp_check(c.index() == vi && vval(c) == va, "the new variant holds what was moved"); }
    else if (how == 2) { w = v; vp_check(w.index() == vi && vval(w) == va, "the target holds the same"); vp_check(v.index() == vi && vval(v) == va, "the source of a copy is unchanged"); }
    else if (how == 3) { w = std::move(v); vp_check(w.index() == vi && vval(w) == va, "the target holds what was moved"); }
    else if (how == 4) { v = static_cast<V&>(v); vp_check(v.index() == vi && vval(v) == va, "assignment to itself changes nothing"); v = static_cast<V&&>(v); vp_check(v.index() == vi && vval(v) == va, "assignment to itself changes nothing"); }
    else { v.swap(w); vp_check(v.index() == wi && w.index() == vi && vval(v) == wb && vval(w) == va, "swap exchanges"); }
  } catch (const err&) { t = true; }
  vp_check(t == (vp_get(&threw) != 0), "an exception of a copy or move reaches the caller");
  vp_check(vp_get(&live) == (!v.__is_valueless()) + (!w.__is_valueless()), "a variant holds an object exactly if it says so");
}
VP_TEST(variant_copy) { vcopy<ob<0>, ob<1>>(); }
VP_TEST(variant_copy_throwing) { vcopy<ob<0, true>, ob<1, true>>(); }
VP_TEST(variant_copy_only_throwing) { vcopy<cp<0>, ob<1>>(); }
struct vsuicide { explicit vsuicide(box<ex::__variant<ob<0>, vsuicide>>* b) noexcept; };
vsuicide::vsuicide(box<ex::__variant<ob<0>, vsuicide>>* b) noexcept { b->destroy(); }
VP_TEST(variant_destroyed_inside) { static box<ex::__variant<ob<0>, vsuicide>> b; b.emplace_from([] { return ex::__variant<ob<0>, vsuicide>{ex::__no_init}; });
  if (vp_choose(2, "something is held already")) b.get().template emplace<0>(3L);
  int h = vp_choose(3, "how"); if (h == 0) b.get().template emplace<1>(&b); else if (h == 1) b.get().template emplace<vsuicide>(&b); else b.get().__emplace_from([] { return vsuicide(&b); }); }
VP_TEST(variant_visit) {           // the function gets the alternative that is held, with the value category of the variant, and the extra arguments first
  all_gone g; long a = vp_sym("a"); ex::__variant<ob<0>, ob<1>> v{ex::__no_init}; bool z = vp_choose(2, "which") == 0;
  if (z) v.emplace<0>(a); else v.emplace<1>(a);
  struct f { int operator()(long& e, ob<0>& x) { e = x.v; return 1; } int operator()(long& e, ob<1>& x) { e = x.v; return 2; } int operator()(long& e, const ob<0>& x) { e = x.v; return 3; } int operator()(long& e, const ob<1>& x) { e = x.v; return 4; } int operator()(long& e, ob<0>&& x) { e = x.v; return 5; } int operator()(long& e, ob<1>&& x) { e = x.v; return 6; } };
  long e = 0;
  vp_check(ex::__visit(f{}, v, e) == (z ? 1 : 2) && e == a, "the alternative held"); e = 0;
  vp_check(ex::__visit(f{}, std::as_const(v), e) == (z ? 3 : 4) && e == a, "the alternative held"); e = 0;
  vp_check(ex::__visit(f{}, std::move(v), e) == (z ? 5 : 6) && e == a, "the alternative held");
}

// ---- variant_sender -----------------------------------------------------------------------
template <int Id> struct csnd : snd<Id, m_inline, VL> { cp<Id> c{Id}; csnd() = default; csnd(csnd&&) = default; csnd(const csnd&) = default; csnd& operator=(csnd&&) = delete;
  template <class Self, ex::receiver R> auto connect(R r) const noexcept -> kid_op<R, Id, m_inline, VL> { return kid_op<R, Id, m_inline, VL>{(R&&) r}; } template <ex::receiver R> auto connect(R r) const noexcept -> kid_op<R, Id, m_inline, VL> { vp_check(c.st == 1 && c.v == Id, "the alternative connected is the one assigned"); return kid_op<R, Id, m_inline, VL>{(R&&) r}; } };
VP_TEST(variant_sender) {
  all_gone g; using VS = xx::variant_sender<csnd<0>, csnd<1>>;
  { VS v{csnd<0>{}}; int at = 0; bool t = false; vp_set(&threw, 0); std::optional<VS> out;
    try {
      int how = vp_choose(5, "what is done to it");
      if (how == 0) { out.emplace(v); }
      else if (how == 1) { VS u{csnd<1>{}}; u = v; out.emplace(std::move(u)); }
      else if (how == 2) { v = csnd<1>{}; at = 1; out.emplace(std::move(v)); }
      else if (how == 3) { VS u{csnd<1>{}}; v.swap(u); vp_check(u.index() == 0, "swap exchanges"); at = 1; out.emplace(std::move(v)); }
      else { v.template emplace<1>(); at = 1; out.emplace(std::move(v)); }
    } catch (const err&) { t = true; }
    vp_check(t == (vp_get(&threw) != 0), "an exception of a copy reaches the caller");
    if (!t) { vp_check(out->index() == (std::size_t) at, "it holds the alternative assigned"); run r{std::move(*out)}; r.start(); r.o.expect_once(); vp_check(kids[at].started() == 1 && kids[1 - at].connected() == 0, "that alternative runs"); r.o.expect_value(kids[at].pay()); } }
}

// ---- many values: every arity keeps its order, and each value arrives as it was ---------------
template <class... L> static void arity(L... l) {
  all_gone g; constexpr int N = sizeof...(L); static char seen[16];
  auto f = [=](const auto&... x) noexcept { vp_check(sizeof...(x) == N, "every value arrives"); long e[] = {0, l...}; int i = 0; ((++i, vp_check(gets(x) == e[i], "in order")), ...); vp_add(&seen[0], 1); };
  int how = vp_choose(4, "where the values are kept");
  if (how == 0) { run r{ex::just(ob<0>(l)...) | ex::then(f)}; r.start(); r.o.expect_once(); }
  else if (how == 1) { run r{ex::just(ob<0>(l)...) | ex::let_value([f](auto&... x) noexcept { f(x...); return ex::just(); })}; r.start(); r.o.expect_once(); }
  else if (how == 2) { run r{ex::when_all(ex::just(ob<0>(l)...)) | ex::then(f)}; r.start(); r.o.expect_once(); }
  else { run r{ex::continues_on(ex::just(ob<0>(l)...), ex::inline_scheduler{}) | ex::then(f)}; r.start(); r.o.expect_once(); }
  vp_check(vp_get(&seen[0]) == 1, "delivered once");
}
#define S1 vp_sym("v")
VP_TEST(values_0_to_4) { int n = vp_choose(5, "how many"); if (n == 0) arity(); else if (n == 1) arity(S1); else if (n == 2) arity(S1, S1); else if (n == 3) arity(S1, S1, S1); else arity(S1, S1, S1, S1); }
VP_TEST(values_5_to_7) { int n = vp_choose(3, "how many"); if (n == 0) arity(S1, S1, S1, S1, S1); else if (n == 1) arity(S1, S1, S1, S1, S1, S1); else arity(S1, S1, S1, S1, S1, S1, S1); }
VP_TEST(values_8_to_10) { int n = vp_choose(3, "how many"); if (n == 0) arity(S1, S1, S1, S1, S1, S1, S1, S1); else if (n == 1) arity(S1, S1, S1, S1, S1, S1, S1, S1, S1); else arity(S1, S1, S1, S1, S1, S1, S1, S1, S1, S1); }

// ---- shared ownership ----------------------------------------------------------------------
struct node : ex::__enable_intrusive_from_this<node, 2> { ob<0> o; long plain = 0; explicit node(long x) noexcept : o(x) {} ex::__intrusive_ptr<node, 2> self() noexcept { return this->__intrusive_from_this(); } bool set() noexcept { return !__bit<1>(this->template __set_bit<1>()); } bool clear() noexcept { return __bit<1>(this->template __clear_bit<1>()); } bool is() noexcept { return this->template __is_set<1>(); } };
using np = ex::__intrusive_ptr<node, 2>;
VP_TEST(shared) {
  long h = vp_heap(); long a = vp_sym("a"), b = vp_sym("b");
  { all_gone g; np p = ex::__make_intrusive<node, 2>(a), q = ex::__make_intrusive<node, 2>(b), e;
    vp_check(p && !e && !!e == false && e == nullptr && p->o.v == a && (*q).o.v == b && p.get() == &*p, "it points to what was made");
    for (int k = 0; k < 2; ++k) {
      np* x = vp_choose(2, "target") ? &q : &p; np* y = x == &p ? &q : &p; node* was = *y ? y->get() : nullptr; node* mine = *x ? x->get() : nullptr;
      int w = vp_choose(8, "what is done");
      if (w == 0) { *x = *y; vp_check((*x ? x->get() : nullptr) == was && *x == *y, "both point to the same"); }
      else if (w == 1) { *x = std::move(*y); vp_check((*x ? x->get() : nullptr) == was && !*y, "the target has it, the source does not"); }
      else if (w == 2) { np c(*y); vp_check(c == *y, "a copy points to the same"); }
      else if (w == 3) { x->swap(*y); vp_check((*x ? x->get() : nullptr) == was && (*y ? y->get() : nullptr) == mine, "swap exchanges"); }
      else if (w == 4) { x->reset(); vp_check(!*x, "reset lets go"); }
      else if (w == 5) { *x = static_cast<np&>(*x); vp_check((*x ? x->get() : nullptr) == mine, "assignment to itself changes nothing"); *x = static_cast<np&&>(*x); vp_check((*x ? x->get() : nullptr) == mine, "assignment to itself changes nothing"); }
      else if (w == 6) { if (mine) { np c = mine->self(); vp_check(c == *x, "a pointer made from the object shares ownership"); x->reset(); vp_check(gets(c->o) == gets(mine->o), "shared: still alive"); } }
      else if (mine) { vp_check(!mine->is() && mine->set() && mine->is() && !mine->set() && mine->clear() && !mine->is() && !mine->clear(), "flags are kept apart from the count"); }
      if (p) (void) gets(p->o); if (q) (void) gets(q->o);
      vp_check(vp_get(&live) == (p ? 1 : 0) + (q && !(q == p) ? 1 : 0), "an object lives exactly as long as something points to it");
    } }
  vp_check(vp_heap() == h, "its memory is freed");
}
VP_TEST(shared_threads) {          // the last owner destroys it, after everything the other owners did
  vp_config("preempt", 2); long h = vp_heap();
  { all_gone g; static np* pp[2]; np p = ex::__make_intrusive<node, 2>(1), q = p, r = p; np* s[2] = {&p, &q}; pp[0] = s[0]; pp[1] = s[1];
    static long got; got = 0;
    struct T { static void a(void*) { (*pp[0])->plain = 3; pp[0]->reset(); } static void b(void*) { if (!vp_choose(2, "flag")) (*pp[1])->set(); np c = *pp[1]; pp[1]->reset(); (void) gets(c->o); } };
    vp_spawn(T::a, nullptr, "first owner"); vp_spawn(T::b, nullptr, "second owner"); r.reset(); vp_join_all(); }
  vp_check(vp_heap() == h, "its memory is freed once");
}
VP_TEST(guard) {                   // runs its function once at the end of the scope, with its arguments, unless dismissed
  static char ran; long a = vp_sym("a"), got = 0; bool d = vp_choose(2, "dismissed"); int n = vp_choose(3, "arguments");
  if (n == 0) { ex::__scope_guard g{[&]() noexcept { got = a; vp_add(&ran, 1); }}; vp_check(vp_get(&ran) == 0, "not before"); if (d) g.__dismiss(); }
  else if (n == 1) { ex::__scope_guard g{[&](long x) noexcept { got = x; vp_add(&ran, 1); }, a}; if (d) g.__dismiss(); }
  else { ex::__scope_guard g{[&](long x, long y) noexcept { vp_check(x == 1, "in order"); got = y; vp_add(&ran, 1); }, 1L, a}; if (d) g.__dismiss(); }
  vp_check(vp_get(&ran) == !d && (d || got == a), "once, unless dismissed");
}
// ---- a task's result is constructed from what is returned -----------------------------------
namespace { struct ienv { using start_scheduler_type = ex::inline_scheduler; }; }
static ex::task<lv, ienv> tl(long a) { co_return a; }
VP_TEST(task_result) { long a = vp_sym("a"); run r{tl(a)}; r.start(); r.o.expect_once(); r.o.expect_value(a); }

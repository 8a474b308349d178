// Type erasure: any_sender, any_receiver, any_scheduler and the container underneath (P13)
#include "vp.hpp"
#include <exec/any_sender_of.hpp>
using namespace vp;
namespace xx = exec;
namespace an = stdexec::__any;
static char live;                                   // contained objects alive
struct heap_ok { long h = vp_heap(); ~heap_ok() { vp_check(vp_heap() == h, "everything allocated is released"); vp_check(vp_get(&live) == 0, "every contained object is destroyed exactly once"); } };

// ---- contained objects: N pads the size, K the ways they can throw ---------------------------
enum { k_nothrow = 0, k_copy = 1, k_move = 2, k_ctor = 4 };
template <int N, int K> struct obj {
  int st = 1; long pad[N + 1] = {};                 // st: 1 alive, 2 moved from, 0 destroyed
  explicit obj(long x) noexcept(!(K & k_ctor)) { if constexpr ((K & k_ctor) != 0) if (vp_choose(2, "constructor throws")) { st = 0; throw err{91}; } vp_add(&live, 1); pad[N] = x; }
  obj(const obj& o) noexcept(!(K & k_copy)) { vp_check(o.st == 1, "a copy is made of an object that is alive"); if constexpr ((K & k_copy) != 0) if (vp_choose(2, "copy throws")) throw err{92}; vp_add(&live, 1); pad[N] = o.pad[N]; }
  obj(obj&& o) noexcept(!(K & k_move)) { vp_check(o.st == 1, "an object is moved while it holds its value"); if constexpr ((K & k_move) != 0) if (vp_choose(2, "move throws")) throw err{93}; vp_add(&live, 1); pad[N] = o.pad[N]; o.st = 2; }
  ~obj() { vp_check(st != 0, "a contained object is destroyed once"); st = 0; vp_add(&live, -1); }
  long get() const noexcept { vp_check(st == 1, "a contained object is used only while it is alive"); return pad[N]; }
  long more() const noexcept { return get() + 1; }
  void set(long x) noexcept { vp_check(st == 1, "a contained object is used only while it is alive"); pad[N] = x; }
  bool operator==(const obj& o) const noexcept { return pad[N] == o.pad[N]; }
};
template <class B> struct iget : an::__interface_base<iget, B, an::__extends<an::__icopyable, an::__iequality_comparable>> {
  using iget::__interface_base::__interface_base;
  virtual long get() const noexcept { return an::__value(*this).get(); }
  virtual void set(long x) noexcept { an::__value(*this).set(x); }
};
template <class B> struct imore : an::__interface_base<imore, B, an::__extends<iget>, 8 * sizeof(void*)> {
  using imore::__interface_base::__interface_base;
  virtual long more() const noexcept { return an::__value(*this).more(); }
};
using any = an::__any<iget>;
using many = an::__any<imore>;
using S0 = obj<0, 0>;                               // fits
using B0 = obj<9, 0>;                               // does not
using Sc = obj<0, k_copy>;
using Bc = obj<9, k_copy>;
using Sm = obj<0, k_copy | k_move>;                 // small, but may not live in the buffer
using Sk = obj<0, k_ctor>;
using Bk = obj<9, k_ctor>;
static void is(const any& a, long x) { vp_check(!an::__empty(a), "the container holds a value"); vp_check(a.get() == x, "it is the right value"); }
static void none_in(const any& a) { vp_check(an::__empty(a), "the container is empty"); }

struct T0 { static constexpr long id = 0; static any mk(long) { return any{}; } };
template <class O> struct mk_ { static any mk(long x) { return any(std::in_place_type<O>, x); } };
static any pick(int i, long x) { if (i == 1) return mk_<S0>::mk(x); if (i == 2) return mk_<B0>::mk(x); return any{}; }
static void same(const any& a, int i, long x) { if (i == 0) none_in(a); else is(a, x); }

VP_TEST(any_move) { heap_ok g; { int i = vp_choose(3, "what is moved"); any a = pick(i, 5); any b(std::move(a)); same(b, i, 5); none_in(a); any c; c = std::move(b); same(c, i, 5); none_in(b); any& r = c; c = std::move(r); same(c, i, 5); } }
VP_TEST(any_move_assign) { heap_ok g; { int i = vp_choose(3, "source"), j = vp_choose(3, "target"); any a = pick(i, 5), b = pick(j, 6); b = std::move(a); same(b, i, 5); none_in(a); } }
VP_TEST(any_copy) { heap_ok g; { int i = vp_choose(3, "what is copied"); any a = pick(i, 5); any b(a); same(a, i, 5); same(b, i, 5); if (i) { b.set(7); is(b, 7); is(a, 5); } a = b; same(a, i, i ? 7 : 5); any& r = a; a = r; same(a, i, 7); } }
VP_TEST(any_copy_assign) { heap_ok g; { int i = vp_choose(3, "source"), j = vp_choose(3, "target"); any a = pick(i, 5), b = pick(j, 6); b = a; same(b, i, 5); same(a, i, 5); } }
VP_TEST(any_swap) { heap_ok g; { int i = vp_choose(3, "left"), j = vp_choose(3, "right"); any a = pick(i, 5), b = pick(j, 6); swap(a, b); same(a, j, 6); same(b, i, 5); b.swap(b); same(b, i, 5); } }
VP_TEST(any_emplace) { heap_ok g; { int i = vp_choose(3, "before"); any a = pick(i, 5); if (vp_choose(2, "small")) { S0& s = a.emplace<S0>(8l); vp_check(s.get() == 8, "emplace returns the object"); } else { B0& s = a.emplace<B0>(8l); vp_check(s.get() == 8, "emplace returns the object"); } is(a, 8); a = S0(9l); is(a, 9); a = B0(10l); is(a, 10); an::__reset(a); none_in(a); } }
VP_TEST(any_emplace_value) { heap_ok g; { int i = vp_choose(3, "before"); any a = pick(i, 5); if (vp_choose(2, "small")) { S0 v(8l); a.emplace(v); is(a, 8); vp_check(v.get() == 8, "the argument is copied"); } else { B0& s = a.emplace(B0(8l)); vp_check(s.get() == 8, "emplace returns the object"); is(a, 8); } } }
template <int N> static void size_t_() { using O = obj<N, 0>; any a(std::in_place_type<O>, 5l); any b(std::in_place_type<O>, 6l); long x = 7; any c(a); b = c; vp_check(x == 7, "objects next to a container are left alone"); is(b, 5); any d(std::move(a)); is(d, 5); swap(b, d); is(d, 5); an::__any_cast<O>(&d)->set(9); is(d, 9); is(b, 5); }
VP_TEST(any_sizes) { heap_ok g; { int k = vp_choose(4, "size"); if (k == 0) size_t_<1>(); if (k == 1) size_t_<2>(); if (k == 2) size_t_<3>(); if (k == 3) size_t_<4>(); } }
VP_TEST(any_equal) { heap_ok g; { int i = vp_choose(3, "left"), j = vp_choose(3, "right"); long y = vp_choose(2, "same") ? 5 : 6; any a = pick(i, 5), b = pick(j, y); vp_check((a == b) == (i == j && (i == 0 || y == 5)), "equal exactly if both are empty or hold equal values of one type"); } }
template <class O> static void thr_ctor() { heap_ok g; { int i = vp_choose(3, "before"); any a = pick(i, 5); bool t = false; try { a.emplace<O>(8l); } catch (const err& e) { vp_check(e.e == 91, "the exception of the constructor"); t = true; } if (t) none_in(a); else is(a, 8);
  try { any b(std::in_place_type<O>, 3l); is(b, 3); } catch (const err& e) { vp_check(e.e == 91, "the exception of the constructor"); }
  try { any b(ex::__in_place_from, [] { return O(4l); }); is(b, 4); } catch (const err& e) { vp_check(e.e == 91, "the exception of the function"); } } }
VP_TEST(any_ctor_throws) { if (vp_choose(2, "small")) thr_ctor<Sk>(); else thr_ctor<Bk>(); }
template <class O> static void thr_copy() { heap_ok g; { any a(std::in_place_type<O>, 3l); try { any b(a); is(b, 3); } catch (const err& e) { vp_check(e.e == 92 || e.e == 93, "the exception of the copy or move"); } is(a, 3);
  int j = vp_choose(3, "target"); any c = pick(j, 5); try { c = a; is(c, 3); } catch (const err& e) { vp_check(e.e == 92 || e.e == 93, "the exception of the copy or move"); same(c, j, 5); } is(a, 3); any d(std::move(a)); is(d, 3); none_in(a); } }
VP_TEST(any_copy_throws) { int k = vp_choose(3, "which"); if (k == 0) thr_copy<Sc>(); else if (k == 1) thr_copy<Bc>(); else thr_copy<Sm>(); }
VP_TEST(any_from_value_throws) { heap_ok g; { try { Sm s(3l); any a(std::move(s)); is(a, 3); a = Sm(4l); is(a, 4); } catch (const err& e) { vp_check(e.e == 93, "the exception of the move"); } } }
VP_TEST(any_oom) { vp_config("oom", 1); heap_ok g; { any a; try { a = pick(2, 5); is(a, 5); any b(a); is(b, 5); is(a, 5); a.emplace<B0>(6l); is(a, 6); } catch (const std::bad_alloc&) { if (!an::__empty(a)) is(a, 5); } } }

// ---- from a derived interface to its base ----------------------------------------------------
template <class O> static void slice_t() { heap_ok g; { many m(std::in_place_type<O>, 5l); vp_check(m.more() == 6 && m.get() == 5, "the value"); any a(std::move(m)); is(a, 5); many n(std::in_place_type<O>, 6l); a = std::move(n); is(a, 6); many e; any f(std::move(e)); none_in(f); } }
VP_TEST(any_slice) { int k = vp_choose(3, "which"); if (k == 0) slice_t<S0>(); else if (k == 1) slice_t<B0>(); else slice_t<obj<4, 0>>(); }

// ---- references ------------------------------------------------------------------------------
VP_TEST(any_ptr) { heap_ok g; { S0 s(5l), t(6l); an::__any_ptr<iget> p; vp_check(p == nullptr, "null by default"); p = &s; vp_check(p != nullptr && p->get() == 5, "refers to the object"); an::__any_ptr<iget> q = p; vp_check(q == p && (*q).get() == 5, "a copy refers to the same object"); q->set(8); vp_check(s.get() == 8, "no copy is made"); q = &t; vp_check(q != p, "different objects"); swap(p, q); vp_check(p->get() == 6 && q->get() == 8, "swap"); an::__any_ptr<iget>& r = p; p = r; vp_check(p != nullptr && p->get() == 6, "self-assignment keeps the reference"); p = nullptr; vp_check(p == nullptr, "reset"); } }
VP_TEST(any_ptr_any) { heap_ok g; { int i = vp_choose(3, "what"); any a = pick(i, 5); an::__any_ptr<iget> p = &a; an::__any_cptr<iget> c = &*p; vp_check((p == nullptr) == (i == 0), "an empty container gives a null reference"); if (i) { p->set(7); is(a, 7); vp_check(c->get() == 7, "the same object"); } } }
VP_TEST(any_ptr_more) { heap_ok g; { many m; if (vp_choose(2, "small")) m.emplace<S0>(5l); else m.emplace<obj<12, 0>>(5l); an::__any_ptr<imore> p = &m; an::__any_ptr<iget> q = p; vp_check(q->get() == 5, "a base reference refers to the same object"); q->set(6); vp_check(m.more() == 7, "the same object"); S0 s(3l); p = &s; q = p; vp_check(q->get() == 3, "a base reference refers to the same object"); an::__any_cptr<iget> r = &*q; vp_check(r->get() == 3, "a const reference"); } }
VP_TEST(any_cast) { heap_ok g; { any a = pick(1 + vp_choose(2, "which"), 5); S0* s = an::__any_cast<S0>(&a); B0* b = an::__any_cast<B0>(&a); vp_check((s != nullptr) != (b != nullptr), "a cast succeeds for the contained type only"); vp_check((s ? s->get() : b->get()) == 5, "and gives the contained object"); bool t = false; try { an::__any_cast<S0>(a).set(9); } catch (const an::__bad_any_cast&) { t = true; } vp_check(t == (s == nullptr), "a wrong cast of a reference throws"); is(a, t ? 5 : 9); } }

// ---- any_sender: one opaque child --------------------------------------------------------------
template <class... Sigs> using anyr = xx::any_receiver<ex::completion_signatures<Sigs...>>;
using tokq = xx::queries<ex::inplace_stop_token(ex::get_stop_token_t) noexcept>;
template <class... Sigs> using anyr_t = xx::any_receiver<ex::completion_signatures<Sigs...>, tokq>;
template <class... Sigs> using asnd = xx::any_sender<anyr<Sigs...>>;
template <class... Sigs> using asnd_t = xx::any_sender<anyr_t<Sigs...>>;
// a child whose sender holds an object (small, large, or throwing when moved) and whose operation
// state has the given size
template <class R, int Id, int Pad, class... Sigs> struct pop : kid_op<R, Id, m_any, Sigs...> { long pad[Pad]; explicit pop(R&& x) : kid_op<R, Id, m_any, Sigs...>(static_cast<R&&>(x)) { vp_add(&live, 1); } ~pop() { vp_add(&live, -1); } };
template <class O, int Id, int Pad, class... Sigs> struct osnd {
  using sender_concept = ex::sender_tag;
  O o{Id + 40l};
  template <class, class...> static consteval auto get_completion_signatures() noexcept -> ex::completion_signatures<Sigs...> { return {}; }
  template <ex::receiver R> auto connect(R r) && -> pop<R, Id, Pad, Sigs...> { vp_check(o.get() == Id + 40, "the sender that is connected is the one that was erased"); return pop<R, Id, Pad, Sigs...>{static_cast<R&&>(r)}; }
};
using Om = obj<0, k_move>;
static void fin(run<asnd<VL, EE, SS>>& r) { r.start(); if (!kids[0].completed()) { r.o.expect_none(); fire(0); } r.o.expect_once(); if (kids[0].ch() == value) r.o.expect_value(kids[0].pay()); else if (kids[0].ch() == error) r.o.expect_error(kids[0].pay()); else r.o.expect_stopped(); }
template <class O, int Pad> static void as_t() { heap_ok g; try { asnd<VL, EE, SS> s{osnd<O, 0, Pad, VL, EE, SS>{}}; asnd<VL, EE, SS> t = std::move(s); run r{std::move(t)}; fin(r); } catch (const err& e) { vp_check(e.e == 93, "the exception of the move"); } }
VP_TEST(as_small) { as_t<S0, 1>(); }
VP_TEST(as_large) { as_t<B0, 20>(); }
VP_TEST(as_throwing) { as_t<Om, 1>(); }
template <class O> static void as_life_t() { heap_ok g; { using A = asnd<VL, EE, SS>; A a{osnd<O, 0, 1, VL, EE, SS>{}}; A b{osnd<S0, 1, 1, VL, EE, SS>{}};
  int k = vp_choose(5, "what happens to it");
  if (k == 1) { A c = std::move(a); a = std::move(c); }
  if (k == 2) b = std::move(a);
  if (k == 3) { swap(a, b); a = std::move(b); }
  if (k == 4) { run r{std::move(a)}; }
  if (k == 2) { run r{std::move(b)}; fin(r); } else if (k == 1 || k == 3) { run r{std::move(a)}; fin(r); } }
  vp_check(kids[1].connected() == 0 && (kids[0].started() != 0) == (kids[0].completed() != 0), "nothing else runs"); }
VP_TEST(as_lifetime) { if (vp_choose(2, "small")) as_life_t<S0>(); else as_life_t<B0>(); }
VP_TEST(as_oom) { vp_config("oom", 1); heap_ok g; try { asnd<VL, EE, SS> s{osnd<B0, 0, 20, VL, EE, SS>{}}; run r{std::move(s)}; fin(r); } catch (const std::bad_alloc&) { vp_check(kids[0].started() == 0, "no child is started"); } }
VP_TEST(as_connect_throws) { heap_ok g; bool t = false; try { asnd<VL> s{throwing_connect_snd<0, m_any, VL>{}}; run r{std::move(s)}; r.start(); if (!kids[0].completed()) fire(0); r.o.expect_once(); r.o.expect_value(kids[0].pay()); } catch (const err& e) { vp_check(e.e == 55, "the exception of connect"); t = true; } if (t) vp_check(kids[0].connected() == 0, "no operation was made"); }
VP_TEST(as_values) { heap_ok g; { run r{xx::any_sender<anyr<VV, EP>>{snd<0, m_any, VV, EP>{}}}; r.start(); if (!kids[0].completed()) fire(0); r.o.expect_once(); vp_check(r.o.ch() == kids[0].ch() && r.o.p() == kids[0].pay(), "the result of the child"); } }
VP_TEST(as_refs) { heap_ok g; long x = 4; { run r{xx::any_sender<anyr<ex::set_value_t(long&)>>{ex::just() | ex::then([&]() noexcept -> long& { return x; })}}; r.start(); r.o.expect_once(); r.o.expect_value(4); } }
struct mo { long v; explicit mo(long x) : v(x) { vp_add(&live, 1); } mo(mo&& o) noexcept : v(o.v) { o.v = -1; vp_add(&live, 1); } ~mo() { vp_add(&live, -1); } };
VP_TEST(as_move_only) { heap_ok g; if (vp_choose(2, "error")) { run r{ex::upon_error(xx::any_sender<anyr<V0, ex::set_error_t(mo)>>{ex::let_value(snd<0, m_inline, V0>{}, []() noexcept { return ex::just_error(mo{4}); })}, [](mo m) noexcept { vp_check(m.v == 4, "the error is moved"); })}; r.start(); r.o.expect_once(); }
  else { run r{ex::then(xx::any_sender<anyr<ex::set_value_t(mo)>>{ex::just(mo{3})}, [](mo m) noexcept { return m.v; })}; r.start(); r.o.expect_once(); r.o.expect_value(3); } }
VP_TEST(as_many) { heap_ok g; { run r{xx::any_sender<anyr<VL, V0, ex::set_value_t(long, long)>>{snd<0, m_any, VL, V0, ex::set_value_t(long, long)>{}}}; r.start(); if (!kids[0].completed()) fire(0); r.o.expect_once(); if (r.o.nargs()) r.o.expect_value(kids[0].pay()); } }
using AE = asnd<VL, EE, EP, SS>;
static void fin_e(run<AE>& r) { r.start(); if (!kids[0].completed()) { r.o.expect_none(); fire(0); } r.o.expect_once(); if (kids[0].ch() == value) r.o.expect_value(kids[0].pay()); else if (kids[0].ch() == error) r.o.expect_error(kids[0].pay()); else r.o.expect_stopped(); }
VP_TEST(as_nested) { heap_ok g; { AE a{osnd<B0, 0, 20, VL, EE, SS>{}}; AE b{ex::then(std::move(a), [](long v) { return v; })}; run<AE> r{std::move(b)}; fin_e(r); } }
VP_TEST(as_let) { heap_ok g; { run<AE> r{AE{ex::let_value(snd<1, m_inline, V0>{}, [] { return AE{osnd<S0, 0, 20, VL, EE, SS>{}}; })}}; fin_e(r); } }
// the operation may be destroyed by the receiver while the child completes: run does it always

// ---- stop tokens ---------------------------------------------------------------------------------
VP_TEST(as_stop) { heap_ok g; bool al = vp_choose(2, "already"); { run_stop r{asnd_t<VL, SS>{stop_snd<0, VL>{}}, al}; r.start(); if (!al) { r.o.expect_none(); if (vp_choose(2, "stop")) r.src.get().request_stop(); else fire(0); } r.o.expect_once(); vp_check(r.o.ch() == kids[0].ch(), "the result of the child"); if (al) r.o.expect_stopped(); } }
VP_TEST(as_stop_race) { vp_config("preempt", 2); heap_ok g; { ex::inplace_stop_source src; run r{asnd_t<VL, SS>{stop_snd<0, VL>{}}, stop_env{src.get_token()}}; r.start(); int a = spawn_fire(0), b = spawn_stop(src); vp_join(a); vp_join(b); r.o.expect_once(); } }
VP_TEST(as_stop_start_race) { vp_config("preempt", 2); heap_ok g; { ex::inplace_stop_source src; run r{asnd_t<VL, SS>{stop_snd<0, VL>{}}, stop_env{src.get_token()}}; int b = spawn_stop(src); r.start(); vp_join(b); r.o.expect_once(); r.o.expect_stopped(); } }
VP_TEST(as_stop_fire_race) { vp_config("preempt", 2); heap_ok g; { run_stop r{asnd_t<VL, SS>{stop_snd<0, VL>{}}}; int a = spawn_fire_started(0); r.start(); vp_join(a); r.o.expect_once(); } }
VP_TEST(as_never) { heap_ok g; { run r{asnd_t<VL, SS>{snd<0, m_any, VL, SS>{}}}; r.start(); if (!kids[0].completed()) { vp_check(!stop_seen(0), "never stopped"); fire(0); } r.o.expect_once(); } }
struct wtok { ex::inplace_stop_token t; template <class F> struct callback_type { ex::inplace_stop_callback<F> c; template <class G> callback_type(wtok k, G&& g) noexcept : c(k.t, static_cast<G&&>(g)) {} };
  bool stop_requested() const noexcept { return t.stop_requested(); } bool stop_possible() const noexcept { return t.stop_possible(); } bool operator==(const wtok& o) const noexcept { return t == o.t; } };
// a receiver whose environment the completion signatures cannot be computed for: connected directly
template <class S, class Env> struct run_raw { using R = rcv<Env>; using op_t = decltype(ex::connect(std::declval<S>(), std::declval<R>())); obs o; rcv_hooks h; box<op_t> b;
  run_raw(S s, Env e) : h{&o, [](void* p) { static_cast<run_raw*>(p)->b.destroy(); }, this} { b.emplace_from([&]() -> op_t { return ex::connect(static_cast<S&&>(s), R{&h, e}); }); }
  void start() noexcept { ex::start(b.get()); } ~run_raw() { if (b.full) b.destroy(); } };
struct wenv { wtok t; auto query(ex::get_stop_token_t) const noexcept { return t; } };
VP_TEST(as_foreign) { heap_ok g; bool al = vp_choose(2, "already"); { ex::inplace_stop_source src; if (al) src.request_stop(); run_raw r{asnd_t<VL, SS>{stop_snd<0, VL>{}}, wenv{{src.get_token()}}}; r.start(); if (!al) { r.o.expect_none(); if (vp_choose(2, "stop")) src.request_stop(); else fire(0); } r.o.expect_once(); vp_check(r.o.ch() == kids[0].ch(), "the result of the child"); if (al) r.o.expect_stopped(); } }
VP_TEST(as_foreign_race) { vp_config("preempt", 2); heap_ok g; { ex::inplace_stop_source src; run_raw r{asnd_t<VL, SS>{stop_snd<0, VL>{}}, wenv{{src.get_token()}}}; int b = spawn_stop(src); int a = spawn_fire_started(0); r.start(); vp_join(a); vp_join(b); r.o.expect_once(); } }

VP_TEST(as_foreign_error_race) { vp_config("preempt", 2); heap_ok g; { ex::inplace_stop_source src; run_raw r{asnd_t<EE, SS>{stop_snd<0, EE>{}}, wenv{{src.get_token()}}}; r.start(); int a = spawn_fire(0), b = spawn_stop(src); vp_join(a); vp_join(b); r.o.expect_once(); } }
// ---- queries of the receiver and of the sender ---------------------------------------------------------
struct q1_t : ex::forwarding_query_t { template <class E> auto operator()(const E& e) const noexcept -> decltype(e.query(*this)) { return e.query(*this); } static constexpr bool query(ex::forwarding_query_t) noexcept { return true; } };
struct q2_t { template <class E> auto operator()(const E& e, long x) const -> decltype(e.query(*this, static_cast<long&&>(x))) { return e.query(*this, static_cast<long&&>(x)); } static constexpr bool query(ex::forwarding_query_t) noexcept { return true; } };
struct qenv { long a; ex::inplace_stop_token t; auto query(q1_t) const noexcept -> long { return a; } auto query(q2_t, long x) const -> long { return a * 10 + x; } auto query(ex::get_stop_token_t) const noexcept { return t; } };
template <class R> struct qop { using operation_state_concept = ex::operation_state_tag; R r; void start() & noexcept { auto&& e = ex::get_env(r); long v = q1_t{}(e) * 100 + q2_t{}(e, 3); vp_check(ex::get_stop_token(e).stop_possible(), "the token is asked for through the erased receiver"); ex::set_value(static_cast<R&&>(r), v); } };
struct qsnd { using sender_concept = ex::sender_tag; template <class, class...> static consteval auto get_completion_signatures() noexcept -> ex::completion_signatures<VL> { return {}; }
  template <ex::receiver R> auto connect(R r) const -> qop<R> { return {static_cast<R&&>(r)}; }
  struct env { auto query(q1_t) const noexcept -> long { return 8; } }; auto get_env() const noexcept -> env { return {}; } };
using qrecv = xx::any_receiver<ex::completion_signatures<VL>, xx::queries<long(q1_t) noexcept, long(q2_t, long), ex::inplace_stop_token(ex::get_stop_token_t) noexcept>>;
VP_TEST(as_query) { heap_ok g; { ex::inplace_stop_source src; run r{xx::any_sender<qrecv>{qsnd{}}, qenv{6, src.get_token()}}; r.start(); r.o.expect_once(); r.o.expect_value(663); } }
VP_TEST(as_attrs) { heap_ok g; { xx::any_sender<qrecv, xx::queries<long(q1_t) noexcept>> s{qsnd{}}; vp_check(q1_t{}(ex::get_env(s)) == 8, "the attributes of the erased sender"); } }

// ---- any_receiver ------------------------------------------------------------------------------------------
VP_TEST(ar_owns) { heap_ok g; { obs o; rcv_hooks h{&o}; using AR = xx::any_receiver<ex::completion_signatures<VL, EE, SS>, xx::queries<long(q1_t) noexcept>>; AR a{rcv<qenv, ex::completion_signatures<VL, EE, SS>>{&h, {5, {}}}}; AR b{std::move(a)}; vp_check(q1_t{}(ex::get_env(b)) == 5, "the environment of the erased receiver"); int k = vp_choose(3, "completion"); if (k == 0) ex::set_value(std::move(b), 3l); else if (k == 1) ex::set_error(std::move(b), err{4}); else ex::set_stopped(std::move(b)); o.expect_once(); if (k == 0) o.expect_value(3); else if (k == 1) o.expect_error(4); else o.expect_stopped(); } }
VP_TEST(ar_op) { heap_ok g; { obs o; rcv_hooks h{&o}; using AR = anyr<VL, EE, SS>; auto op = ex::connect(snd<0, m_any, VL, EE, SS>{}, AR{rcv<>{&h}}); ex::start(op); if (!kids[0].completed()) fire(0); o.expect_once(); vp_check(o.ch() == kids[0].ch(), "the completion of the child"); } }

// ---- any_scheduler -------------------------------------------------------------------------------------------
template <int Id, int N> struct bsch { using scheduler_concept = ex::scheduler_tag; obj<N, 0> o; explicit bsch(long x) : o(x) {} auto schedule() const { vp_set(&kids[7].pay_, o.get()); return sch<Id, m_any, V0, EE, SS>{}.schedule(); } auto query(q1_t) const noexcept -> long { return o.get(); } bool operator==(const bsch&) const noexcept = default; };
using asch = xx::any_scheduler<asnd<V0, EE, SS>, xx::queries<long(q1_t) noexcept>>;
static asch mks(int i, long x) { if (i == 1) return asch{bsch<0, 0>(x)}; if (i == 2) return asch{bsch<0, 9>(x)}; return asch{bsch<1, 0>(x)}; }
VP_TEST(sch_equal) { heap_ok g; { int i = vp_choose(3, "left"), j = vp_choose(3, "right"); long y = vp_choose(2, "same") ? 5 : 6; asch a = mks(i, 5), b = mks(j, y); vp_check((a == b) == (i == j && y == 5), "equal exactly if the schedulers are"); vp_check((a != b) == !(a == b), "unequal otherwise"); asch c = b; vp_check(c == b, "a copy is equal"); a = b; vp_check(a == b, "an assigned copy is equal"); asch d = std::move(c); vp_check(d == b, "a moved scheduler is equal to what it was"); swap(a, d); vp_check(a == d, "swap"); } }
VP_TEST(sch_run) { heap_ok g; { int i = vp_choose(2, "size"); asch a = mks(1 + i, 5); auto s = ex::schedule(a); vp_check(ex::get_completion_scheduler<ex::set_value_t>(ex::get_env(s), ex::env<>{}) == a, "the sender names its scheduler"); vp_check(vp_get(&kids[7].pay_) == 5, "the erased scheduler is asked"); run r{std::move(s)}; r.start(); if (!kids[0].completed()) fire(0); r.o.expect_once(); vp_check(r.o.ch() == kids[0].ch(), "the completion of the erased scheduler"); } }
VP_TEST(sch_outlived) { heap_ok g; { auto s = ex::schedule(mks(2, 5)); run r{std::move(s)}; r.start(); if (!kids[0].completed()) fire(0); r.o.expect_once(); } }
VP_TEST(sch_query) { heap_ok g; { asch a = mks(2, 5); vp_check(q1_t{}(a) == 5, "queries reach the erased scheduler"); vp_check(ex::get_completion_scheduler<ex::set_value_t>(a, ex::env<>{}) == a, "a scheduler completes on itself"); } }
VP_TEST(sch_oom) { vp_config("oom", 1); heap_ok g; try { asch a = mks(2, 5); asch b = a; vp_check(a == b, "a copy is equal"); auto s = ex::schedule(b); run r{std::move(s)}; r.start(); if (!kids[0].completed()) fire(0); r.o.expect_once(); } catch (const std::bad_alloc&) {} }

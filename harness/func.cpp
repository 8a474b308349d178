// Senders made on demand: exec::function, and the allocators and memory resources its operations live in (P28)
#include "vp.hpp"
#include <cstddef>
#include <memory_resource>
#include <exec/function.hpp>
#include <stdexec/__detail/__any_allocator.hpp>
using namespace vp;
namespace xx = exec;
static char got[4], back[4], bytes[4], calls, live, seen;
struct balanced { long h = vp_heap(); ~balanced() { vp_check(vp_heap() == h, "everything allocated is released"); for (int i = 0; i < 4; ++i) { vp_check(vp_get(&got[i]) == vp_get(&back[i]), "each allocation goes back once to the allocator it came from"); vp_check(vp_get(&bytes[i]) == 0, "with the size it was allocated with"); } vp_check(vp_get(&live) == 0, "everything constructed is destroyed"); } };
struct fq_t : ex::__query<fq_t> { static constexpr bool query(ex::forwarding_query_t) noexcept { return true; } };
inline constexpr fq_t fq{};

// an allocator with an identity
template <class T, bool Thr = false> struct al {
  using value_type = T; long id;
  explicit al(long i) noexcept : id(i) {}
  template <class U> al(const al<U, Thr>& o) noexcept : id(o.id) {}
  template <class U> struct rebind { using other = al<U, Thr>; };
  T* allocate(std::size_t n) { if (Thr && vp_choose(2, "allocate throws")) throw std::bad_alloc{}; T* p = static_cast<T*>(::operator new(n * sizeof(T))); vp_add(&bytes[id], (long) (n * sizeof(T))); vp_add(&got[id], 1); return p; }
  void deallocate(T* p, std::size_t n) noexcept { vp_add(&bytes[id], -(long) (n * sizeof(T))); vp_add(&back[id], 1); ::operator delete(p); }
  template <class U> bool operator==(const al<U, Thr>& o) const noexcept { return id == o.id; }
};
// an operation too large for any buffer; its child may complete at once or later
struct obj { long v; char st = 1; explicit obj(long x) noexcept : v(x) { vp_add(&live, 1); } obj(obj&& o) noexcept : v(o.v) { vp_check(o.st == 1, "moved while alive"); vp_add(&live, 1); } ~obj() { vp_check(st == 1, "destroyed once"); st = 0; vp_add(&live, -1); } };
template <class Look, int Pad, int Id, int Mode, class... Sigs> struct bsnd {
  using sender_concept = ex::sender_tag; obj o; bool thr = false;
  template <class, class...> static consteval auto get_completion_signatures() noexcept -> ex::completion_signatures<Sigs...> { return {}; }
  template <class R> struct op { using operation_state_concept = ex::operation_state_tag; kid_op<R, Id, Mode, Sigs...> k; obj o; char pad[Pad]; void start() & noexcept { vp_check(o.st == 1, "started while alive"); Look::at(ex::get_env(k.r)); vp_add(&seen, 1); k.start(); } };
  template <ex::receiver R> auto connect(R r) && -> op<R> { if (thr && vp_choose(2, "connect throws")) throw err{55}; return op<R>{kid_op<R, Id, Mode, Sigs...>{static_cast<R&&>(r)}, static_cast<obj&&>(o), {}}; }
};
struct nolook { template <class E> static void at(const E&) noexcept {} };
template <class S> struct frun {                    // connects, starts, completes, destroys
  template <class Env> static void go(S s, Env env, long want) {
    obs o; rcv_hooks h{&o}; box<ex::connect_result_t<S, rcv<Env, ex::completion_signatures_of_t<S, Env>>>> b;
    b.emplace_from([&]() { return ex::connect(static_cast<S&&>(s), rcv<Env, ex::completion_signatures_of_t<S, Env>>{&h, env}); });
    vp_check(vp_get(&calls) == 1, "connecting makes the sender, once"); vp_check(kids[0].connected() == 1 && kids[0].started() == 0, "and connects it");
    ex::start(b.get()); vp_check(kids[0].started() == 1, "starting the operation starts the erased one");
    if (kids[0].pending()) { o.expect_none(); vp_check(kids[0].destroyed() == 0, "the erased operation is kept"); fire(0); }
    o.expect_once(); vp_check(o.ch() == kids[0].ch(), "what the erased sender completes with is passed on"); if (o.ch() != stopped && o.nargs()) vp_check(o.p() == kids[0].pay(), "with its values");
    b.destroy(); vp_check(kids[0].destroyed() == 1, "the erased operation is destroyed with its own"); (void) want;
  }
};
struct e0 {};
struct efa { long id; auto query(xx::get_frame_allocator_t) const noexcept { return al<std::byte>(id); } };
struct ea { long id; auto query(ex::get_allocator_t) const noexcept { return al<long>(id); } };
struct eboth { auto query(xx::get_frame_allocator_t) const noexcept { return al<std::byte>(2); } auto query(ex::get_allocator_t) const noexcept { return al<std::byte>(1); } };
struct ethr { auto query(xx::get_frame_allocator_t) const noexcept { return al<std::byte, true>(3); } };
using sigs = ex::completion_signatures<VV, EE, SS, EP>;
template <class... As> using fun = xx::function<ex::sender_tag(As...), sigs>;
template <class Look = nolook, int Pad = 300> using big = bsnd<Look, Pad, 0, m_any, VV, EE, SS>;
static void called() { vp_add(&calls, 1); }

VP_TEST(default_allocator) { { balanced g; fun<> f([]() noexcept { called(); return big<>{obj(1)}; }); vp_check(vp_get(&calls) == 0, "nothing is made before it is connected"); frun<fun<>>::go(static_cast<fun<>&&>(f), e0{}, 0); } vp_check(vp_get(&live) == 0, "destroyed"); }
VP_TEST(small) { balanced g; fun<> f([]() noexcept { called(); return snd<0, m_any, VV, EE, SS>{}; }); frun<fun<>>::go(static_cast<fun<>&&>(f), efa{2}, 2); }
VP_TEST(frame_allocator) { balanced g; fun<> f([]() noexcept { called(); return big<>{obj(1)}; }); frun<fun<>>::go(static_cast<fun<>&&>(f), efa{2}, 2); vp_check(vp_get(&got[2]) == 1, "the erased operation lives in memory of the frame allocator"); }
VP_TEST(allocator) { balanced g; fun<> f([]() noexcept { called(); return big<>{obj(1)}; }); frun<fun<>>::go(static_cast<fun<>&&>(f), ea{1}, 1); vp_check(vp_get(&got[1]) == 1, "without a frame allocator: in memory of the allocator"); }
VP_TEST(both_allocators) { balanced g; fun<> f([]() noexcept { called(); return big<>{obj(1)}; }); frun<fun<>>::go(static_cast<fun<>&&>(f), eboth{}, 2); vp_check(vp_get(&got[2]) == 1 && vp_get(&got[1]) == 0, "the frame allocator has precedence"); }
VP_TEST(allocation_fails) { vp_config("oom", 1); balanced g; fun<> f([]() { called(); return big<>{obj(1)}; });
  try { int k = vp_choose(3, "environment"); if (k == 0) frun<fun<>>::go(static_cast<fun<>&&>(f), e0{}, 0); if (k == 1) frun<fun<>>::go(static_cast<fun<>&&>(f), ethr{}, 3); if (k == 2) frun<fun<>>::go(static_cast<fun<>&&>(f), ea{1}, 1); }
  catch (const std::bad_alloc&) { vp_check(kids[0].started() == 0, "nothing is started"); vp_check(kids[0].connected() == kids[0].destroyed(), "nothing is left"); } }
VP_TEST(factory_throws) { balanced g; fun<> f([]() { called(); if (vp_choose(2, "factory throws")) throw err{21}; return big<>{obj(1), true}; });
  try { frun<fun<>>::go(static_cast<fun<>&&>(f), efa{2}, 2); } catch (const err& e) { vp_check(e.e == 21 || e.e == 55, "the exception reaches the caller of connect"); vp_check(kids[0].started() == 0 && kids[0].connected() == 0, "nothing is started"); } }
VP_TEST(arguments) { balanced g; { long a = vp_sym("a"), b = vp_sym("b"); vp_set(&seen, 0); using F = fun<val, long, const val&>; val r(3);
  F f(val(a), static_cast<long&&>(b), r, [](val x, long y, const val& z) noexcept { called(); vp_check(x.st == 1 && z.st == 1 && z.v == 3, "arguments arrive alive"); vp_set(&got[3], 0); vp_check(x.v == vp_get(&bytes[1] + 0) || true, ""); vp_set(&kids[1].pay_, x.v); vp_set(&kids[2].pay_, y); return big<>{obj(1)}; });
  frun<F>::go(static_cast<F&&>(f), efa{2}, 2); vp_check(kids[1].pay() == a && kids[2].pay() == b, "the factory is called with the arguments in order"); vp_check(r.st == 1, "an argument taken by reference stays"); } }
VP_TEST(factory_state) { balanced g; long a = vp_sym("a"); int k = vp_choose(2, "how it gets there"); { fun<> f([a]() noexcept { called(); vp_set(&kids[1].pay_, a); return big<>{obj(1)}; }); if (k) { fun<> h(static_cast<fun<>&&>(f)); frun<fun<>>::go(static_cast<fun<>&&>(h), efa{2}, 2); } else frun<fun<>>::go(static_cast<fun<>&&>(f), efa{2}, 2); vp_check(kids[1].pay() == a, "the factory keeps what it has captured"); } }
VP_TEST(order) { balanced g; using A = xx::function<ex::sender_tag(), ex::completion_signatures<VV, EE, SS, EP>>; using B = xx::function<ex::sender_tag(), ex::completion_signatures<EP, SS, VV, EE, SS, VV>>;
  vp_check(std::is_same_v<A, B>, "the order and the repetition of signatures do not matter"); B f([]() noexcept { called(); return big<>{obj(1)}; }); frun<B>::go(static_cast<B&&>(f), efa{2}, 2); }
VP_TEST(copies) { balanced g; { using F = fun<val>; F f(val(4), [](val x) noexcept { called(); vp_check(x.st == 1 && x.v == 4, "the argument arrives"); return big<>{obj(1)}; });
  obs o; rcv_hooks h{&o}; using S = ex::completion_signatures_of_t<const F&, efa>; using R = rcv<efa, S>;
  for (int i = 1; i < 3; ++i) { box<ex::connect_result_t<const F&, R>> b; b.emplace_from([&]() { return ex::connect(static_cast<const F&>(f), R{&h, efa{2}}); }); vp_check(vp_get(&calls) == i && vp_get(&got[2]) == i, "a function that is copied can be connected again"); b.destroy(); }
  vp_set(&calls, 0); vp_set(&kids[0].conn_, 0); vp_set(&kids[0].destroyed_, 0); F f2(f); frun<F>::go(static_cast<F&&>(f2), efa{2}, 2); } }
VP_TEST(argument_throws) { balanced g; { using F = fun<tval>; try { F f(tval(4), [](tval x) { called(); vp_check(x.st == 1 && x.v == 4, "the argument arrives"); return big<>{obj(1)}; }); frun<F>::go(static_cast<F&&>(f), efa{2}, 2); } catch (const err& e) { vp_check(e.e == 77 || e.e == 78, "the exception of the argument"); vp_check(kids[0].started() == 0, "nothing is started"); vp_check(kids[0].connected() == kids[0].destroyed(), "nothing is left"); } } }

// the environment the erased operation sees
struct see_fa { template <class E> static void at(const E& e) {                 // a working frame allocator is put in
  auto a = xx::get_frame_allocator(e); static_assert(std::is_same_v<decltype(a), std::pmr::polymorphic_allocator<std::byte>>); int k = vp_choose(4, "alignment"); std::size_t al = k == 0 ? 1 : k == 1 ? 8 : k == 2 ? 16 : 64, n = vp_choose(2, "size") ? 40 : 1;
  auto* r = a.resource(); void* p = r->allocate(n, al); vp_check(((unsigned long) p & (al - 1)) == 0, "memory is aligned as asked for"); static_cast<char*>(p)[0] = 1; static_cast<char*>(p)[n - 1] = 2; void* q = r->allocate(8, 8); static_cast<long*>(q)[0] = 3; vp_check(static_cast<char*>(p)[n - 1] != 3, "apart"); r->deallocate(p, n, al); r->deallocate(q, 8, 8); vp_check(r->is_equal(*a.resource()), "a resource equals itself"); } };
template <class Env> static void injected(Env env, int id, long n) { balanced g; fun<> f([]() noexcept { called(); return big<see_fa>{obj(1)}; }); frun<fun<>>::go(static_cast<fun<>&&>(f), env, id); if (id) vp_check(vp_get(&got[id]) == n, "what the erased operation allocates comes from the environment's allocator"); }
VP_TEST(injected_default) { injected(e0{}, 0, 0); }
VP_TEST(injected_frame) { injected(efa{2}, 2, 3); }
VP_TEST(injected_alloc) { injected(ea{1}, 1, 3); }
struct res : std::pmr::memory_resource { long id; explicit res(long i) noexcept : id(i) {}
  void* do_allocate(std::size_t n, std::size_t a) override { vp_add(&bytes[id], (long) n); vp_add(&got[id], 1); return ::operator new(n, std::align_val_t(a)); }
  void do_deallocate(void* p, std::size_t n, std::size_t a) override { vp_add(&bytes[id], -(long) n); vp_add(&back[id], 1); ::operator delete(p, std::align_val_t(a)); }
  bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; } };
struct eres { res* r; auto query(xx::get_frame_allocator_t) const noexcept { return r; } };
struct emr { std::pmr::memory_resource* r; auto query(xx::get_frame_allocator_t) const noexcept { return r; } };
VP_TEST(injected_resource) { res r(2); injected(emr{&r}, 2, 3); }
VP_TEST(injected_own_resource) { res r(2); injected(eres{&r}, 2, 3); }

struct see_q { template <class E> static void at(const E& e) noexcept { vp_check(fq(e) == 6, "a listed query is answered by the receiver's environment"); auto a = xx::get_frame_allocator(e); vp_check(a.id == 2, "a listed frame allocator is passed on as it is"); vp_check(ex::get_stop_token(e).stop_possible(), "a listed stop token is passed on"); vp_set(&got[3], ex::get_stop_token(e).stop_requested()); vp_set(&back[3], vp_get(&got[3])); } };
struct eq { ex::inplace_stop_token t; al<std::byte> query(xx::get_frame_allocator_t) const noexcept { return al<std::byte>(2); } long query(fq_t) const noexcept { return 6; } auto query(ex::get_stop_token_t) const noexcept { return t; } };
using qfun = xx::function<ex::sender_tag(), sigs, xx::queries<al<std::byte>(xx::get_frame_allocator_t) noexcept, long(fq_t) noexcept, ex::inplace_stop_token(ex::get_stop_token_t) noexcept>>;
VP_TEST(queries) { balanced g; { ex::inplace_stop_source src; int r = vp_choose(2, "stop requested"); if (r) src.request_stop(); qfun f([]() noexcept { called(); return big<see_q>{obj(1)}; }); frun<qfun>::go(static_cast<qfun&&>(f), eq{src.get_token()}, 2); vp_check(vp_get(&got[2]) == 1, "and used"); vp_check(vp_get(&got[3]) == r, "a stop request is seen"); } }
// the stop token of the receiver reaches the erased operation, and nothing stays registered with it
template <class F, class Env> struct srun { box<ex::inplace_stop_source> src; obs o; rcv_hooks h; using R = rcv<Env, sigs>; box<ex::connect_result_t<F, R>> b;
  static void gone(void* p) { auto* q = static_cast<srun*>(p); q->src.destroy(); q->b.destroy(); }
  explicit srun(F f, bool already) : h{&o, gone, this} { ::new (static_cast<void*>(src.mem)) ex::inplace_stop_source; src.full = true; if (already) src.get().request_stop(); b.emplace_from([&]() { return ex::connect(static_cast<F&&>(f), R{&h, Env{src.get().get_token()}}); }); } };
using sfun = xx::function<ex::sender_tag(), sigs, xx::queries<ex::inplace_stop_token(ex::get_stop_token_t) noexcept>>;
VP_TEST(stop_later) { balanced g; { int r = vp_choose(3, "stop requested"); srun<sfun, stop_env> x(sfun([]() noexcept { called(); return bsnd<nolook, 300, 0, m_later, VV, EE, SS>{obj(1)}; }), r == 1); ex::start(x.b.get()); vp_check(stop_seen(0) == (r == 1), "a stop request made before is seen"); if (r == 2) { x.src.get().request_stop(); vp_check(stop_seen(0), "a stop request reaches the erased operation"); } fire(0); x.o.expect_once(); vp_check(x.o.ch() == kids[0].ch(), "what the erased sender completes with is passed on"); } }
VP_TEST(stop_both) { balanced g; { srun<qfun, eq> x(qfun([]() noexcept { called(); return bsnd<nolook, 300, 0, m_later, VV, EE, SS>{obj(1)}; }), false); ex::start(x.b.get()); x.src.get().request_stop(); vp_check(stop_seen(0), "a stop request reaches the erased operation"); fire(0); x.o.expect_once(); } }
VP_TEST(stop_from_callback) { balanced g; { int r = vp_choose(2, "already"); srun<sfun, stop_env> x(sfun([]() noexcept { called(); return stop_snd<0, VV>{}; }), r); ex::start(x.b.get()); if (!r) { x.o.expect_none(); if (vp_choose(2, "stop")) { vp_check(kids[0].pending(), "it waits"); auto& s = x.src.get(); s.request_stop(); x.o.expect_stopped(); } else { fire(0); x.o.expect_value(kids[0].pay()); } } else x.o.expect_stopped(); x.o.expect_once(); } }
VP_TEST(unstoppable) { balanced g; { frun<sfun>::go(sfun([]() noexcept { called(); return big<>{obj(1)}; }), efa{2}, 2); } }
VP_TEST(stop_race) { vp_config("preempt", 2); balanced g; { ex::inplace_stop_source src; obs o; rcv_hooks h{&o}; using R = rcv<stop_env, sigs>; box<ex::connect_result_t<sfun, R>> b; b.emplace_from([&]() { return ex::connect(sfun([]() noexcept { called(); return stop_snd<0, VV>{}; }), R{&h, stop_env{src.get_token()}}); }); int t = spawn_stop(src); ex::start(b.get()); if (vp_choose(2, "complete")) fire(0); vp_join(t); o.expect_once(); if (o.ch() == value) vp_check(o.p() == kids[0].pay(), "with its value"); b.destroy(); } }
static void t_fire(void*) { fire_started(0); }
VP_TEST(another_thread) { balanced g; { obs o; using R = rcv<efa, sigs>; rcv_hooks h{&o}; box<ex::connect_result_t<fun<>, R>> b; b.emplace_from([&]() { return ex::connect(fun<>([]() noexcept { called(); return bsnd<nolook, 300, 0, m_later, VV, EE, SS>{obj(1)}; }), R{&h, efa{2}}); });
  vp_spawn(t_fire, nullptr, "completion"); ex::start(b.get()); vp_join_all(); o.expect_once(); vp_check(o.ch() == kids[0].ch(), "what the erased sender completes with is passed on"); b.destroy(); } }
static void drop(void* p) { auto* b = static_cast<box<ex::connect_result_t<fun<>, rcv<efa, sigs>>>*>(p); b->destroy(); }
VP_TEST(destroyed_by_completion) { balanced g; { obs o; using R = rcv<efa, sigs>; box<ex::connect_result_t<fun<>, R>> b; rcv_hooks h{&o, drop, &b}; b.emplace_from([&]() { return ex::connect(fun<>([]() noexcept { called(); return big<>{obj(1)}; }), R{&h, efa{2}}); }); ex::start(b.get()); if (kids[0].pending()) fire(0); o.expect_once(); vp_check(kids[0].destroyed() == 1, "all gone"); } }
VP_TEST(never_started) { balanced g; { obs o; using R = rcv<efa, sigs>; rcv_hooks h{&o}; { box<ex::connect_result_t<fun<>, R>> b; b.emplace_from([&]() { return ex::connect(fun<>([]() noexcept { called(); return big<>{obj(1)}; }), R{&h, efa{2}}); }); b.destroy(); } o.expect_none(); vp_check(kids[0].destroyed() == 1, "an operation that is never started is destroyed with its own"); } }

// --- the pieces ------------------------------------------------------------------------------
template <class A> static void adaptor(A a, bool mine) { balanced g; { xx::__memory_resource_adaptor_t<A> m(a); int k = vp_choose(8, "alignment"); std::size_t al = 1ul << k; int s = vp_choose(4, "size"); std::size_t n = s == 0 ? 1 : s == 1 ? 7 : s == 2 ? 64 : 129;
  std::pmr::memory_resource* r = std::addressof(m); char* p = static_cast<char*>(r->allocate(n, al)); vp_check(((unsigned long) p & (al - 1)) == 0, "memory is aligned as asked for"); for (std::size_t i = 0; i < n; ++i) p[i] = 5; if (mine) vp_check(vp_get(&got[a.id]) == 1, "it comes from the allocator"); r->deallocate(p, n, al); } }
struct dflt : std::allocator<std::byte> { long id = 0; };
VP_TEST(resource_of_allocator) { adaptor(al<std::byte>(1), true); }
VP_TEST(resource_of_other_allocator) { adaptor(al<double>(1), true); }
VP_TEST(resource_of_default) { balanced g; { xx::__memory_resource_adaptor_t<std::allocator<std::byte>> m{std::allocator<long>{}}; std::pmr::memory_resource* r = &m; int k = vp_choose(8, "alignment"); std::size_t a = 1ul << k; void* p = r->allocate(48, a); vp_check(((unsigned long) p & (a - 1)) == 0, "memory is aligned as asked for"); r->deallocate(p, 48, a); xx::__memory_resource_adaptor_t<std::allocator<std::byte>> m2{std::allocator<char>{}}; vp_check(*r == m2, "all resources over the default allocator are equal"); res o(1); vp_check(!(*r == o), "and differ from others"); } }
VP_TEST(resource_equality) { xx::__memory_resource_adaptor_t<al<std::byte>> a{al<std::byte>(1)}, b{al<long>(1)}, c{al<std::byte>(2)}; std::pmr::memory_resource &ra = a, &rb = b, &rc = c; vp_check(ra == rb && rb == ra, "resources over equal allocators are equal"); vp_check(!(ra == rc), "over different ones they differ"); res o(1); vp_check(!(ra == o), "and differ from others"); }
VP_TEST(resource_throws) { balanced g; { xx::__memory_resource_adaptor_t<al<std::byte, true>> m{al<std::byte, true>(1)}; std::pmr::memory_resource* r = &m; try { void* p = r->allocate(10, 4); r->deallocate(p, 10, 4); } catch (const std::bad_alloc&) { vp_check(vp_get(&got[1]) == 0, "nothing is allocated"); } } }
VP_TEST(frame_allocator_of_resource) { balanced g; { res r(1); using A = xx::__frame_allocator_t<res*>; A a(&r); using T = std::allocator_traits<A>; auto* p = T::allocate(a, 24); vp_check(vp_get(&bytes[1]) == 24, "as many as asked for"); A b(a); T::deallocate(b, p, 24); using L = T::rebind_alloc<long>; L l(a); auto* q = std::allocator_traits<L>::allocate(l, 3); vp_check(((unsigned long) q & 7) == 0, "aligned for its type"); vp_check(vp_get(&bytes[1]) == 24, "and large enough"); std::allocator_traits<L>::construct(l, q, 5l); vp_check(*q == 5, "constructed"); std::allocator_traits<L>::destroy(l, q); std::allocator_traits<L>::deallocate(l, q, 3); vp_check(b.resource() == &r && l.resource() == &r, "copies refer to the same resource"); } }
using AA = ex::__any_allocator<long>;
template <class Al> static void erased(Al a) { balanced g; { AA x(a); vp_check(x.has_value(), "it holds the allocator"); AA y(x); vp_check(x == y, "a copy is equal"); long* p = x.allocate(5); vp_check(vp_get(&got[a.id]) == 1 && vp_get(&bytes[a.id]) == 40, "memory comes from the allocator that was put in"); p[4] = 1; y.deallocate(p, 5); vp_check(vp_get(&bytes[a.id]) == 0, "and goes back to it");
  ex::__any_allocator<char> c(x); char* q = c.allocate(3); vp_check(vp_get(&bytes[a.id]) == 3, "rebound: as many bytes as asked for"); c.deallocate(q, 3); AA z(c); vp_check(z == x, "rebinding back gives the same allocator"); AA w{Al(2)}; vp_check(!(w == x), "different allocators differ"); w = x; vp_check(w == x, "assignment"); AA e; vp_check(!e.has_value() && !(e == x), "an empty one differs"); ex::__any_allocator<char> f(e); vp_check(!f.has_value(), "empty stays empty"); } }
VP_TEST(any_allocator) { erased(al<long>(1)); }

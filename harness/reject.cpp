// programs the library has to reject; VPFAIL == 0 is the well-formed twin of each of them
#include "wit.hpp"
#include <exec/repeat_until.hpp>
#include <exec/sequence.hpp>
#include <exec/finally.hpp>
#include <exec/any_sender_of.hpp>
#ifndef VPFAIL
#  define VPFAIL 0
#endif
using namespace w;
WIT(true);
// ---- receivers that do not handle everything the sender can send
struct v_only { using receiver_concept = ex::receiver_tag; void set_value(auto&&...) noexcept; };
struct ve { using receiver_concept = ex::receiver_tag; void set_value(auto&&...) noexcept; void set_error(auto&&) noexcept; };
template <class S, class R> void conn(S s, R r) { auto o = ex::connect(std::move(s), std::move(r)); ex::start(o); }
#if VPFAIL == 5 // a receiver without set_stopped connected to a sender that can be stopped
inline void f5() { conn(ex::just_stopped(), ve{}); }
#endif
#if VPFAIL == 6 // a receiver without set_error connected to then() of a throwing function
inline void f6() { conn(ex::then(ex::just(), fn<void, false>{}), v_only{}); }
#endif
#if VPFAIL == 0
inline void f0() { conn(snd<V<>>{}, v_only{}); conn(ex::then(ex::just(), fn<void>{}), v_only{}); conn(ex::just_error(1), ve{}); }
#endif
// ---- functions that do not accept what they would be called with
struct fi { int operator()(int) const; };
struct fe { int operator()(E1) const; };
struct li { snd<V<>> operator()(int) const; };
#if VPFAIL == 7 // then() with a function that does not accept the values
inline void f7() { conn(ex::then(snd<V<N>>{}, fi{}), rcv<>{}); }
#endif
#if VPFAIL == 8 // upon_error() with a function that does not accept one of the errors
inline void f8() { conn(ex::upon_error(snd<V<>, E<E1>, E<E2>>{}, fe{}), rcv<>{}); }
#endif
#if VPFAIL == 9 // let_value() with a function that does not return a sender
inline void f9() { conn(ex::let_value(snd<V<int>>{}, fi{}), rcv<>{}); }
#endif
#if VPFAIL == 10 // let_value() with a function that does not accept one of the value packs
inline void f10() { conn(ex::let_value(snd<V<int>, V<N>>{}, li{}), rcv<>{}); }
#endif
#if VPFAIL == 11 // bulk with a function that does not accept the index and the values
inline void f11() { conn(ex::bulk(snd<V<N>>{}, ex::par, 3, fi{}), rcv<>{}); }
#endif
#if VPFAIL == 0
inline void g0() { conn(ex::then(snd<V<int>>{}, fi{}), rcv<>{}); conn(ex::upon_error(snd<V<>, E<E1>>{}, fe{}), rcv<>{}); conn(ex::let_value(snd<V<int>>{}, li{}), rcv<>{}); conn(ex::bulk(snd<V<N>>{}, ex::par, 3, fn<void>{}), rcv<>{}); }
#endif
// ---- shapes of completions
#if VPFAIL == 12 // when_all of a sender with two ways to complete with values
inline void f12() { conn(ex::when_all(snd<V<int>, V<N>>{}, snd<V<>>{}), rcv<>{}); }
#endif
#if VPFAIL == 13 // sync_wait of a sender with two ways to complete with values
inline void f13() { ex::sync_wait(snd<V<int>, V<N>>{}); }
#endif
#if VPFAIL == 14 // sync_wait of a sender that never completes with values
inline void f14() { ex::sync_wait(snd<SS>{}); }
#endif
#if VPFAIL == 16 // stopped_as_optional of no value
inline void f16() { conn(ex::stopped_as_optional(snd<V<>, SS>{}), rcv<>{}); }
#endif
#if VPFAIL == 17 // repeat_until of a sender whose value is not a condition
inline void f17() { conn(exec::repeat_until(snd<V<N>>{}), rcv<>{}); }
#endif
#if VPFAIL == 18 // exec::sequence with a non-final sender that sends a value
inline void f18() { conn(exec::sequence(ex::just(1), ex::just()), rcv<>{}); }
#endif
#if VPFAIL == 19 // spawning work that can fail into a scope
inline void f19(ex::counting_scope& s) { ex::spawn(snd<V<>, E<E1>>{}, s.get_token()); }
#endif
#if VPFAIL == 20 // start_detached-like spawn of work that sends a value
inline void f20(ex::counting_scope& s) { ex::spawn(ex::just(1), s.get_token()); }
#endif
#if VPFAIL == 0
inline void h0(ex::counting_scope& s) {
  conn(ex::when_all(snd<V<int>>{}, snd<V<>>{}), rcv<>{}); ex::sync_wait(snd<V<int>, SS>{}); conn(ex::stopped_as_optional(snd<V<int>, SS>{}), rcv<>{});
  conn(exec::repeat_until(snd<V<bool>>{}), rcv<>{}); conn(exec::sequence(snd<V<>>{}, snd<V<N>>{}), rcv<>{}); ex::spawn(snd<V<>, SS>{}, s.get_token());
}
#endif
#ifdef __clang__   // (g++: the library declares the move constructor without defining it)
WIT_NOT(std::is_move_constructible_v<ex::connect_result_t<decltype(ex::then(snd<V<>>{}, fn<void>{})), rcv<>>>);
WIT_NOT(std::is_move_constructible_v<ex::connect_result_t<decltype(ex::when_all(snd<V<>>{}, snd<V<>>{})), rcv<>>>);
#endif
WIT_NOT(std::is_copy_constructible_v<ex::connect_result_t<decltype(ex::then(snd<V<>>{}, fn<void>{})), rcv<>>>);
WIT_NOT(std::is_copy_constructible_v<ex::inplace_stop_source>); WIT_NOT(std::is_move_constructible_v<ex::inplace_stop_source>);
// ---- ownership: one-shot senders, operations that are not movable
#if VPFAIL == 21 // connecting a move-only sender without giving it up
inline void f21(msnd<V<>>& s) { auto o = ex::connect(s, rcv<>{}); ex::start(o); }
#endif
#if VPFAIL == 22 // connecting then() of a move-only sender as an lvalue
inline void f22(msnd<V<>> s) { auto t = ex::then(std::move(s), fn<void>{}); auto o = ex::connect(t, rcv<>{}); ex::start(o); }
#endif
#if VPFAIL == 24 // copying just() of a move-only value
inline auto f24() { auto s = ex::just(std::declval<M(&)()>()()); auto t = s; return t; }
#endif
#if VPFAIL == 25 // any_receiver of fewer completions than the sender has
inline void f25() { exec::any_sender<exec::any_receiver<ex::completion_signatures<V<>>>> s{snd<V<>, SS>{}}; }
#endif
#if VPFAIL == 0
M mk();
inline void k0(msnd<V<>> s) {
  auto t = ex::then(std::move(s), fn<void>{}); auto o = ex::connect(std::move(t), rcv<>{}); ex::start(o);
  auto p = ex::just(mk()); auto q = std::move(p); conn(std::move(q), rcv<>{});
  exec::any_sender<exec::any_receiver<ex::completion_signatures<V<>, SS>>> a{snd<V<>, SS>{}};
}
#endif

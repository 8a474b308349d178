// operations declared noexcept really cannot throw; those that cannot throw are declared so
#include "wit.hpp"
#include <exec/any_sender_of.hpp>
#include <exec/create.hpp>
#include <exec/materialize.hpp>
#include <exec/into_tuple.hpp>
#include <exec/just_from.hpp>
#include <exec/repeat_until.hpp>
#include <exec/repeat_n.hpp>
#include <exec/sequence.hpp>
#include <exec/finally.hpp>
#include <exec/fork_join.hpp>
#include <exec/unless_stop_requested.hpp>
#include <exec/variant_sender.hpp>
#include <exec/when_any.hpp>
#include <exec/split.hpp>
#include <exec/ensure_started.hpp>
#include <exec/async_scope.hpp>
#include <exec/static_thread_pool.hpp>
#include <exec/trampoline_scheduler.hpp>
#include <exec/inline_scheduler.hpp>
#include <stdexec/__detail/__stop_when.hpp>
using namespace w;
template <class S, class R = rcv<>> concept nc = noexcept(ex::connect(std::declval<S>(), std::declval<R>()));
template <class S, class R = rcv<>> concept cn = requires { ex::connect(std::declval<S>(), std::declval<R>()); };
template <class S, class R = rcv<>> concept tc = cn<S, R> && !nc<S, R>;   // connects, and that may throw
// a function whose own copies and moves throw (calling it does not); a scheduler whose sender's connect throws
struct tf { tf(tf&&) noexcept(false); tf(const tf&) noexcept(false); template <class... A> void operator()(A&&...) const noexcept; };
struct tl { tl(tl&&) noexcept(false); tl(const tl&) noexcept(false); template <class... A> auto operator()(A&&...) const noexcept -> snd<V<>>; };
struct tsch {
  using scheduler_concept = ex::scheduler_tag;
  struct env { auto query(ex::get_completion_scheduler_t<ex::set_value_t>) const noexcept -> tsch; auto query(ex::get_completion_scheduler_t<ex::set_stopped_t>) const noexcept -> tsch; };
  struct sender : tsnd<V<>, SS> { auto get_env() const noexcept -> env; };
  auto schedule() const noexcept -> sender;
  bool operator==(const tsch&) const noexcept;
};
struct tj { tj(tj&&) noexcept(false); tj(const tj&) noexcept(false); template <class S> auto operator()(S s) const noexcept { return s(1); } };
// a receiver whose move throws
struct tr : rcv<> { tr(tr&&) noexcept(false); tr(const tr&) noexcept(false); };
#define AS template <class X> using
#define DV std::declval
using S0 = snd<V<>>;
AS a_then = decltype(ex::then(DV<X>(), fn<void>{}));
AS a_upon_error = decltype(ex::upon_error(DV<X>(), fn<void>{}));
AS a_upon_stopped = decltype(ex::upon_stopped(DV<X>(), fn<void>{}));
AS a_let_value = decltype(ex::let_value(DV<X>(), fn<S0>{}));
AS a_let_error = decltype(ex::let_error(DV<X>(), fn<S0>{}));
AS a_let_stopped = decltype(ex::let_stopped(DV<X>(), fn<S0>{}));
AS a_when_all = decltype(ex::when_all(DV<X>(), S0{}));
AS a_when_all2 = decltype(ex::when_all(S0{}, DV<X>()));
AS a_into_variant = decltype(ex::into_variant(DV<X>()));
AS a_continues_on = decltype(ex::continues_on(DV<X>(), sch<V<>>{}));
AS a_starts_on = decltype(ex::starts_on(sch<V<>>{}, DV<X>()));
AS a_bulk = decltype(ex::bulk(DV<X>(), ex::par, 3, fn<void>{}));
AS a_bulk_chunked = decltype(ex::bulk_chunked(DV<X>(), ex::par, 3, fn<void>{}));
AS a_write_env = decltype(ex::write_env(DV<X>(), ex::env<>{}));
AS a_unstoppable = decltype(ex::unstoppable(DV<X>()));
AS a_stop_when = decltype(ex::__stop_when(DV<X>(), ex::inplace_stop_token{}));
AS a_optional = decltype(ex::stopped_as_optional(ex::then(DV<X>(), fn<int>{})));
AS a_error = decltype(ex::stopped_as_error(DV<X>(), 1));
AS a_sequence = decltype(exec::sequence(DV<X>(), S0{}));
AS a_finally = decltype(exec::finally(DV<X>(), S0{}));
AS a_finally2 = decltype(exec::finally(S0{}, DV<X>()));
AS a_when_any = decltype(exec::when_any(DV<X>(), S0{}));
AS a_when_any2 = decltype(exec::when_any(S0{}, DV<X>()));
AS a_repeat_n = decltype(exec::repeat_n(DV<X>(), 3));
AS a_repeat = decltype(exec::repeat(DV<X>()));
AS a_materialize = decltype(exec::materialize(DV<X>()));
AS a_unless = decltype(exec::unless_stop_requested(DV<X>()));
AS a_into_tuple = decltype(exec::into_tuple(DV<X>()));
AS a_fork_join = decltype(exec::fork_join(DV<X>(), ex::then(fn<void>{})));
// nothing that is connected throws: connect is noexcept. What is connected throws: connect is not noexcept
#define EXACT(A) WIT(nc<A<snd<V<>>>>); WIT(nc<const A<snd<V<>>>&>); WIT(tc<A<tsnd<V<>>>>); WIT(tc<const A<tsnd<V<>>>&>)
#define SOUND(A) WIT(cn<A<snd<V<>>>>); WIT(tc<A<tsnd<V<>>>>); WIT(tc<const A<tsnd<V<>>>&>)
EXACT(a_then); EXACT(a_upon_error); EXACT(a_upon_stopped); EXACT(a_let_value); EXACT(a_let_error); EXACT(a_let_stopped);
EXACT(a_when_all); EXACT(a_when_all2); EXACT(a_into_variant); EXACT(a_continues_on);
EXACT(a_write_env); EXACT(a_unstoppable); EXACT(a_stop_when); EXACT(a_optional); EXACT(a_error);
EXACT(a_when_any); EXACT(a_when_any2); EXACT(a_materialize); EXACT(a_unless);
SOUND(a_bulk); SOUND(a_bulk_chunked); SOUND(a_finally); SOUND(a_finally2); SOUND(a_repeat_n); SOUND(a_repeat);
SOUND(a_into_tuple); SOUND(a_fork_join); SOUND(a_sequence);
WIT(cn<a_starts_on<S0>>); WIT(cn<decltype(exec::sequence(S0{}, DV<tsnd<V<>>>()))>);
// the scheduler's own sender is connected with the rest
WIT(tc<decltype(ex::continues_on(S0{}, tsch{}))>);
WIT(tc<decltype(ex::starts_on(tsch{}, S0{}))>);
WIT(tc<decltype(exec::fork_join(S0{}, ex::continues_on(tsch{})))>);
// stored functions and values are moved or copied into the operation
WIT(tc<decltype(ex::then(S0{}, DV<tf>()))>); WIT(tc<const decltype(ex::then(S0{}, DV<tf>()))&>);
WIT(tc<decltype(ex::upon_error(S0{}, DV<tf>()))>); WIT(tc<decltype(ex::upon_stopped(S0{}, DV<tf>()))>);
WIT(tc<decltype(ex::let_value(S0{}, DV<tl>()))>); WIT(tc<const decltype(ex::let_value(S0{}, DV<tl>()))&>);
WIT(tc<decltype(ex::let_error(S0{}, DV<tl>()))>); WIT(tc<decltype(ex::let_stopped(S0{}, DV<tl>()))>);
WIT(tc<decltype(ex::bulk(S0{}, ex::par, 3, DV<tf>()))>);
WIT(tc<decltype(exec::fork_join(S0{}, ex::then(DV<tf>())))>);
WIT(nc<decltype(ex::just(1, DV<C>()))>); WIT(tc<const decltype(ex::just(1, DV<C>()))&>); WIT(tc<decltype(ex::just(1, DV<T>()))>);
WIT(nc<decltype(ex::just_error(DV<C>()))>); WIT(tc<const decltype(ex::just_error(DV<C>()))&>);
WIT(nc<decltype(ex::read_env(ex::get_stop_token))>); WIT(nc<decltype(ex::just_stopped())>);
WIT(nc<exec::variant_sender<S0, snd<V<int>>>>); WIT(tc<exec::variant_sender<S0, tsnd<V<int>>>>); WIT(tc<exec::variant_sender<tsnd<V<int>>, S0>>);
WIT(tc<decltype(exec::just_from(DV<tj>()))>); WIT(tc<const decltype(exec::just_from(DV<tj>()))&>);
WIT(tc<decltype(exec::repeat_until(tsnd<V<bool>>{}))>);
// receivers must be movable without throwing: adaptors move them in noexcept functions
WIT_NOT(ex::receiver<tr>); WIT_NOT(cn<S0, tr>); WIT_NOT(cn<a_then<S0>, tr>);
// into a scope
using tok = ex::simple_counting_scope::token;
WIT(nc<decltype(ex::associate(S0{}, DV<tok>()))>); WIT(tc<decltype(ex::associate(tsnd<V<>>{}, DV<tok>()))>); WIT(tc<const decltype(ex::associate(DV<tcsnd<V<>>>(), DV<tok>()))&>);
WIT(nc<decltype(exec::dematerialize(exec::materialize(S0{})))>); WIT(tc<decltype(exec::dematerialize(exec::materialize(tsnd<V<>>{})))>);
// connect of a sender that allocates
WIT(tc<exec::any_sender<exec::any_receiver<ex::completion_signatures<V<>>>>>);
// start, get_env, schedule, and the operations of a stop source never throw
template <class S> concept ns = noexcept(ex::start(std::declval<ex::connect_result_t<S, rcv<>>&>())) && noexcept(ex::get_env(std::declval<const S&>()));
#define NS(...) WIT(ns<__VA_ARGS__>)
NS(decltype(ex::just(DV<T>()))); NS(a_then<S0>); NS(a_let_value<S0>); NS(a_when_all<S0>); NS(a_continues_on<S0>); NS(a_starts_on<S0>); NS(a_when_any<S0>); NS(a_finally<S0>);
NS(a_repeat_n<S0>); NS(a_fork_join<S0>); NS(a_sequence<S0>); NS(a_write_env<S0>); NS(a_into_variant<S0>); NS(a_bulk<S0>); NS(a_stop_when<S0>); NS(a_materialize<S0>); NS(a_unless<S0>);
NS(a_upon_error<S0>); NS(a_into_tuple<S0>); NS(decltype(exec::split(S0{}))); NS(decltype(exec::ensure_started(S0{})));
template <class S> concept nsch = noexcept(ex::schedule(std::declval<S>())) && std::is_nothrow_copy_constructible_v<S> && std::is_nothrow_move_constructible_v<S> && noexcept(std::declval<const S&>() == std::declval<const S&>());
WIT(nsch<ex::inline_scheduler>); WIT(nsch<decltype(std::declval<ex::run_loop&>().get_scheduler())>); WIT(nsch<exec::trampoline_scheduler>); WIT(nsch<decltype(std::declval<exec::static_thread_pool&>().get_scheduler())>);
using ISS = ex::inplace_stop_source; using IST = ex::inplace_stop_token;
WIT(noexcept(DV<ISS&>().request_stop())); WIT(noexcept(DV<const ISS&>().get_token())); WIT(noexcept(DV<const ISS&>().stop_requested()));
WIT(noexcept(DV<const IST&>().stop_requested())); WIT(noexcept(DV<const IST&>().stop_possible())); WIT(noexcept(DV<const IST&>() == DV<const IST&>()));
WIT(std::is_nothrow_copy_constructible_v<IST>); WIT(std::is_nothrow_move_constructible_v<IST>); WIT(std::is_nothrow_copy_assignable_v<IST>);
template <class F> using icb = ex::inplace_stop_callback<F>;
WIT(std::is_nothrow_constructible_v<icb<fn<void>>, IST, fn<void>>); WIT(std::is_nothrow_destructible_v<icb<fn<void>>>);
WIT_NOT(std::is_nothrow_constructible_v<icb<tf>, IST, tf>); WIT_NOT(std::is_copy_constructible_v<icb<fn<void>>>); WIT_NOT(std::is_move_constructible_v<icb<fn<void>>>);
// creating a sender stores functions, values and children: noexcept only if that cannot throw
using TC = tcsnd<V<>>; using TCS = tcsnd<V<>, SS>;
WIT(noexcept(ex::just(1, DV<N>()))); WIT(noexcept(ex::just(DV<C>()))); WIT_NOT(noexcept(ex::just(DV<const C&>()))); WIT_NOT(noexcept(ex::just(DV<T>())));
WIT(noexcept(ex::just_error(DV<C>()))); WIT_NOT(noexcept(ex::just_error(DV<const C&>()))); WIT(noexcept(ex::just_stopped()));
#define MAYTHROW(...) WIT_NOT(noexcept(__VA_ARGS__))
MAYTHROW(ex::then(S0{}, DV<tf>())); MAYTHROW(ex::then(DV<TC>(), fn<void>{})); MAYTHROW(ex::upon_error(S0{}, DV<tf>())); MAYTHROW(ex::upon_error(DV<tf>()));
MAYTHROW(ex::upon_stopped(S0{}, DV<tf>())); MAYTHROW(ex::upon_stopped(DV<tf>())); MAYTHROW(ex::then(DV<tf>())); MAYTHROW(ex::let_value(S0{}, DV<tl>())); MAYTHROW(ex::let_value(DV<tl>()));
MAYTHROW(ex::when_all(S0{}, DV<TC>())); MAYTHROW(ex::when_all(DV<TC>())); MAYTHROW(ex::when_all(DV<TC>(), S0{})); MAYTHROW(ex::continues_on(DV<TC>(), sch<V<>>{})); MAYTHROW(ex::starts_on(sch<V<>>{}, DV<TC>()));
MAYTHROW(exec::when_any(S0{}, DV<TC>())); MAYTHROW(exec::when_any(DV<TC>())); MAYTHROW(exec::materialize(DV<TC>())); MAYTHROW(exec::fork_join(S0{}, ex::then(DV<tf>())));
MAYTHROW(exec::variant_sender<S0, TC>(DV<TC>())); MAYTHROW(exec::just_from(DV<tj>())); MAYTHROW(ex::associate(DV<TC>(), DV<ex::simple_counting_scope::token>()));
WIT(noexcept(ex::associate(S0{}, DV<ex::simple_counting_scope::token>())));
// senders are moved and copied as their parts are
template <class S> inline constexpr bool nmove = std::is_nothrow_move_constructible_v<S>;
template <class S> inline constexpr bool ncopy = std::is_nothrow_copy_constructible_v<S>;
#define PARTS(...) WIT(nmove<decltype(__VA_ARGS__)>)
#define TPARTS(...) WIT_NOT(nmove<decltype(__VA_ARGS__)>)
PARTS(ex::then(S0{}, fn<void>{})); PARTS(ex::just(DV<C>())); PARTS(ex::associate(S0{}, DV<ex::simple_counting_scope::token>())); PARTS(exec::variant_sender<S0, snd<V<int>>>{S0{}});
TPARTS(ex::then(S0{}, DV<tf>())); TPARTS(ex::just(DV<T>())); TPARTS(ex::associate(DV<TC>(), DV<ex::simple_counting_scope::token>())); TPARTS(exec::variant_sender<S0, TC>{S0{}});
WIT_NOT(ncopy<decltype(ex::just(DV<C>()))>); WIT_NOT(ncopy<decltype(ex::associate(DV<TC>(), DV<ex::simple_counting_scope::token>()))>); WIT_NOT(ncopy<exec::variant_sender<S0, TC>>);
WIT_NOT(noexcept(DV<a_then<tsnd<V<>>>>().connect(rcv<>{}))); WIT_NOT(noexcept(DV<const a_then<tsnd<V<>>>&>().connect(rcv<>{}))); WIT(noexcept(DV<a_then<S0>>().connect(rcv<>{})));

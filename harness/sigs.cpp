// the completion signatures each sender advertises are exactly those it can complete with
#include "wit.hpp"
#include <exec/create.hpp>
#include <exec/materialize.hpp>
#include <exec/into_tuple.hpp>
#include <exec/just_from.hpp>
#include <exec/repeat_until.hpp>
#include <exec/repeat_n.hpp>
#include <exec/sequence.hpp>
#include <exec/finally.hpp>
#include <exec/fork_join.hpp>
#include <exec/unless_stop_requested.hpp>
#include <exec/variant_sender.hpp>
#include <exec/when_any.hpp>
#include <exec/ensure_started.hpp>
#include <exec/split.hpp>
using namespace w;
template <class F> using on_v = decltype(ex::then(std::declval<snd<V<N>, E<E1>, SS>>(), std::declval<F>()));
// ---- sources
WIT(sigs<decltype(ex::just()), V<>>);
WIT(sigs<decltype(ex::just(std::declval<N>(), 1)), V<N, int>>);
WIT(sigs<decltype(ex::just(std::declval<const N&>(), std::declval<int&>())), V<N, int>>);
WIT(sigs<decltype(ex::just_error(std::declval<E1>())), E<E1>>);
WIT(sigs<decltype(ex::just_stopped()), SS>);
WIT(sigs_in<decltype(ex::read_env(ex::get_stop_token)), stop_env, V<ex::inplace_stop_token>>);
WIT(sigs<decltype(ex::read_env(ex::get_stop_token)), V<ex::never_stop_token>>);
struct tq_t { template <class Env> auto operator()(const Env& e) const noexcept(false) -> int; };
WIT(sigs<decltype(ex::read_env(tq_t{})), V<int>, EP>);
// ---- then, upon_error, upon_stopped
WIT(sigs<on_v<fn<N2>>, V<N2>, E<E1>, SS>);
WIT(sigs<on_v<fn<void>>, V<>, E<E1>, SS>);
WIT(sigs<on_v<fn<N2, false>>, V<N2>, E<E1>, SS, EP>);
WIT(sigs<on_v<fn<N2&>>, V<N2&>, E<E1>, SS>);
WIT(sigs<on_v<fn<N2&&>>, V<N2&&>, E<E1>, SS>);
WIT(sigs<decltype(ex::then(snd<V<N>, V<>>{}, fn<N2>{})), V<N2>>);
WIT(sigs<decltype(ex::then(snd<E<E1>>{}, fn<N2>{})), E<E1>>);
struct pick { auto operator()(int) const noexcept -> N; auto operator()(N) const -> N2; };
WIT(sigs<decltype(ex::then(snd<V<int>, V<N>>{}, pick{})), V<N>, V<N2>, EP>);
WIT(sigs<decltype(ex::then(snd<V<int>, E<int>>{}, pick{})), V<N>, E<int>>);
WIT(sigs<decltype(ex::upon_error(snd<V<N>, E<E1>, E<E2>, SS>{}, fn<N2>{})), V<N>, V<N2>, SS>);
WIT(sigs<decltype(ex::upon_error(snd<V<N>, E<E1>, SS>{}, fn<N>{})), V<N>, SS>);
WIT(sigs<decltype(ex::upon_error(snd<V<N>, E<E1>, SS>{}, fn<void, false>{})), V<N>, V<>, SS, EP>);
WIT(sigs<decltype(ex::upon_error(snd<V<N>, SS>{}, fn<void, false>{})), V<N>, SS>);
WIT(sigs<decltype(ex::upon_stopped(snd<V<N>, E<E1>, SS>{}, fn<N2>{})), V<N>, V<N2>, E<E1>>);
WIT(sigs<decltype(ex::upon_stopped(snd<V<N>, E<E1>, SS>{}, fn<N2, false>{})), V<N>, V<N2>, E<E1>, EP>);
WIT(sigs<decltype(ex::upon_stopped(snd<V<N>, E<E1>>{}, fn<N2>{})), V<N>, E<E1>>);
// ---- let_*
using LV = snd<V<N2>, E<E2>>;
WIT(sigs<decltype(ex::let_value(snd<V<N>, E<E1>, SS>{}, fn<LV>{})), V<N2>, E<E2>, E<E1>, SS>);
WIT(sigs<decltype(ex::let_value(snd<V<N>, E<E1>, SS>{}, fn<LV, false>{})), V<N2>, E<E2>, E<E1>, SS, EP>);
WIT(sigs<decltype(ex::let_value(snd<V<T>, SS>{}, fn<LV>{})), V<N2>, E<E2>, SS, EP>);
WIT(sigs<decltype(ex::let_value(snd<V<const C&>, SS>{}, fn<LV>{})), V<N2>, E<E2>, SS, EP>);
WIT(sigs<decltype(ex::let_value(snd<V<C>, SS>{}, fn<LV>{})), V<N2>, E<E2>, SS>);
WIT(sigs<decltype(ex::let_value(snd<V<N>, SS>{}, fn<tsnd<V<N2>>>{})), V<N2>, SS, EP>);
WIT(sigs<decltype(ex::let_value(snd<E<E1>>{}, fn<LV>{})), E<E1>>);
WIT(sigs<decltype(ex::let_error(snd<V<N>, E<E1>, SS>{}, fn<LV>{})), V<N>, V<N2>, E<E2>, SS>);
WIT(sigs<decltype(ex::let_error(snd<V<N>, E<T>, SS>{}, fn<LV>{})), V<N>, V<N2>, E<E2>, SS, EP>);
WIT(sigs<decltype(ex::let_error(snd<V<N>, E<E1>, SS>{}, fn<LV, false>{})), V<N>, V<N2>, E<E2>, SS, EP>);
WIT(sigs<decltype(ex::let_stopped(snd<V<N>, E<E1>, SS>{}, fn<LV>{})), V<N>, V<N2>, E<E1>, E<E2>>);
WIT(sigs<decltype(ex::let_stopped(snd<V<N>, E<E1>, SS>{}, fn<LV, false>{})), V<N>, V<N2>, E<E1>, E<E2>, EP>);
WIT(sigs<decltype(ex::let_stopped(snd<V<N>, E<E1>>{}, fn<LV, false>{})), V<N>, E<E1>>);
// the function of let_value sees decayed lvalues
struct lv { auto operator()(N&, int&) const noexcept -> LV; };
WIT(sigs<decltype(ex::let_value(snd<V<const N&, int&>>{}, lv{})), V<N2>, E<E2>>);
// ---- when_all
WIT(sigs<decltype(ex::when_all(snd<V<N>>{}, snd<V<N2, int>>{})), V<N, N2, int>>);
WIT(sigs<decltype(ex::when_all(snd<V<N>, E<E1>>{}, snd<V<>, E<E2>, SS>{})), V<N>, E<E1>, E<E2>, SS>);
WIT(sigs<decltype(ex::when_all(snd<V<T>>{}, snd<V<>>{})), V<T>, EP>);
WIT(sigs<decltype(ex::when_all(snd<E<E1>>{}, snd<V<>>{})), E<E1>>);
WIT(sigs<decltype(ex::when_all(snd<E<T>>{}, snd<V<>>{})), E<T>, EP>);
WIT(sigs_in<decltype(ex::when_all(snd<V<N>>{}, snd<V<N2>>{})), stop_env, V<N, N2>>);
WIT(sigs_ep<decltype(ex::when_all_with_variant(snd<V<N>>{}, snd<V<N2>>{})), V<std::variant<std::tuple<N>>, std::variant<std::tuple<N2>>>>);
// ---- into_variant, stopped_as_*
WIT(sigs_ep<decltype(ex::into_variant(snd<V<N, int>, E<E1>, SS>{})), V<std::variant<std::tuple<N, int>>>, E<E1>, SS>);
WIT(sigs<decltype(ex::into_variant(snd<V<T>, E<E1>>{})), V<std::variant<std::tuple<T>>>, E<E1>, EP>);
WIT(sigs<decltype(ex::stopped_as_optional(snd<V<N>, E<E1>, SS>{})), V<std::optional<N>>, E<E1>>);
WIT(sigs<decltype(ex::stopped_as_error(snd<V<N>, E<E1>, SS>{}, std::declval<E2>())), V<N>, E<E1>, E<E2>>);
// ---- continues_on, starts_on, on
using SC = sch<V<>, SS>; using SF = sch<V<>, E<E2>, SS>;
WIT(sigs<decltype(ex::schedule(SC{})), V<>, SS>);
WIT(sigs<decltype(ex::continues_on(snd<V<N>, E<E1>>{}, SC{})), V<N>, E<E1>, SS>);
WIT(sigs<decltype(ex::continues_on(snd<V<N>>{}, sch<V<>>{})), V<N>>);
WIT(sigs<decltype(ex::continues_on(snd<V<N>, E<E1>>{}, SF{})), V<N>, E<E1>, E<E2>, SS>);
WIT(sigs<decltype(ex::continues_on(snd<V<T>>{}, sch<V<>>{})), V<T>, EP>);
WIT(sigs<decltype(ex::continues_on(snd<V<const C&>>{}, sch<V<>>{})), V<C>, EP>);
WIT(sigs<decltype(ex::starts_on(SC{}, snd<V<N>, E<E1>>{})), V<N>, E<E1>, SS>);
WIT(sigs<decltype(ex::starts_on(SF{}, snd<V<N>, E<E1>>{})), V<N>, E<E1>, E<E2>, SS>);
// ---- bulk
WIT(sigs<decltype(ex::bulk(snd<V<N>, E<E1>, SS>{}, ex::par, 3, fn<void>{})), V<N>, E<E1>, SS>);
WIT(sigs<decltype(ex::bulk(snd<V<N>, E<E1>, SS>{}, ex::par, 3, fn<void, false>{})), V<N>, E<E1>, SS, EP>);
WIT(sigs<decltype(ex::bulk_chunked(snd<V<N>, E<E1>>{}, ex::seq, 3, fn<void, false>{})), V<N>, E<E1>, EP>);
WIT(sigs<decltype(ex::bulk_unchunked(snd<V<N>, E<E1>>{}, ex::seq, 3, fn<void>{})), V<N>, E<E1>>);
// ---- write_env, unstoppable, split, ensure_started
WIT(sigs<decltype(ex::write_env(snd<V<N>, E<E1>, SS>{}, ex::prop(ex::get_stop_token, ex::never_stop_token{}))), V<N>, E<E1>, SS>);
WIT(sigs_in<decltype(ex::unstoppable(ex::read_env(ex::get_stop_token))), stop_env, V<ex::never_stop_token>>);
// ---- exec
using A = snd<V<N>, E<E1>, SS>; using B = snd<V<N2>, E<E2>>; using A0 = snd<V<>, E<E1>, SS>;
using sv = ex::set_value_t; using se = ex::set_error_t; using st = ex::set_stopped_t;
WIT(sigs<decltype(exec::materialize(A{})), V<sv, N>, V<se, E1>, V<st>>);
WIT(sigs<decltype(exec::dematerialize(exec::materialize(A{}))), V<N>, E<E1>, SS>);
WIT(sigs_ep<decltype(exec::into_tuple(snd<V<N, N2>, E<E1>, SS>{})), V<std::tuple<N, N2>>, E<E1>, SS>);
WIT(sigs<decltype(exec::into_tuple(snd<V<T>>{})), V<std::tuple<T>>, EP>);
struct jf { template <class S> auto operator()(S s) const noexcept { return s(1, N()); } };
struct jft { template <class S> auto operator()(S s) const noexcept(false) { return s(1); } };
WIT(sigs<decltype(exec::just_from(jf{})), V<int, N>>);
WIT(sigs<decltype(exec::just_from(jft{})), V<int>, EP>);
WIT(sigs<decltype(exec::repeat_until(snd<V<bool>, E<E1>, SS>{})), V<>, E<E1>, SS>);
WIT(sigs<decltype(exec::repeat_until(snd<V<bool>>{})), V<>>);
WIT(sigs_in<decltype(exec::repeat_until(snd<V<bool>>{})), stop_env, V<>, SS>);
WIT(sigs_in<decltype(exec::repeat_until(snd<V<bool>>{})), never_env, V<>>);
WIT(sigs<decltype(exec::repeat_until(tsnd<V<bool>>{})), V<>, EP>);
WIT(sigs<decltype(exec::repeat(snd<V<>, E<E1>>{})), E<E1>>);
WIT(sigs_in<decltype(exec::repeat(snd<V<>, E<E1>>{})), stop_env, E<E1>, SS>);
WIT(sigs_ep<decltype(exec::repeat_n(A0{}, 3)), V<>, E<E1>, SS>);
WIT(sigs<decltype(exec::repeat_n(tsnd<V<>>{}, 3)), V<>, EP>);
WIT(sigs<decltype(exec::sequence(A{})), V<N>, E<E1>, SS>);
WIT(sigs<decltype(exec::sequence(A0{}, B{})), V<N2>, E<E1>, E<E2>, SS>);
WIT(sigs<decltype(exec::sequence(snd<V<>>{}, A0{}, B{})), V<N2>, E<E1>, E<E2>, SS>);
WIT(sigs<decltype(exec::sequence(snd<V<>>{}, tsnd<V<N2>>{})), V<N2>, EP>);
WIT(sigs<decltype(exec::sequence(tsnd<V<>>{}, snd<V<N2>>{})), V<N2>>);
WIT(sigs<decltype(exec::finally(A{}, snd<V<>, E<E2>>{})), V<N>, E<E1>, E<E2>, SS>);
WIT(sigs<decltype(exec::finally(snd<V<T>>{}, snd<V<>>{})), V<T>, EP>);
WIT(sigs<decltype(exec::finally(snd<V<N>>{}, snd<V<>, SS>{})), V<N>, SS>);
WIT(sigs<decltype(exec::unless_stop_requested(A{})), V<N>, E<E1>, SS>);
WIT(sigs<decltype(exec::unless_stop_requested(snd<V<N>>{})), V<N>>);
WIT(sigs_in<decltype(exec::unless_stop_requested(snd<V<N>>{})), stop_env, V<N>, SS>);
WIT(sigs_in<decltype(exec::unless_stop_requested(snd<V<N>>{})), never_env, V<N>>);
WIT(sigs<exec::variant_sender<A, B>, V<N>, V<N2>, E<E1>, E<E2>, SS>);
WIT(sigs<decltype(exec::when_any(A{}, B{})), V<N>, V<N2>, E<E1>, E<E2>, SS>);
WIT(sigs<decltype(exec::when_any(snd<V<T>>{})), V<T>, EP, SS>);
WIT(sigs<decltype(exec::when_any(snd<E<T>>{}, snd<V<N>>{})), V<N>, E<T>, EP, SS>);
WIT(sigs<decltype(exec::split(A{})), V<const N&>, E<const E1&>, E<const std::exception_ptr&>, SS>);
WIT(sigs<decltype(exec::split(snd<V<T>>{})), V<const T&>, E<const std::exception_ptr&>, SS>);
WIT(sigs<decltype(exec::ensure_started(A{})), V<N>, E<E1>, EP, SS>);
WIT(sigs<decltype(exec::ensure_started(snd<V<T>>{})), V<T>, EP, SS>);
WIT(sigs<decltype(ex::__stop_when(A{}, ex::inplace_stop_token{})), V<N>, E<E1>, SS>);
WIT(sigs<decltype(exec::fork_join(snd<V<N>>{}, ex::then(fn<N2>{}))), V<N2>>);
// ---- a stack of adaptors, and independence of how the sender is spelled
WIT(sigs<decltype(A{} | ex::then(fn<N2>{}) | ex::upon_error(fn<N2>{}) | ex::let_stopped(fn<B>{})), V<N2>, E<E2>>);
WIT(sigs<decltype(ex::then(fn<N2>{}) (A{})), V<N2>, E<E1>, SS>);
WIT(sigs<decltype(A{} | (ex::then(fn<N2, false>{}) | ex::upon_stopped(fn<N>{}))), V<N2>, V<N>, E<E1>, EP>);
WIT(sigs<const decltype(ex::then(A{}, fn<N2>{}))&, V<N2>, E<E1>, SS>);
// ---- what is not a sender, a receiver, or is used with the wrong arguments is rejected
template <class S, class F> concept can_then = requires(S s, F f) { ex::connect(ex::then(s, f), rcv<>{}); };
WIT(can_then<snd<V<int>>, fn<void>>);
struct only_n { void operator()(N) const; };
WIT_NOT(ex::sender<int>); WIT_NOT(ex::receiver<int>); WIT_NOT(ex::scheduler<int>); WIT_NOT(ex::operation_state<int>);
struct v_only { using receiver_concept = ex::receiver_tag; void set_value(auto&&...) noexcept; };
WIT_NOT(ex::receiver_of<v_only, ex::completion_signatures<V<>, SS>>);
WIT_NOT(ex::receiver_of<v_only, ex::completion_signatures<V<>, E<int>>>);
WIT(ex::receiver_of<v_only, ex::completion_signatures<V<>, V<int>>>);
struct int_only { using receiver_concept = ex::receiver_tag; void set_value(int) noexcept; };
WIT_NOT(ex::receiver_of<int_only, ex::completion_signatures<V<int>, V<int, int>>>);
WIT(ex::sender_to<snd<V<N>>, rcv<>>);
WIT_NOT(ex::sender_to<A, v_only>);
WIT(sigs<decltype(exec::fork_join(snd<V<T>>{}, ex::then(fn<N2>{}))), V<N2>, E<const std::exception_ptr&>>);
WIT(sigs<decltype(exec::fork_join(snd<V<T>>{}, ex::then(fn<void>{}), ex::then(fn<N2>{}))), V<N2>, EP>);
WIT(sigs<decltype(exec::fork_join(snd<V<int&>, E<E1>, SS>{}, ex::then(fn<N2>{}))), V<N2>, E<const E1&>, SS>);
WIT(sigs<decltype(exec::split(snd<V<int&>>{})), V<const int&>, E<const std::exception_ptr&>, SS>);
WIT(sigs<decltype(exec::ensure_started(snd<V<int&>, E<const E1&>>{})), V<int>, E<E1>, EP, SS>);
WIT(sigs<decltype(exec::finally(snd<V<int&>, E<const E1&>>{}, snd<V<>>{})), V<int>, E<E1>>);
WIT(sigs<decltype(exec::when_any(snd<V<const N&>, E<const E1&>>{})), V<N>, E<E1>, SS>);
WIT(sigs<decltype(ex::let_value(snd<V<int&>, E<const E1&>>{}, fn<LV>{})), V<N2>, E<E2>, E<const E1&>>);
WIT(sigs<decltype(ex::continues_on(snd<V<int&>, E<const E1&>>{}, sch<V<>>{})), V<int>, E<E1>>);
WIT(sigs<decltype(ex::bulk(snd<V<int&>, E<const E1&>>{}, ex::par, 3, fn<void>{})), V<int&>, E<const E1&>>);
WIT(sigs<const decltype(ex::just(std::declval<C>()))&, V<C>>);
WIT(sigs<decltype(exec::finally(snd<V<int>, E<T>>{}, snd<V<>>{})), V<int>, E<T>, EP>);

// completion behaviour: an adaptor claims to complete inline, or where it was started, only if
// everything that can lead to that completion does
#include "wit.hpp"
#include <exec/completion_behavior.hpp>
#include <exec/static_thread_pool.hpp>
#include <exec/single_thread_context.hpp>
#include <exec/finally.hpp>
#include <exec/fork_join.hpp>
#include <exec/materialize.hpp>
#include <exec/into_tuple.hpp>
#include <exec/repeat_n.hpp>
#include <exec/repeat_until.hpp>
#include <exec/sequence.hpp>
#include <exec/split.hpp>
#include <exec/ensure_started.hpp>
#include <exec/unless_stop_requested.hpp>
#include <exec/variant_sender.hpp>
#include <exec/when_any.hpp>
#include <stdexec/__detail/__stop_when.hpp>
using namespace w;
using cb = exec::completion_behavior;
using I = cb::inline_completion_t; using X = cb::unknown_t; using Y = cb::asynchronous_t; using G = cb::asynchronous_affine_t;
// a sender that says how it completes, per channel
template <class BV, class BE, class BS, class... Sigs> struct bs : snd<Sigs...> {
  struct at {
    constexpr auto query(exec::get_completion_behavior_t<ex::set_value_t>, auto&&...) const noexcept { return BV{}; }
    constexpr auto query(exec::get_completion_behavior_t<ex::set_error_t>, auto&&...) const noexcept { return BE{}; }
    constexpr auto query(exec::get_completion_behavior_t<ex::set_stopped_t>, auto&&...) const noexcept { return BS{}; }
  };
  auto get_env() const noexcept -> at { return {}; }
};
template <class BV, class BE = I, class BS = I> struct bsch {
  using scheduler_concept = ex::scheduler_tag;
  struct env { auto query(ex::get_completion_scheduler_t<ex::set_value_t>) const noexcept -> bsch { return {}; } auto query(ex::get_completion_scheduler_t<ex::set_stopped_t>) const noexcept -> bsch { return {}; }
    constexpr auto query(exec::get_completion_behavior_t<ex::set_value_t>, auto&&...) const noexcept { return BV{}; }
    constexpr auto query(exec::get_completion_behavior_t<ex::set_error_t>, auto&&...) const noexcept { return BE{}; }
    constexpr auto query(exec::get_completion_behavior_t<ex::set_stopped_t>, auto&&...) const noexcept { return BS{}; } };
  struct sender : snd<V<>> { auto get_env() const noexcept -> env { return {}; } };
  auto schedule() const noexcept -> sender { return {}; }
  bool operator==(const bsch&) const noexcept { return true; }
};
struct e0 { auto query(ex::get_start_scheduler_t) const noexcept { return bsch<Y>{}; } auto query(ex::get_scheduler_t) const noexcept { return bsch<Y>{}; } };
template <class S, class T> inline constexpr auto beh = exec::get_completion_behavior<T, S, e0>();
template <class S, class T> concept aff = cb::is_affine(std::integral_constant<std::remove_const_t<decltype(beh<S, T>)>, beh<S, T>>{});
template <class S> concept all_aff = (ex::__never_sends<ex::set_value_t, S, e0> || aff<S, ex::set_value_t>) && (ex::__never_sends<ex::set_error_t, S, e0> || aff<S, ex::set_error_t>) && (ex::__never_sends<ex::set_stopped_t, S, e0> || aff<S, ex::set_stopped_t>);
using TV = ex::set_value_t; using TE = ex::set_error_t; using TS = ex::set_stopped_t;
// children that complete inline on every channel but one
using xv = bs<X, I, I, V<>, E<E1>, SS>; using xe = bs<I, X, I, V<>, E<E1>, SS>; using xs = bs<I, I, X, V<>, E<E1>, SS>;
using in = bs<I, I, I, V<>, E<E1>, SS>;
template <class S> struct mk { template <class... A> S operator()(A&&...) const noexcept; };
// whatever is not known to complete where it started makes the whole not known to, so that affine()
// goes back to the scheduler
#define SAME(...) WIT_NOT(all_aff<__VA_ARGS__>)
template <class S> using a_then = decltype(ex::then(S{}, fn<void>{}));
SAME(a_then<xv>); SAME(a_then<xe>); SAME(a_then<xs>);
template <class S> using a_thent = decltype(ex::then(S{}, fn<void, false>{}));
SAME(a_thent<xv>);
template <class S> using a_ue = decltype(ex::upon_error(S{}, fn<void>{}));
SAME(a_ue<xv>); SAME(a_ue<xe>); SAME(a_ue<xs>);
template <class S> using a_us = decltype(ex::upon_stopped(S{}, fn<void>{}));
SAME(a_us<xv>); SAME(a_us<xs>); SAME(a_us<xe>);
template <class S, class R = in> using a_lv = decltype(ex::let_value(S{}, mk<R>{}));
SAME(a_lv<xv>); SAME(a_lv<xe>); SAME(a_lv<xs>); SAME(a_lv<in, xv>); SAME(a_lv<in, xe>); SAME(a_lv<in, xs>);
template <class S, class R = in> using a_le = decltype(ex::let_error(S{}, mk<R>{}));
SAME(a_le<xv>); SAME(a_le<xe>); SAME(a_le<xs>); SAME(a_le<in, xv>); SAME(a_le<in, xe>); SAME(a_le<in, xs>);
template <class S, class R = in> using a_ls = decltype(ex::let_stopped(S{}, mk<R>{}));
SAME(a_ls<xv>); SAME(a_ls<xs>); SAME(a_ls<xe>); SAME(a_ls<in, xv>); SAME(a_ls<in, xe>); SAME(a_ls<in, xs>);
template <class... S> using a_wa = decltype(ex::when_all(S{}...));
SAME(a_wa<xv>); SAME(a_wa<xe>); SAME(a_wa<xs>); SAME(a_wa<xv, in>); SAME(a_wa<in, xv>); SAME(a_wa<xe, in>); SAME(a_wa<in, xs>);
template <class S> using a_iv = decltype(ex::into_variant(S{}));
SAME(a_iv<xv>); SAME(a_iv<xe>); SAME(a_iv<xs>);
template <class S> using a_so = decltype(ex::stopped_as_optional(S{}));
template <class BV, class BE, class BS> using n1 = bs<BV, BE, BS, V<N>, E<E1>, SS>;
SAME(a_so<n1<X, I, I>>); SAME(a_so<n1<I, I, X>>); SAME(a_so<n1<I, X, I>>);
template <class S> using a_se = decltype(ex::stopped_as_error(S{}, std::declval<E2>()));
SAME(a_se<xv>); SAME(a_se<xs>); SAME(a_se<xe>);
template <class S> using a_bulk = decltype(ex::bulk(S{}, ex::par, 2, fn<void>{}));
SAME(a_bulk<xv>); SAME(a_bulk<xe>); SAME(a_bulk<xs>);
template <class S> using a_bulkt = decltype(ex::bulk(S{}, ex::par, 2, fn<void, false>{}));
SAME(a_bulkt<xv>);
template <class S, class Sc = bsch<I>> using a_co = decltype(ex::continues_on(S{}, Sc{}));
SAME(a_co<xv>); SAME(a_co<xe>); SAME(a_co<xs>); SAME(a_co<in, bsch<X>>); SAME(a_co<in, bsch<Y>>);
template <class S, class Sc = bsch<I>> using a_st = decltype(ex::starts_on(Sc{}, S{}));
SAME(a_st<xv>); SAME(a_st<xe>); SAME(a_st<xs>); SAME(a_st<in, bsch<Y>>);
template <class... S> using a_sq = decltype(exec::sequence(S{}...));
SAME(a_sq<xv, in>); SAME(a_sq<in, xv>); SAME(a_sq<in, xe>); SAME(a_sq<in, xs>); SAME(a_sq<xe, in>); SAME(a_sq<xs, in>); SAME(a_sq<in, in, xv>); SAME(a_sq<in, xv, in>);
template <class S, class F = bs<I, I, I, V<>>> using a_fin = decltype(exec::finally(S{}, F{}));
SAME(a_fin<xv>); SAME(a_fin<xe>); SAME(a_fin<xs>); SAME(a_fin<in, bs<X, I, I, V<>>>);
template <class... S> using a_any = decltype(exec::when_any(S{}...));
SAME(a_any<xv, in>); SAME(a_any<in, xv>); SAME(a_any<xe, in>); SAME(a_any<in, xs>);
template <class S> using a_mat = decltype(exec::materialize(S{}));
SAME(a_mat<xv>); SAME(a_mat<xe>); SAME(a_mat<xs>);
template <class S> using a_it = decltype(exec::into_tuple(S{}));
SAME(a_it<xv>); SAME(a_it<xe>); SAME(a_it<xs>);
template <class S> using a_un = decltype(exec::unless_stop_requested(S{}));
SAME(a_un<xv>); SAME(a_un<xe>); SAME(a_un<xs>);
template <class S> using a_rn = decltype(exec::repeat_n(S{}, 2));
SAME(a_rn<xv>); SAME(a_rn<xe>); SAME(a_rn<xs>);
template <class S, class... F> using a_fj = decltype(exec::fork_join(S{}, std::declval<F>()...));
template <class S> using clet = decltype(ex::let_value(std::declval<mk<S>>()));
using cxv = clet<xv>; using cxs = clet<xs>; using cin = clet<in>;
SAME(a_fj<xv, cin>); SAME(a_fj<xe, cin>); SAME(a_fj<xs, cin>); SAME(a_fj<in, cxv>); SAME(a_fj<in, cxv, cin>); SAME(a_fj<in, cin, cxs>);
template <class S> using a_we = decltype(ex::write_env(S{}, ex::env<>{}));
SAME(a_we<xv>); SAME(a_we<xe>); SAME(a_we<xs>);
template <class S> using a_sp = decltype(exec::split(S{})); template <class S> using a_es = decltype(exec::ensure_started(S{}));
SAME(a_sp<in>); SAME(a_es<in>);
template <class... S> using a_vs = exec::variant_sender<S...>;
SAME(a_vs<xv, in>); SAME(a_vs<in, xv>); SAME(a_vs<in, xe>);
template <class S> using a_sw = decltype(ex::__stop_when(S{}, ex::inplace_stop_token{}));
SAME(a_sw<xv>); SAME(a_sw<xe>); SAME(a_sw<xs>);
template <class S> using a_on = decltype(ex::on(bsch<Y>{}, S{}));
SAME(a_on<in>);
// schedulers
SAME(decltype(std::declval<ex::run_loop&>().get_scheduler().schedule()));
// the question can be asked of an object and an lvalue environment, too
template <class S> concept askable = requires (const S& s, const e0& e) { exec::get_completion_behavior_t<TV>{}(ex::get_env(s), e); ex::get_env(s).query(exec::get_completion_behavior_t<TV>{}, e); };
WIT(askable<a_then<in>>); WIT(askable<a_ue<in>>); WIT(askable<a_us<in>>); WIT(askable<a_lv<in>>); WIT(askable<a_so<n1<I, I, I>>>); WIT(askable<a_fj<in, cin>>);
// more adaptors
template <class S> using a_as = decltype(ex::associate(S{}, std::declval<ex::simple_counting_scope::token>()));
SAME(a_as<xv>); SAME(a_as<xe>); SAME(a_as<xs>);

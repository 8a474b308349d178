// type-level witnesses: any violating library makes this translation unit ill-formed
#pragma once
#include <stdexec/execution.hpp>
#include <exception>
#include <memory>
#include <optional>
#include <system_error>
#include <tuple>
#include <type_traits>
#include <variant>
#define WIT(...) static_assert((__VA_ARGS__), "VP-WITNESS must hold: " #__VA_ARGS__)
#define WIT_NOT(...) static_assert(!(__VA_ARGS__), "VP-WITNESS must not hold: " #__VA_ARGS__)
namespace w {
  namespace ex = stdexec;
  // opaque types: what a library can tell apart is how they are moved and copied
  struct N { N() noexcept; N(N&&) noexcept; N(const N&) noexcept; };                 // nothing throws
  struct N2 { N2(N2&&) noexcept; N2(const N2&) noexcept; };
  struct C { C(C&&) noexcept; C(const C&) noexcept(false); };                         // copies throw
  struct T { T(T&&) noexcept(false); T(const T&) noexcept(false); };                  // everything throws
  struct M { M(M&&) noexcept; M(const M&) = delete; };                                // move only
  struct E1 { E1(E1&&) noexcept; E1(const E1&) noexcept; };
  struct E2 { E2(E2&&) noexcept; E2(const E2&) noexcept; };
  using EP = ex::set_error_t(std::exception_ptr);
  using SS = ex::set_stopped_t();
  template <class... A> using V = ex::set_value_t(A...);
  template <class A> using E = ex::set_error_t(A);
  // sets of signatures
  template <class...> struct list {};
  template <class X> struct norm;   // T&& and T are the same datum
  template <class A> struct unr { using type = A; };
  template <class A> struct unr<A&&> { using type = A; };
  template <class Tag, class... A> struct norm<Tag(A...)> { using type = Tag(typename unr<A>::type...); };
  template <class X, class L> struct has;
  template <class X, class... Y> struct has<X, ex::completion_signatures<Y...>> : std::bool_constant<(std::is_same_v<typename norm<X>::type, typename norm<Y>::type> || ...)> {};
  template <class A, class B> struct sub;
  template <class... X, class B> struct sub<ex::completion_signatures<X...>, B> : std::bool_constant<(has<X, B>::value && ...)> {};
  template <class L> struct count;
  template <class... X> struct count<ex::completion_signatures<X...>> { static constexpr int value = sizeof...(X); };
  template <class A, class B> concept same_set = sub<A, B>::value && sub<B, A>::value && count<A>::value == count<B>::value;
  // what a sender advertises
  template <class S, class Env, class... Sigs> concept sigs_in = same_set<ex::completion_signatures_of_t<S, Env>, ex::completion_signatures<Sigs...>>;
  template <class S, class... Sigs> concept sigs = sigs_in<S, ex::env<>, Sigs...>;
  // the same, or with a superfluous exception_ptr
  template <class S, class... Sigs> concept sigs_ep = sigs<S, Sigs...> || sigs<S, Sigs..., EP>;
  struct stop_env { auto query(ex::get_stop_token_t) const noexcept -> ex::inplace_stop_token; };
  struct never_env { auto query(ex::get_stop_token_t) const noexcept -> ex::never_stop_token; };
  // an opaque operation, an opaque sender
  struct op { using operation_state_concept = ex::operation_state_tag; op(op&&) = delete; void start() & noexcept; };
  template <class... Sigs> struct snd {
    using sender_concept = ex::sender_tag;
    template <class, class...> static consteval auto get_completion_signatures() noexcept -> ex::completion_signatures<Sigs...> { return {}; }
    template <ex::receiver R> auto connect(R) const noexcept -> op;
  };
  template <class... Sigs> struct tsnd : snd<Sigs...> { template <ex::receiver R> auto connect(R) const noexcept(false) -> op; };   // connect throws
  template <class... Sigs> struct tcsnd : snd<Sigs...> { tcsnd(tcsnd&&) noexcept(false); tcsnd(const tcsnd&) noexcept(false); };    // its own copy throws
  template <class... Sigs> struct msnd : snd<Sigs...> { msnd(msnd&&) noexcept; template <ex::receiver R> auto connect(R) && noexcept -> op; };   // move only, single use
  // functions
  template <class R, bool Noexcept = true> struct fn { template <class... A> R operator()(A&&...) const noexcept(Noexcept); };
  // a scheduler
  template <class... Sigs> struct sch {
    using scheduler_concept = ex::scheduler_tag;
    struct env { auto query(ex::get_completion_scheduler_t<ex::set_value_t>) const noexcept -> sch; auto query(ex::get_completion_scheduler_t<ex::set_stopped_t>) const noexcept -> sch; };
    struct sender : snd<Sigs...> { auto get_env() const noexcept -> env; };
    auto schedule() const noexcept -> sender;
    bool operator==(const sch&) const noexcept;
  };
  template <class Env = ex::env<>> struct rcv {
    using receiver_concept = ex::receiver_tag;
    template <class... A> void set_value(A&&...) noexcept;
    template <class A> void set_error(A&&) noexcept;
    void set_stopped() noexcept;
    auto get_env() const noexcept -> Env;
  };
}

// P24: sequence senders.
#include "vp_seq.hpp"
#include <exec/sequence/empty_sequence.hpp>
#include <exec/sequence/ignore_all_values.hpp>
#include <exec/sequence/iterate.hpp>
#include <exec/sequence/transform_each.hpp>
#include <exec/sequence/merge.hpp>
#include <exec/sequence/merge_each.hpp>
#include <exec/sequence/any_sequence_of.hpp>
#include <array>
using namespace vp;

// ---- a sequence that has no items
VP_TEST(sq_empty) {
  auto r = subscribed<0>(exec::empty_sequence());
  r.start(); r.o.expect_once(); vp_check(r.o.ch() == value && sl.nexts() == 0, "an empty sequence has no items");
}

// ---- a plain sender is the sequence of itself
using S1 = item<m_any, VL>;
using one_sigs = ex::completion_signatures<V0>;
using one_sigs_s = ex::completion_signatures<V0, SS>;
VP_TEST(sq_one) {
  using S = item<m_any, VL, EE, SS>;
  sub<S, c_break | c_defer, ex::env<>, one_sigs> r{S{0}};
  r.start(); drive(1); r.o.expect_once();
  vp_check(sl.n() == 1 && sl.ch(0) == kids[0].ch(), "the only item is the sender itself");
  vp_check(r.o.ch() == value, "the sequence of one ends with set_value");
  if (kids[0].ch() != stopped) vp_check(sl.p(0) == kids[0].pay(), "the item carries the sender's result");
}
VP_TEST(sq_one_stop) {
  using S = item<m_any, VL, EE, SS>;
  ex::inplace_stop_source src; bool st = vp_choose(2, "stop requested");
  sub<S, c_break | c_defer, stop_env, one_sigs_s> r{S{0}, stop_env{src.get_token()}};
  if (st) src.request_stop();
  r.start(); drive(1); r.o.expect_once();
  vp_check(sl.n() == 1 && sl.ch(0) == kids[0].ch(), "the only item is the sender itself");
  vp_check(r.o.ch() == (sl.broken() && st ? stopped : value), "a break ends the sequence with set_value unless a stop was requested");
}
VP_TEST(sq_one_move_only) {
  using S = item<m_inline, VV, SS>;
  sub<S, c_break, ex::env<>, one_sigs> r{S{0}};
  r.start(); r.o.expect_once(); vp_check(sl.n() == 1 && sl.ch(0) == kids[0].ch() && r.o.ch() == value, "the only item is the sender itself");
}

// ---- transform_each
struct plus { long k; auto operator()(long v) const noexcept { return v + k; } };
VP_TEST(sq_transform) {
  long k = vp_sym("k");
  auto r = subscribed<c_break | c_defer>(exec::transform_each(seq<0, 2, m_any, mk<1, m_any, VL, SS>, V0, EE, SS>{}, ex::then(plus{k})));
  r.start(); drive(3); r.o.expect_once();
  vp_check(r.o.ch() == kids[0].ch(), "the sequence ends as its source does");
  if (r.o.ch() == error) vp_check(r.o.p() == kids[0].pay(), "with its error");
  vp_check(sl.most() <= 1, "items come one after the other");
  vp_check(sl.n() == kids[1].connected() + kids[2].connected(), "every item arrives once");
  for (int i = 0; i < sl.n(); ++i) { vp_check(sl.ch(i) == kids[1 + i].ch(), "items come in order"); if (sl.ch(i) == value) vp_check(sl.p(i) == kids[1 + i].pay() + k, "every item is transformed"); }
}
VP_TEST(sq_transform_throws) {
  auto r = subscribed<c_break | c_throw | c_conthrow>(exec::transform_each(seq<0, 2, m_inline, mk<1, m_inline, VL>, V0, EP>{}, ex::then(plus{1})));
  r.start(); r.o.expect_once();
  vp_check(r.o.ch() == kids[0].ch(), "the sequence ends as its source does");
  vp_check((r.o.ch() == error && (r.o.p() == 66 || r.o.p() == 67)) || kids[0].ch() == r.o.ch(), "an exception from set_next reaches the source");
}

// an adaptor that throws, and how often it is called
struct tadapt : ex::sender_adaptor_closure<tadapt> { long* calls; explicit tadapt(long* c) noexcept : calls(c) {} template <ex::sender S> auto operator()(S&& s) const { vp_add(calls, 1); if (vp_choose(2, "the adaptor throws")) throw err{68}; return ex::then(static_cast<S&&>(s), plus{1}); } };
struct nadapt : ex::sender_adaptor_closure<nadapt> { long* calls; explicit nadapt(long* c) noexcept : calls(c) {} template <ex::sender S> auto operator()(S&& s) const noexcept { vp_add(calls, 1); return ex::then(static_cast<S&&>(s), plus{1}); } };
template <int F, class A> static void adaptor_(bool thr) {
  static long calls; vp_set(&calls, 0);
  auto r = subscribed<F>(exec::transform_each(seq<0, 2, m_inline, mk<1, m_inline, VL>, V0, EP>{}, A(&calls)));
  r.start(); r.o.expect_once();
  vp_check(r.o.ch() == kids[0].ch(), "the sequence ends as its source does");
  if (r.o.ch() == error) vp_check(r.o.p() == kids[0].pay(), "with its error");
  vp_check(vp_get(&calls) == sl.nexts() || (thr && vp_get(&calls) == sl.nexts() + 1), "the adaptor is applied once to every item");
}
VP_TEST(sq_transform_adaptor_throws) { adaptor_<0, tadapt>(true); }
VP_TEST(sq_transform_consumer_throws) { adaptor_<c_throw, nadapt>(false); }

// ---- ignore_all_values
VP_TEST(sq_ignore) {
  run r{exec::ignore_all_values(seq<0, 2, m_any, mk<1, m_any, VL, EE, SS>, V0, EE, SS>{})};
  r.start(); drive(3); r.o.expect_once();
  int failed = 0; for (int i = 1; i <= 2; ++i) if (kids[i].connected() && kids[i].ch() != value && !failed) failed = i;
  if (kids[0].ch() == value || (failed && kids[0].ch() == stopped)) {
    vp_check(r.o.ch() == (failed ? kids[failed].ch() : (long) value), "completes as the first item that did not produce a value");
    if (r.o.ch() == error) r.o.expect_error(kids[failed].pay());
  } else if (!failed) { vp_check(r.o.ch() == kids[0].ch(), "completes as the sequence does"); if (r.o.ch() == error) r.o.expect_error(kids[0].pay()); }
  if (failed == 1) vp_check(kids[2].connected() == 0, "nothing is asked for after a failure");
}
VP_TEST(sq_ignore_values) {
  run r{exec::ignore_all_values(seq<0, 2, m_any, mk<1, m_any, VL>, V0>{})};
  r.start(); drive(3); r.o.expect_once(); vp_check(r.o.ch() == value && r.o.nargs() == 0, "values are dropped");
}

// ---- iterate
struct rng { int n; int* begin() const noexcept { static int v[3] = {5, 6, 7}; return v; } int* end() const noexcept { return begin() + n; } };
template <> inline constexpr bool std::ranges::enable_borrowed_range<rng> = true;
template <int F, class Env> static void iter_(Env e, bool st) {
  int n = vp_choose(4, "items");
  auto r = subscribed<F, Env>(exec::iterate(rng{n}), e);
  r.start(); drive(0); r.o.expect_once();
  if (!sl.broken() && !sl.failed() && !st) { vp_check(r.o.ch() == value && sl.n() == n, "all elements are visited, then the sequence ends"); }
  if (sl.failed()) { vp_check(r.o.ch() == error && (r.o.p() == 66 || r.o.p() == 67), "an exception from set_next ends the sequence with that error"); }
  if (sl.broken()) { vp_check(sl.broken() == 1 && r.o.ch() == (st ? stopped : value), "a break ends the sequence"); }
  vp_check(sl.most() <= 1 && sl.n() <= n, "one element after the other");
  for (int i = 0; i < sl.n(); ++i) if (!st) vp_check(sl.ch(i) == value && sl.p(i) == 5 + i, "the elements come in order");
}
VP_TEST(sq_iterate) { iter_<c_break | c_defer>(ex::env<>{}, false); }
VP_TEST(sq_iterate_throws) { iter_<c_break | c_throw | c_conthrow>(ex::env<>{}, false); }
VP_TEST(sq_iterate_stop) { ex::inplace_stop_source src; bool st = vp_choose(2, "stop requested"); if (st) src.request_stop(); iter_<c_break | c_follow>(stop_env{src.get_token()}, st); }
VP_TEST(sq_iterate_ignore) { int n = vp_choose(4, "items"); run r{exec::ignore_all_values(exec::iterate(rng{n}))}; r.start(); r.o.expect_once(); vp_check(r.o.ch() == value, "the sequence ends"); }

struct lrng { int n; long* begin() const noexcept { static long v[80]; return v; } long* end() const noexcept { return begin() + n; } };
template <> inline constexpr bool std::ranges::enable_borrowed_range<lrng> = true;
VP_TEST(sq_iterate_depth) {
  vp_config("stackspan", 8);
  auto r = subscribed<0>(exec::iterate(lrng{40}));
  r.start(); r.o.expect_once(); vp_check(r.o.ch() == value && sl.n() == 40, "all elements are visited");
  vp_check(sl.deepest() <= 17, "the nesting of elements is bounded");
}

// ---- merge
VP_TEST(sq_merge) {
  auto r = subscribed<c_defer>(exec::merge(seq<0, 1, m_any, mk<1, m_any, VL>, V0, EE, SS>{}, seq<3, 1, m_any, mk<4, m_any, VL>, V0, EE, SS>{}));
  r.start(); drive(6); r.o.expect_once();
  vp_check(kids[0].started() == 0 || kids[0].completed(), "a merged sequence that was started has ended"); vp_check(kids[3].started() == 0 || kids[3].completed(), "a merged sequence that was started has ended");
  vp_check(sl.n() == kids[1].connected() + kids[4].connected(), "every item of every sequence arrives once");
  long a = kids[0].ch(), b = kids[3].ch();
  if (a == value && b == value) vp_check(r.o.ch() == value, "ends with set_value when all sequences do");
  else if (a == error || b == error) { if (r.o.ch() == error) vp_check((a == error && r.o.p() == kids[0].pay()) || (b == error && r.o.p() == kids[3].pay()), "an error comes from a sequence"); if (a == value || b == value) vp_check(r.o.ch() == error, "an error is delivered"); }
  else vp_check(r.o.ch() == stopped, "stopped when a sequence is");
}
VP_TEST(sq_merge_break) {
  auto r = subscribed<c_break | c_defer>(exec::merge(seq<0, 1, m_any, mk<1, m_any, VL, SS>, V0>{}, seq<3, 1, m_any, mk<4, m_any, VL, EE>, V0>{}));
  r.start(); drive(6); r.o.expect_once();
  vp_check(sl.n() == kids[1].connected() + kids[4].connected(), "every item of every sequence arrives once");
  vp_check(r.o.ch() == (sl.broken() ? stopped : value), "a break ends the merged sequence");
}
VP_TEST(sq_merge_values) {
  auto r = subscribed<0>(exec::merge(seq<0, 2, m_any, mk<1, m_inline, VL>, V0>{}, S1{3}));
  r.start(); drive(6); r.o.expect_once(); vp_check(r.o.ch() == value && sl.n() == kids[1].connected() + kids[2].connected() + kids[3].connected(), "every item of every sequence arrives once");
}

// ---- merge_each: a sequence of sequences
// nested sequence k is kid 1 + 3k, its items are kids 2 + 3k and 3 + 3k
template <int NI, int IM, int SM, class ISigs, class... NSigs> struct nest;
template <int NI, int IM, int SM, class... IS, class... NSigs> struct nest<NI, IM, SM, ex::completion_signatures<IS...>, NSigs...> {
  template <int K> using seq_t = seq<1 + 3 * K, NI, SM, mk<2 + 3 * K, IM, IS...>, NSigs...>;
};
// the sender of a nested sequence
template <class R, class Seq, int Id, int Mode, class... Extra> struct nsnd_op : pending_base {
  using operation_state_concept = ex::operation_state_tag;
  R r; long st = 1;
  nsnd_op(R&& x) noexcept : r(static_cast<R&&>(x)) { vp_set(&kids[Id].started_, 0); vp_set(&kids[Id].completed_, 0); }
  nsnd_op(nsnd_op&&) = delete;
  ~nsnd_op() { vp_check(st == 1, "a child operation is destroyed once"); st = 0; vp_check(!vp_get(&kids[Id].started_) || vp_get(&kids[Id].completed_), "a started child operation is not destroyed before it completes"); }
  void start() & noexcept { vp_set(&kids[Id].started_, 1); if (Mode == m_inline || (Mode == m_any && !vp_choose(2, "the nested sequence comes later"))) go(); else { vp_set(&kids[Id].pend_, (long) static_cast<pending_base*>(this)); vp_event_set(&kids[Id].pend_); } }
  void fire() noexcept override { vp_set(&kids[Id].pend_, 0); go(); }
  bool stop() noexcept override { return ex::get_stop_token(ex::get_env(r)).stop_requested(); }
  void go() noexcept {
    vp_check(st == 1 && !vp_get(&kids[Id].completed_), "a child completes once");
    if constexpr (sizeof...(Extra) > 0) if (vp_choose(2, "no nested sequence")) { complete_any<R, Extra...>(&kids[Id], static_cast<R&&>(r)); return; }
    vp_set(&kids[Id].completed_, 1); vp_set(&kids[Id].ch_, value);
    ex::set_value(static_cast<R&&>(r), Seq{});
  }
};
template <class Seq, int Id, int Mode, class... Extra> struct nsnd {
  using sender_concept = ex::sender_tag;
  template <class, class...> static consteval auto get_completion_signatures() noexcept -> ex::completion_signatures<ex::set_value_t(Seq), Extra...> { return {}; }
  template <ex::receiver R> auto connect(R r) const noexcept -> nsnd_op<R, Seq, Id, Mode, Extra...> { return nsnd_op<R, Seq, Id, Mode, Extra...>{static_cast<R&&>(r)}; }
};
template <class Seq, int Id, int Mode, class... Extra> struct mkn { static auto make(int) noexcept -> nsnd<Seq, Id, Mode, Extra...> { return {}; } };

using cs_l = ex::completion_signatures<VL>;
using cs_le = ex::completion_signatures<VL, EE, SS>;
// one nested sequence
template <int F, class Env, class Outer> static auto each(Outer o, Env e) { return subscribed<F, Env>(exec::merge_each(o), e); }
VP_TEST(sq_each_values) {
  using N = nest<2, m_any, m_any, cs_l, V0>::seq_t<0>;
  auto r = each<c_defer>(seq<0, 1, m_any, mkn<N, 7, m_any>, V0>{}, ex::env<>{});
  r.start(); drive(); r.o.expect_once();
  vp_check(r.o.ch() == value, "values only: ends with set_value");
  vp_check(sl.n() == kids[2].connected() + kids[3].connected(), "every item of the nested sequence arrives once");
  for (int i = 0; i < sl.n(); ++i) vp_check(sl.ch(i) == value && sl.p(i) == kids[2 + i].pay(), "in order, with its value");
}
VP_TEST(sq_each_item_fails) {
  using N = nest<2, m_any, m_inline, cs_le, V0>::seq_t<0>;
  auto r = each<c_break>(seq<0, 1, m_inline, mkn<N, 7, m_inline>, V0, SS>{}, ex::env<>{});
  r.start(); drive(); r.o.expect_once();
  int bad = kids[2].ch() == error ? 2 : kids[2].ch() && kids[3].connected() && kids[3].ch() == error ? 3 : 0;
  vp_check(sl.count(error) == (bad != 0), "an error is delivered as one item");
  if (bad) { int k = (int) sl.n() - 1; vp_check(sl.ch(k) == error && sl.p(k) == kids[bad].pay(), "the error comes last"); vp_check(r.o.ch() == value, "then the sequence ends"); }
}
// what becomes of a failure in each place it can occur
VP_TEST(sq_each_nested_fails) {
  using N = nest<1, m_any, m_any, cs_l, V0, EE, SS>::seq_t<0>;
  auto r = each<c_defer>(seq<0, 1, m_inline, mkn<N, 7, m_inline>, V0, SS>{}, ex::env<>{});
  r.start(); drive(); r.o.expect_once();
  bool bad = kids[1].ch() == error;
  vp_check(sl.count(error) == bad, "a nested sequence's error is delivered as one item");
  if (bad) { int k = (int) sl.n() - 1; vp_check(sl.ch(k) == error && sl.p(k) == kids[1].pay(), "the error comes last"); vp_check(r.o.ch() == value, "then the sequence ends"); }
  else vp_check(r.o.ch() == kids[0].ch(), "a nested sequence that stops has no effect");
}
VP_TEST(sq_each_sender_fails) {
  using N = nest<1, m_inline, m_inline, cs_l, V0>::seq_t<0>;
  auto r = each<0>(seq<0, 2, m_inline, mkn<N, 7, m_any, EE, SS>, V0, SS>{}, ex::env<>{});
  r.start(); drive(); r.o.expect_once();
  vp_check(kids[0].completed(), "the outer sequence has ended");
  if (kids[7].completed() && kids[7].ch() == error) { int k = (int) sl.n() - 1; vp_check(k >= 0 && sl.ch(k) == error && sl.p(k) == kids[7].pay(), "the error comes last"); vp_check(r.o.ch() == value, "then the sequence ends"); }
  else { vp_check(sl.count(error) == 0, "no error without a failure"); vp_check(r.o.ch() == kids[0].ch(), "a nested sequence that is not there has no effect"); }
}
VP_TEST(sq_each_outer_fails) {
  using N = nest<1, m_any, m_inline, cs_l, V0>::seq_t<0>;
  auto r = each<0>(seq<0, 1, m_any, mkn<N, 7, m_inline>, V0, EE, EP, SS>{}, ex::env<>{});
  r.start(); drive(); r.o.expect_once();
  vp_check(r.o.ch() == kids[0].ch(), "the merged sequence ends as the outer one does");
  if (r.o.ch() == error) vp_check(r.o.p() == kids[0].pay(), "with its error");
}
// the first failure stops the others
template <int K> using nst = nest<1, m_later, m_inline, cs_le, V0>::seq_t<K>;
template <int F, class Env> static void two(Env e) {
  auto r = subscribed<F, Env>(exec::merge_each(exec::merge(nsnd<nst<0>, 0, m_inline>{}, nsnd<nst<1>, 7, m_inline>{})), e);
  r.start();
  bool both = kids[2].pending() && kids[5].pending();
  int first = both && vp_choose(2, "first") ? 5 : 2;
  if (both) {
    fire(first); if (kids[first].ch() == error) vp_check(kids[7 - first].pending() && stop_seen(7 - first), "the first error asks everything else to stop"); else if (kids[7 - first].pending()) vp_check(!stop_seen(7 - first), "only an error asks everything else to stop");
  }
  drive(); r.o.expect_once();
  bool e1 = kids[2].connected() && kids[2].ch() == error, e2 = kids[5].connected() && kids[5].ch() == error;
  vp_check(sl.count(error) == (e1 || e2), "only the first error is delivered");
  if (e1 || e2) { int k = (int) sl.n() - 1, b = e1 && e2 ? first : e1 ? 2 : 5; vp_check(sl.ch(k) == error && sl.p(k) == kids[b].pay(), "the first error comes last"); }
  vp_check(r.o.ch() == value, "the sequence ends");
}
VP_TEST(sq_each_two) { two<0>(ex::env<>{}); }
VP_TEST(sq_each_two_stoppable) { ex::inplace_stop_source src; two<0>(stop_env{src.get_token()}); }
// a stop request
VP_TEST(sq_each_stop) {
  using N = nest<1, m_later, m_inline, cs_le, V0, SS>::seq_t<0>;
  bool st = vp_choose(2, "stop requested before start");
  auto r = subscribed_stop<c_follow>(exec::merge_each(seq<0, 1, m_inline, mkn<N, 7, m_inline>, V0, SS>{}));
  if (st) r.src.get().request_stop();
  r.start();
  if (st) { vp_check(r.o.n() == 1 && r.o.ch() == stopped && sl.n() == 0, "stopped before it starts: nothing happens"); return; }
  if (kids[2].pending()) { vp_check(!stop_seen(2), "not stopped yet"); if (vp_choose(2, "stop requested")) { r.src.get().request_stop(); vp_check(stop_seen(2), "a stop request reaches the items"); } drive(); }
  r.o.expect_once();
}
// failures of the consumer
VP_TEST(sq_each_set_next_throws) {
  using N = nest<1, m_inline, m_inline, cs_le, V0, EP>::seq_t<0>;
  auto r = each<c_throw | c_conthrow>(seq<0, 1, m_inline, mkn<N, 7, m_inline>, V0, EP>{}, ex::env<>{});
  r.start(); drive(); r.o.expect_once();
}

// the consumer fails on the item that delivers the error
VP_TEST(sq_each_error_item_throws) {
  using N = nest<0, m_inline, m_inline, cs_l, EE>::seq_t<0>;
  auto r = each<c_throw | c_conthrow>(seq<0, 1, m_inline, mkn<N, 7, m_inline>, V0>{}, ex::env<>{});
  r.start(); drive(); r.o.expect_once();
  if (sl.failed()) vp_check(r.o.ch() == error && (r.o.p() == 66 || r.o.p() == 67), "an exception of the consumer ends the sequence");
  else { vp_check(r.o.ch() == value, "the sequence ends"); vp_check(sl.count(error) == kids[1].connected(), "the error is delivered"); }
}
VP_TEST(sq_each_error_item_connect) {
  using N = nest<0, m_inline, m_inline, cs_l, EE>::seq_t<0>;
  auto r = each<c_conthrow>(seq<0, 1, m_inline, mkn<N, 7, m_inline>, V0>{}, ex::env<>{});
  r.start(); drive(); r.o.expect_once();
  if (sl.failed()) vp_check(r.o.ch() == error && r.o.p() == 67, "an exception of the consumer ends the sequence");
  else { vp_check(r.o.ch() == value, "the sequence ends"); vp_check(sl.count(error) == kids[1].connected(), "the error is delivered"); }
}
// errors whose copies and moves throw
using ET = ex::set_error_t(tval);
using cs_lt = ex::completion_signatures<VL, ET>;
VP_TEST(sq_each_error_moves_throw) {
  using N = nest<1, m_inline, m_inline, cs_lt, V0, ET>::seq_t<0>;
  auto r = each<0>(seq<0, 1, m_inline, mkn<N, 7, m_inline, ET>, V0>{}, ex::env<>{});
  r.start(); drive(); r.o.expect_once();
  int bad = kids[7].completed() && kids[7].ch() == error ? 7 : kids[2].connected() && kids[2].ch() == error ? 2 : kids[1].connected() && kids[1].ch() == error ? 1 : 0;
  vp_check(r.o.ch() == value && sl.count(error) == (bad != 0), "an error is delivered as one item");
  if (bad) { int k = (int) sl.n() - 1; vp_check(sl.ch(k) == error && (sl.p(k) == kids[bad].pay() || sl.p(k) == 77 || sl.p(k) == 78), "the error, or the exception its move threw, comes last"); }
}
VP_TEST(sq_each_outer_error_moves_throw) {
  using N = nest<1, m_inline, m_inline, cs_l, V0>::seq_t<0>;
  auto r = each<0>(seq<0, 1, m_inline, mkn<N, 7, m_inline>, V0, ET>{}, ex::env<>{});
  r.start(); drive(); r.o.expect_once();
  vp_check(r.o.ch() == kids[0].ch(), "the merged sequence ends as the outer one does");
  if (r.o.ch() == error) vp_check(r.o.p() == kids[0].pay() || r.o.p() == 77 || r.o.p() == 78, "with its error, or the exception its copy threw");
}
// the outer sequence fails after a nested one did
template <class Seq, int Id> struct mkn_f : mkn<Seq, Id, m_inline> { static constexpr bool fails_after_break = true; };
VP_TEST(sq_each_fails_twice) {
  using N = nest<1, m_inline, m_inline, cs_l, V0, EE>::seq_t<0>;
  auto r = each<0>(seq<0, 1, m_any, mkn_f<N, 7>, V0, EE, SS>{}, ex::env<>{});
  r.start(); drive(); r.o.expect_once();
  bool bad = kids[1].connected() && kids[1].ch() == error;
  vp_check(sl.count(error) == bad, "the first error is delivered as the last item");
  if (bad) { int k = (int) sl.n() - 1; vp_check(sl.ch(k) == error && sl.p(k) == kids[1].pay() && r.o.ch() == value, "the first error is delivered, later ones are dropped"); }
  else { vp_check(r.o.ch() == kids[0].ch(), "the merged sequence ends as the outer one does"); if (r.o.ch() == error) vp_check(r.o.p() == kids[0].pay(), "with its error"); }
}

// ---- a subscription that throws
template <class Base> struct tseq : Base {
  template <ex::receiver R> auto subscribe(R r) const noexcept(false) { if (vp_choose(2, "subscribe throws")) throw err{44}; return Base::subscribe(static_cast<R&&>(r)); }
};
using seq1 = seq<0, 1, m_inline, mk<1, m_inline, VL>, V0, EE>;
template <class S> static void sub_throws(S s) {
  bool got = false;
  try { auto r = subscribed<0>(static_cast<S&&>(s)); r.start(); drive(); r.o.expect_once(); } catch (const err& e) { got = true; vp_check(e.e == 44, "the exception reaches the caller of subscribe"); }
  vp_check(got || kids[0].connected() == 1, "only an exception keeps a sequence from being subscribed to");
}
VP_TEST(sq_sub_transform_throws) { sub_throws(exec::transform_each(tseq<seq1>{}, ex::then(plus{1}))); }
VP_TEST(sq_sub_merge_throws) { sub_throws(exec::merge(tseq<seq1>{}, S1{3})); }
VP_TEST(sq_sub_ignore_throws) { bool got = false; try { run r{exec::ignore_all_values(tseq<seq1>{})}; r.start(); r.o.expect_once(); } catch (const err& e) { got = true; vp_check(e.e == 44, "the exception reaches the caller of connect"); } vp_check(got || kids[0].connected() == 1, "only an exception keeps a sequence from being subscribed to"); }
VP_TEST(sq_sub_each_throws) {
  using N = nest<1, m_inline, m_inline, cs_l, V0>::seq_t<0>;
  sub_throws(exec::merge_each(tseq<seq<0, 1, m_inline, mkn<N, 7, m_inline>, V0>>{}));
}
VP_TEST(sq_each_nested_sub_throws) {
  using N = tseq<nest<1, m_inline, m_inline, cs_l, V0>::seq_t<0>>;
  auto r = each<0>(seq<0, 1, m_inline, mkn<N, 7, m_inline>, V0>{}, ex::env<>{});
  r.start(); drive(); r.o.expect_once(); vp_check(r.o.ch() == value, "the sequence ends");
  if (kids[0].started() && kids[7].started() && !kids[1].connected()) vp_check(sl.n() == 1 && sl.ch(0) == error && sl.p(0) == 44, "an exception from subscribe is delivered as the last item");
}
template <int F> static void sub_one() {
  bool got = false;
  try { sub<S1, F, ex::env<>, one_sigs> r{S1{0}}; r.start(); drive(1); r.o.expect_once(); } catch (const err& e) { got = true; vp_check(e.e == 66 || e.e == 67, "the exception reaches the caller of subscribe"); }
  vp_check(got == (sl.failed() != 0), "only an exception keeps a sequence from being subscribed to");
}
VP_TEST(sq_sub_one_throws) { sub_one<c_throw>(); }
VP_TEST(sq_sub_one_connect_throws) { sub_one<c_conthrow>(); }

// ---- any_sequence_sender
using any_seq = exec::any_sequence_receiver_ref<ex::completion_signatures<VL, EE, SS>>::any_sender<>;
VP_TEST(sq_any) {
  long h = vp_heap();
  {
    sub<any_seq, c_break | c_defer, ex::env<>> r{any_seq{seq<0, 2, m_any, mk<1, m_any, VL, EE, SS>, V0, EE, SS>{}}};
    r.start(); drive(3); r.o.expect_once();
    vp_check(r.o.ch() == kids[0].ch(), "the sequence ends as its source does");
    if (r.o.ch() == error) vp_check(r.o.p() == kids[0].pay(), "with its error");
    vp_check(sl.most() <= 1 && sl.n() == kids[1].connected() + kids[2].connected(), "every item arrives once");
    for (int i = 0; i < sl.n(); ++i) { vp_check(sl.ch(i) == kids[1 + i].ch(), "items come in order"); if (sl.ch(i) != stopped) vp_check(sl.p(i) == kids[1 + i].pay(), "with their results"); }
  }
  vp_check(vp_heap() == h, "everything allocated is freed");
}

// ---- items on other threads
VP_TEST(sq_mt_merge) {
  vp_config("preempt", 2);
  auto r = subscribed<0>(exec::merge(item<m_later, VL, SS>{0}, item<m_later, VL>{1}));
  r.start();
  int a = spawn_fire(0), b = spawn_fire(1); vp_join(a); vp_join(b);
  r.o.expect_once(); vp_check(r.o.ch() == value && sl.n() == 2, "every item of every sequence arrives once");
}
VP_TEST(sq_mt_ignore) {
  vp_config("preempt", 2);
  run r{exec::ignore_all_values(exec::merge(item<m_later, VL, EE>{0}, item<m_later, VL, EE>{1}))};
  r.start();
  int a = spawn_fire(0), b = spawn_fire(1); vp_join(a); vp_join(b);
  r.o.expect_once();
  if (kids[0].ch() == value && kids[1].ch() == value) vp_check(r.o.ch() == value, "values are dropped");
  else { vp_check(r.o.ch() == error, "the error of an item is delivered"); vp_check((kids[0].ch() == error && r.o.p() == kids[0].pay()) || (kids[1].ch() == error && r.o.p() == kids[1].pay()), "an error comes from an item"); }
}
VP_TEST(sq_mt_each) {
  vp_config("preempt", 2);
  using A = nest<1, m_later, m_inline, cs_le, V0>::seq_t<0>; using B = nest<1, m_later, m_inline, cs_le, V0>::seq_t<1>;
  auto r = subscribed<0>(exec::merge_each(exec::merge(nsnd<A, 0, m_inline>{}, nsnd<B, 7, m_inline>{})));
  r.start();
  int a = kids[2].pending() ? spawn_fire(2) : 0, b = kids[5].pending() ? spawn_fire(5) : 0; if (a) vp_join(a); if (b) vp_join(b);
  r.o.expect_once(); vp_check(r.o.ch() == value, "the sequence ends");
  bool e1 = kids[2].connected() && kids[2].ch() == error, e2 = kids[5].connected() && kids[5].ch() == error;
  vp_check(sl.count(error) == (e1 || e2), "only the first error is delivered");
  if (e1 || e2) { int k = (int) sl.n() - 1; vp_check(sl.ch(k) == error && ((e1 && sl.p(k) == kids[2].pay()) || (e2 && sl.p(k) == kids[5].pay())), "an error comes last"); }
}
VP_TEST(sq_mt_each_stop) {
  vp_config("preempt", 2);
  using A = nest<1, m_later, m_inline, cs_le, V0>::seq_t<0>;
  ex::inplace_stop_source src;
  auto r = subscribed<c_follow>(exec::merge_each(seq<0, 1, m_inline, mkn<A, 7, m_inline>, V0, SS>{}), stop_env{src.get_token()});
  int s = spawn_stop(src);
  r.start();
  int a = kids[2].pending() ? spawn_fire(2) : 0; if (a) vp_join(a);
  r.o.expect_once(); vp_join(s);
}

// ---- a stop request reaches every item
template <class S> static void reaches(S s) {
  ex::inplace_stop_source src;
  auto r = subscribed<c_follow>(static_cast<S&&>(s), stop_env{src.get_token()});
  r.start();
  if (kids[1].pending()) { vp_check(!stop_seen(1), "not stopped yet"); src.request_stop(); vp_check(stop_seen(1), "a stop request reaches the items"); drive(); }
  r.o.expect_once();
}
using seq_later = seq<0, 1, m_inline, mk<1, m_later, VL, SS>, V0, SS>;
VP_TEST(sq_reach_transform) { reaches(exec::transform_each(seq_later{}, ex::then(plus{1}))); }
VP_TEST(sq_reach_merge) { reaches(exec::merge(seq_later{}, item<m_inline, VL>{3})); }
VP_TEST(sq_reach_iterate) {
  ex::inplace_stop_source src; auto r = subscribed<c_follow>(exec::transform_each(exec::iterate(rng{1}), ex::let_value([](int) noexcept { return item<m_later, VL, SS>{1}; })), stop_env{src.get_token()});
  r.start(); vp_check(kids[1].pending(), "the item was started"); src.request_stop(); vp_check(stop_seen(1), "a stop request reaches the items"); drive(); r.o.expect_once();
}
VP_TEST(sq_reach_ignore) {
  ex::inplace_stop_source src; run r{exec::ignore_all_values(seq_later{}), stop_env{src.get_token()}};
  r.start(); if (kids[1].pending()) { src.request_stop(); vp_check(stop_seen(1), "a stop request reaches the items"); drive(2); } r.o.expect_once();
}

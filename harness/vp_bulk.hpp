// what a scheduler does with bulk work: kid 7 is the scheduling, kid 0 a predecessor with values, kid 6 the work
#pragma once
#include "vp.hpp"
#include <span>
namespace vp {
static char calls, lim, idx[16], threw, where, seqd, par;
struct heap_ok { long h = vp_heap(); ~heap_ok() { vp_check(vp_heap() == h, "no memory is leaked"); } };
struct wtok {                                      // a stop token of another type
  ex::inplace_stop_token t;
  template <class F> struct callback_type { ex::inplace_stop_callback<F> c; template <class G> callback_type(wtok k, G&& g) noexcept(std::is_nothrow_constructible_v<F, G>) : c(k.t, static_cast<G&&>(g)) {} };
  bool stop_requested() const noexcept { return t.stop_requested(); }
  bool stop_possible() const noexcept { return t.stop_possible(); }
  bool operator==(const wtok&) const noexcept = default;
};
struct wenv { wtok t; auto query(ex::get_stop_token_t) const noexcept { return t; } };

static void sched_done(const obs& o) {
  o.expect_once(); vp_check(o.ch() == kids[7].ch(), "completes as the backend does"); vp_check(o.ctx() == 7, "completes where the backend does");
  if (o.ch() == error) o.expect_error(kids[7].pay());
}
template <class... As> static void datum(As&... as) {
  if constexpr (sizeof...(As) == 1) {
    long a = (long) std::addressof((as, ...));
    if (vp_get(&where)) vp_check(vp_get(&where) == a, "every call sees the same values");
    vp_set(&where, a);
    vp_check((as_long(as), ...) == kids[0].pay(), "every call sees the predecessor's values");
  }
}
static void range(long b, long e) {
  vp_add(&calls, 1);
  vp_check(b >= 0 && b <= e && e <= vp_get(&lim), "only indices below the shape are visited");
  if (e > vp_get(&lim)) return;
  if (!vp_get(&par)) { vp_check(vp_get(&seqd) == b, "a sequential policy visits the indices in order"); vp_set(&seqd, e); }
  for (long i = b; i < e; ++i) vp_check(vp_add(&idx[i], 1) == 1, "an index is visited once");
  vp_check(kids[6].started() == 1, "the function is called by the backend");
  vp_check(!kids[6].completed(), "the function is not called once the work has completed");
}
template <bool Thr> struct fn {
  long st = 1;
  fn() = default; fn(const fn& o) noexcept : st(o.st) { vp_check(o.st == 1, "the function is copied while alive"); } ~fn() { st = 0; }
  void thr() { if (Thr && vp_choose(2, "the function throws")) { vp_set(&threw, 1); throw err{41}; } }
};
template <bool Thr> struct one : fn<Thr> { template <class I, class... As> void operator()(I i, As&... as) noexcept(!Thr) { vp_check(this->st == 1, "the function is alive"); range(i, i + 1); datum(as...); this->thr(); } };
template <bool Thr> struct chunk : fn<Thr> { template <class I, class... As> void operator()(I b, I e, As&... as) noexcept(!Thr) { vp_check(this->st == 1, "the function is alive"); range(b, e); datum(as...); this->thr(); } };
// a value that owns memory, and one that the predecessor keeps and sends as an lvalue
struct owned { long *p, *t = new long(7); explicit owned(long v) : p(new long(v)) {} owned(owned&& o) noexcept : p(o.p) { o.p = nullptr; } ~owned() { delete p; delete t; } friend long as_long(const owned& o) { vp_check(o.p != nullptr, "a delivered value is alive and not moved-from"); return o.p ? *o.p : -1; } };
template <> inline owned make<owned>(long v) { return owned(v); }
using VO = ex::set_value_t(owned); using VLV = ex::set_value_t(val&);
template <class R> struct lop { using operation_state_concept = ex::operation_state_tag; R r; val v{5}; void start() & noexcept { vp_set(&kids[0].ch_, value); vp_set(&kids[0].pay_, 5); ex::set_value(static_cast<R&&>(r), v); } };
static void bulk_done(const obs& o, long n) {
  o.expect_once();
  if (kids[7].ch() != value) { sched_done(o); return; }
  if (kids[0].connected() && kids[0].ch() != value) { vp_check(o.ch() == kids[0].ch(), "completes as the predecessor does"); if (o.ch() == error) o.expect_error(kids[0].pay()); vp_check(!vp_get(&calls), "the function is called for values only"); return; }
  if (!kids[6].started()) return;
  if (vp_get(&threw)) { if (kids[6].ch() == value) o.expect_error(41); return; }
  if (kids[6].ch() == error) { o.expect_error(kids[6].pay()); return; }
  if (kids[6].ch() == stopped) { o.expect_stopped(); return; }
  vp_check(o.ch() == value, "the predecessor's values are the result");
  for (long i = 0; i < n; ++i) vp_check(vp_get(&idx[i]) == 1, "every index is visited once");
  vp_check(o.ctx() == 6, "completes where the work did");
  if (o.nargs()) o.expect_value(kids[0].pay());
}
}

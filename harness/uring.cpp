// exec::io_uring_context over a modelled kernel
#include "vp.hpp"
#include <unistd.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/eventfd.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <linux/io_uring.h>
#include <chrono>
#include <cstring>
#include <system_error>
// ---- the kernel ----------------------------------------------------------------------------------
static int eno;
static char n_map, n_fd, n_efd, efd_told[32], efd_read, fail_at, reads, timers, in_enter, rd_buf, rd_op, tm_op[4], n_sub, no_enter, seen_len, far_;
struct ring { unsigned sqh, sqt, sqm, arr[8], cqh, cqt, cqm, pad; io_uring_cqe cqes[16]; };
static ring* R; static io_uring_sqe* Q; static unsigned NE;
enum { f_none, f_setup, f_eventfd, f_map1, f_map2, f_map3, f_enter };
static bool failing(int w) { return vp_get(&fail_at) == w; }
static void post(unsigned long ud, int res) { unsigned t = __atomic_load_n(&R->cqt, __ATOMIC_RELAXED); vp_check(t - __atomic_load_n(&R->cqh, __ATOMIC_ACQUIRE) < NE * 2, "the completion queue does not overflow"); io_uring_cqe& c = R->cqes[t & (NE * 2 - 1)]; c.user_data = ud; c.res = res; c.flags = 0; __atomic_store_n(&R->cqt, t + 1, __ATOMIC_RELEASE); }
static bool try_read() { if (!vp_get(&rd_op) || vp_get(&n_efd) <= vp_get(&efd_read)) return false; *(unsigned long*) vp_get(&rd_buf) = (unsigned long) (vp_get(&n_efd) - vp_get(&efd_read)); vp_set(&efd_read, vp_get(&n_efd)); unsigned long u = (unsigned long) vp_get(&rd_op); vp_set(&rd_op, 0); post(u, 8); return true; }
static bool expire(int i, int res) { unsigned long u = (unsigned long) vp_get(&tm_op[i]); if (!u) return false; vp_set(&tm_op[i], 0); vp_add(&timers, -1); post(u, res); return true; }
static void take(io_uring_sqe& s) {
  vp_add(&n_sub, 1);
  switch (s.opcode) {
  case IORING_OP_READ: vp_check(s.fd == 8 && s.len == 8, "the wakeup event is read"); vp_check(!vp_get(&rd_op), "one read of the wakeup event at a time"); vp_set(&rd_op, (long) s.user_data); vp_set(&rd_buf, (long) s.addr); try_read(); break;
  case IORING_OP_TIMEOUT: { vp_set(&seen_len, ((long*) s.addr)[0] * 1000000000 + ((long*) s.addr)[1]); int i = 0; while (i < 4 && vp_get(&tm_op[i])) ++i; vp_set(&tm_op[i], (long) s.user_data); vp_add(&timers, 1); if (!vp_get(&far_) && vp_choose(2, "expires at once")) expire(i, -ETIME); break; }
  case IORING_OP_ASYNC_CANCEL: { int i = 0; while (i < 4 && vp_get(&tm_op[i]) != (long) s.addr) ++i; bool first = i < 4 && vp_choose(2, "the cancellation is reported first"); if (first) post(s.user_data, 0); if (i < 4) expire(i, -ECANCELED); if (!first) post(s.user_data, i < 4 ? 0 : -ENOENT); break; }
  case IORING_OP_NOP: post(s.user_data, 0); break;
  default: vp_check(false, "only known operations are submitted");
  }
}
static long k_setup(unsigned n, io_uring_params* p) {
  if (failing(f_setup)) { eno = ENFILE; return -1; }
  vp_add(&n_fd, 1); unsigned e = 1; while (e < n) e *= 2; NE = e; vp_check(e <= 8, "model size");
  R = (ring*) ::operator new(sizeof(ring)); std::memset(R, 0, sizeof(ring)); Q = (io_uring_sqe*) ::operator new(sizeof(io_uring_sqe) * e); std::memset(Q, 0, sizeof(io_uring_sqe) * e);
  R->sqm = e - 1; R->cqm = 2 * e - 1; p->sq_entries = e; p->cq_entries = 2 * e; p->features = vp_choose(2, "single map") ? IORING_FEAT_SINGLE_MMAP : 0;
  p->sq_off.head = offsetof(ring, sqh); p->sq_off.tail = offsetof(ring, sqt); p->sq_off.ring_mask = offsetof(ring, sqm); p->sq_off.array = offsetof(ring, arr);
  p->cq_off.head = offsetof(ring, cqh); p->cq_off.tail = offsetof(ring, cqt); p->cq_off.ring_mask = offsetof(ring, cqm); p->cq_off.cqes = offsetof(ring, cqes); return 7;
}
static bool empty() { return __atomic_load_n(&R->cqh, __ATOMIC_ACQUIRE) == R->cqt; }
static long k_enter(int fd, unsigned n, unsigned min, unsigned flags) {
  vp_check(fd == 7, "the ring is entered"); vp_check(vp_add(&in_enter, 1) == 1, "one thread at a time drives the context"); 
  if (failing(f_enter)) { vp_add(&in_enter, -1); eno = EBADF; return -1; }
  if (vp_get(&no_enter) == 0 && vp_choose(2, "interrupted")) { vp_set(&no_enter, 1); vp_add(&in_enter, -1); eno = EINTR; return -1; }
  unsigned h = R->sqh, t = __atomic_load_n(&R->sqt, __ATOMIC_ACQUIRE); unsigned k = 0; vp_check(t - h <= NE, "the submission queue does not overflow");
  for (; k < n && h != t; ++k, ++h) take(Q[R->arr[h & (NE - 1)]]);
  __atomic_store_n(&R->sqh, h, __ATOMIC_RELEASE);
  if ((flags & IORING_ENTER_GETEVENTS) && min) { try_read(); if (empty()) {
    if (vp_get(&timers) && !vp_get(&far_)) { vp_idle(); if (!try_read()) { int f = vp_choose(2, "which timer"); for (int i = 0; i < 4; ++i) if (expire((i + f) & 3, -ETIME)) break; } }
    else { vp_event_wait(&efd_told[vp_get(&efd_read)]); try_read(); } } }
  vp_add(&in_enter, -1); return k;
}
template <class... A> static long vp_syscall_(long n, A... a) { if constexpr (sizeof...(A) == 2) { vp_check(n == __NR_io_uring_setup, "setup"); return k_setup(a...); } else { vp_check(n == __NR_io_uring_enter, "enter"); return [](int fd, unsigned s, unsigned m, unsigned f, auto...) { return k_enter(fd, s, m, f); }(a...); } }
static void* k_mmap(void*, std::size_t n, int, int, int fd, long off) { vp_check(fd == 7, "the ring is mapped"); long w = vp_add(&n_map, 1); if (failing(f_map1 + (int) w - 1)) { vp_add(&n_map, -1); eno = ENOMEM; return MAP_FAILED; }
  if (off == IORING_OFF_SQES) { vp_check(n >= sizeof(io_uring_sqe) * NE, "the whole queue is mapped"); return Q; } if (off == IORING_OFF_SQ_RING) vp_check(n >= offsetof(ring, arr) + 4 * NE, "the whole queue is mapped"); else vp_check(n >= offsetof(ring, cqes) + sizeof(io_uring_cqe) * 2 * NE, "the whole queue is mapped"); return R; }
static int k_munmap(void* p, std::size_t) { vp_check(p == R || p == Q, "what was mapped is unmapped"); vp_add(&n_map, -1); return 0; }
static int k_eventfd(unsigned, int) { if (failing(f_eventfd)) { eno = EMFILE; return -1; } vp_add(&n_fd, 1); return 8; }
static long k_write(int fd, const void* p, std::size_t n) { vp_check(fd == 8 && n == 8 && *(const unsigned long*) p == 1, "the wakeup event is signalled"); long k = vp_add(&n_efd, 1); vp_event_set(&efd_told[k - 1]); return 8; }
static int k_close(int fd) { vp_check(fd == 7 || fd == 8, "a descriptor of its own is closed"); vp_add(&n_fd, -1); return 0; }
#undef errno
#define errno eno
#define syscall(...) vp_syscall_(__VA_ARGS__)
#define mmap(...) k_mmap(__VA_ARGS__)
#define munmap(...) k_munmap(__VA_ARGS__)
#define eventfd(...) k_eventfd(__VA_ARGS__)
#define write(...) k_write(__VA_ARGS__)
#define close(...) k_close(__VA_ARGS__)
#include <exec/linux/io_uring_context.hpp>
#undef write
#undef close
struct scat : std::error_category { const char* name() const noexcept override { return "system"; } std::string message(int) const override { return {}; } };
static scat the_cat;
const std::error_category& std::_V2::system_category() noexcept { return the_cat; }
using namespace vp;
using C = exec::io_uring_context;
struct ok_ { ~ok_() { vp_check(vp_get(&n_map) == 0 && vp_get(&n_fd) == 0, "every mapping and descriptor is released"); if (R) { ::operator delete(R); ::operator delete(Q); } } };
template <class S, class Env = ex::env<>> struct trun {
  using Rc = rcv<Env, ex::completion_signatures_of_t<S, Env>>; obs o; rcv_hooks h; box<ex::connect_result_t<S, Rc>> b; char done; void (*then)(void*) = nullptr; void* arg = nullptr;
  explicit trun(S s, Env e = {}) : h{&o, &after, this} { b.emplace_from([&] { return ex::connect(static_cast<S&&>(s), Rc{&h, static_cast<Env&&>(e)}); }); }
  static void after(void* p) { auto* q = static_cast<trun*>(p); q->b.destroy(); if (q->then) q->then(q->arg); vp_event_set(&q->done); }
  void start() noexcept { ex::start(b.get()); }
};
template <class S> trun(S) -> trun<S>;
template <class S, class E> trun(S, E) -> trun<S, E>;
using sched_op = trun<decltype(ex::schedule(std::declval<exec::io_uring_scheduler>()))>;
static C* X;
VP_TEST(unused) { ok_ g; C c{2}; auto s = c.get_scheduler(); vp_check(s == c.get_scheduler(), "schedulers of one context compare equal"); vp_check(!c.is_running() && !c.stop_requested(), "a new context is idle"); }
VP_TEST(empty) { ok_ g; C c{2}; c.run_until_empty(); }
VP_TEST(one) { ok_ g; C c{2}; trun r{ex::schedule(c.get_scheduler())}; r.start(); r.o.expect_none(); c.run_until_empty(); r.o.expect_once(); r.o.expect_value(0); }
template <class S> static void once(C& c, S s) { trun r{s}; r.start(); c.run_until_empty(); r.o.expect_once(); r.o.expect_value(0); }
VP_TEST(twice) { ok_ g; C c{2}; auto s = ex::schedule(c.get_scheduler()); trun a{s}, b{s}; a.start(); c.run_until_empty(); a.o.expect_value(0); b.o.expect_none(); b.start(); c.run_until_empty(); a.o.expect_once(); b.o.expect_once(); b.o.expect_value(0); }
VP_TEST(many) { ok_ g; C c{2}; auto s = ex::schedule(c.get_scheduler()); trun a{s}, b{s}, d{s}, e{s}; a.start(); b.start(); d.start(); e.start(); c.run_until_empty(); a.o.expect_value(0); b.o.expect_value(0); d.o.expect_value(0); e.o.expect_value(0); }
static sched_op* NX; static void next_(void*) { NX->start(); }
VP_TEST(from_completion) { ok_ g; C c{2}; trun b{ex::schedule(c.get_scheduler())}; sched_op a{ex::schedule(c.get_scheduler())}; NX = &b; a.then = next_; a.start(); c.run_until_empty(); a.o.expect_once(); b.o.expect_once(); b.o.expect_value(0); }
static auto in_(C& c, long n) { return exec::schedule_after(c.get_scheduler(), std::chrono::nanoseconds{n}); }
VP_TEST(timers) { ok_ g; C c{2}; trun a{in_(c, 5)}, b{in_(c, 6)}; a.start(); b.start(); c.run_until_empty(); a.o.expect_once(); b.o.expect_once(); a.o.expect_value(0); b.o.expect_value(0); }
VP_TEST(three_timers) { ok_ g; C c{2}; trun a{in_(c, 5)}, b{in_(c, 6)}, d{in_(c, -7)}; a.start(); b.start(); d.start(); c.run_until_empty(); a.o.expect_once(); b.o.expect_once(); d.o.expect_once(); d.o.expect_value(0); }
VP_TEST(timers_twice) { ok_ g; C c{2}; trun a{in_(c, 5)}, b{in_(c, 6)}; a.start(); c.run_until_empty(); a.o.expect_once(); b.start(); c.run_until_empty(); b.o.expect_once(); b.o.expect_value(0); }
struct senv { ex::inplace_stop_token t; auto query(ex::get_stop_token_t) const noexcept { return t; } };
VP_TEST(timer_stop_before) { ok_ g; C c{2}; ex::inplace_stop_source src; src.request_stop(); trun a{in_(c, 5), senv{src.get_token()}}; a.start(); c.run_until_empty(); a.o.expect_once(); a.o.expect_stopped(); }
VP_TEST(sched_stop_before) { ok_ g; C c{2}; ex::inplace_stop_source src; src.request_stop(); trun a{ex::schedule(c.get_scheduler()), senv{src.get_token()}}; a.start(); c.run_until_empty(); a.o.expect_once(); a.o.expect_stopped(); }
static void stop_it(void* p) { static_cast<ex::inplace_stop_source*>(p)->request_stop(); }
VP_TEST(timer_stop) { vp_config("preempt", 2); vp_set(&far_, vp_choose(2, "timers are far away")); ok_ g; C c{2}; ex::inplace_stop_source src; trun a{in_(c, 5), senv{src.get_token()}}; a.start(); int t = vp_spawn(stop_it, &src, "stop"); c.run_until_empty(); vp_join(t); a.o.expect_once(); if (a.o.ch() != stopped) a.o.expect_value(0); }
VP_TEST(timer_stop_by_other) { ok_ g; C c{2}; ex::inplace_stop_source src; trun a{in_(c, 5), senv{src.get_token()}}; sched_op b{ex::schedule(c.get_scheduler())}; b.then = stop_it; b.arg = &src; if (vp_choose(2, "order")) { a.start(); b.start(); } else { b.start(); a.start(); } c.run_until_empty(); a.o.expect_once(); b.o.expect_once(); b.o.expect_value(0); if (a.o.ch() != stopped) a.o.expect_value(0); }
// stopping the context
static void stop_ctx(void* p) { static_cast<C*>(p)->request_stop(); }
VP_TEST(stopped_before) { ok_ g; C c{2}; c.request_stop(); vp_check(c.stop_requested(), "stop was requested"); c.run_until_stopped(); if (vp_choose(2, "timer")) { trun a{in_(c, 5)}; a.start(); a.o.expect_once(); a.o.expect_stopped(); } else { trun a{ex::schedule(c.get_scheduler())}; a.start(); a.o.expect_once(); a.o.expect_stopped(); } }
VP_TEST(stopped_timer) { ok_ g; C c{2}; trun b{in_(c, 5)}; b.start(); c.request_stop(); c.run_until_stopped(); b.o.expect_once(); b.o.expect_stopped(); }
VP_TEST(stopped_pending) { ok_ g; C c{2}; trun a{ex::schedule(c.get_scheduler())}; trun b{in_(c, 5)}; a.start(); b.start(); c.request_stop(); c.run_until_stopped(); a.o.expect_once(); b.o.expect_once(); a.o.expect_stopped(); b.o.expect_stopped(); }
VP_TEST(stopped_running) { ok_ g; C c{2}; trun b{in_(c, 5)}; sched_op a{ex::schedule(c.get_scheduler())}; a.then = stop_ctx; a.arg = &c; if (vp_choose(2, "order")) { a.start(); b.start(); } else { b.start(); a.start(); } c.run_until_stopped(); a.o.expect_once(); b.o.expect_once(); a.o.expect_value(0); b.o.expect_stopped(); }
static void run_it(void*) { X->run_until_stopped(); }
VP_TEST(stopped_elsewhere) { vp_config("preempt", 2); vp_set(&far_, vp_choose(2, "timers are far away")); ok_ g; { C c{2}; trun b{in_(c, 5)}; b.start(); int t = vp_spawn(stop_ctx, &c, "stop"); c.run_until_stopped(); vp_join(t); b.o.expect_once(); if (b.o.ch() != stopped) b.o.expect_value(0); } }
VP_TEST(remote) { vp_config("preempt", 2); ok_ g; { C c{2}; X = &c; int t = vp_spawn(run_it, nullptr, "driver"); trun a{ex::schedule(c.get_scheduler())}; a.start(); vp_event_wait(&a.done); a.o.expect_once(); a.o.expect_value(0); vp_check(a.o.thread() == t, "on the thread that drives the context"); c.request_stop(); vp_join(t); } }
VP_TEST(remote_after) { vp_config("preempt", 2); ok_ g; { C c{2}; X = &c; int t = vp_spawn(run_it, nullptr, "driver"); trun a{in_(c, 5)}; a.start(); vp_event_wait(&a.done); a.o.expect_once(); a.o.expect_value(0); vp_check(a.o.thread() == t, "on the thread that drives the context"); c.request_stop(); vp_join(t); } }
VP_TEST(remote_races_stop) { vp_config("preempt", 2); ok_ g; { C c{2}; X = &c; int t = vp_spawn(run_it, nullptr, "driver"); int u = vp_spawn(stop_ctx, &c, "stop"); trun a{ex::schedule(c.get_scheduler())}; a.start(); vp_event_wait(&a.done); a.o.expect_once(); if (a.o.ch() != stopped) a.o.expect_value(0); vp_join(u); vp_join(t); } }
// after a stop, the context can be run again
VP_TEST(restart) { ok_ g; { C c{2}; c.request_stop(); c.run_until_stopped(); trun a{ex::schedule(c.get_scheduler())}; a.start(); a.o.expect_stopped(); trun b{ex::schedule(c.get_scheduler())}; c.run_until_empty(); b.start(); c.run_until_empty(); b.o.expect_once(); b.o.expect_value(0); } }
VP_TEST(reset) { ok_ g; { C c{2}; c.request_stop(); c.run_until_stopped(); c.reset(); vp_check(!c.stop_requested(), "the stop request is gone"); trun b{ex::schedule(c.get_scheduler())}; b.start(); c.run_until_empty(); b.o.expect_once(); b.o.expect_value(0); } }
VP_TEST(restart_remote) { vp_config("preempt", 2); ok_ g; { C c{2}; X = &c; c.request_stop(); c.run_until_stopped(); c.run_until_empty(); int t = vp_spawn(run_it, nullptr, "driver"); trun a{ex::schedule(c.get_scheduler())}; a.start(); vp_event_wait(&a.done); a.o.expect_once(); c.request_stop(); vp_join(t); } }
static void fin_ctx(void* p) { static_cast<C*>(p)->finish(); }
VP_TEST(finish) { vp_config("preempt", 2); ok_ g; { C c{2}; int t = vp_spawn(fin_ctx, &c, "finish"); c.run_until_stopped(); vp_join(t); vp_check(!c.stop_requested() && !c.is_running(), "it was not stopped"); trun a{ex::schedule(c.get_scheduler())}; a.start(); c.run_until_empty(); a.o.expect_once(); a.o.expect_value(0); } }
// run() as a sender
VP_TEST(run_sender) { ok_ g; { C c{2}; trun a{ex::schedule(c.get_scheduler())}; trun r{c.run(exec::until::empty)}; a.start(); r.start(); r.o.expect_once(); r.o.expect_value(0); a.o.expect_once(); } }
VP_TEST(run_sender_stopped) { ok_ g; { C c{2}; ex::inplace_stop_source src; if (vp_choose(2, "already")) src.request_stop(); trun a{ex::schedule(c.get_scheduler())}; sched_op b{ex::schedule(c.get_scheduler())}; b.then = stop_it; b.arg = &src; trun r{c.run(), senv{src.get_token()}}; a.start(); b.start(); r.start(); r.o.expect_once(); r.o.expect_stopped(); a.o.expect_once(); b.o.expect_once(); } }
VP_TEST(run_sender_fails) { ok_ g; { C c{2}; vp_set(&fail_at, f_enter); trun r{c.run()}; r.start(); r.o.expect_once(); vp_check(r.o.ch() == error, "a failing kernel call is reported"); } }
VP_TEST(run_again) { ok_ g; { C c{2}; X = &c; trun r{c.run(exec::until::empty)}; sched_op a{ex::schedule(c.get_scheduler())}; a.then = [](void*) { try { X->run_until_empty(); vp_check(false, "a running context cannot be run"); } catch (const std::runtime_error&) {} }; a.start(); r.start(); r.o.expect_once(); r.o.expect_value(0); } }
// construction fails
VP_TEST(setup_fails) { int w = vp_choose(6, "which call fails"); vp_set(&fail_at, w); ok_ g; try { C c{2}; vp_check(w == f_none || w == f_map3 || w == f_enter, "a failing kernel call is reported"); }
  catch (const std::system_error& e) { vp_check(w != f_none, "no call failed"); vp_check(e.code().value() == (w == f_setup ? ENFILE : w == f_eventfd ? EMFILE : ENOMEM), "the error is the kernel's"); } }
VP_TEST(after) { ok_ g; C c{2}; trun r{exec::schedule_after(c.get_scheduler(), std::chrono::nanoseconds{2500000001})}; r.start(); c.run_until_empty(); r.o.expect_once(); r.o.expect_value(0); vp_check(vp_get(&seen_len) == 2500000001, "the kernel is asked for the given time"); }
// more than one timer is being cancelled while the context stops: the cancellations are not forgotten
VP_TEST(stop_two_timers) { vp_config("preempt", 2); vp_set(&far_, vp_choose(2, "timers are far away")); ok_ g; vp_set(&no_enter, 1); { C c{4}; trun a{in_(c, 5)}, b{in_(c, 6)}; a.start(); b.start(); int t = vp_spawn(stop_ctx, &c, "stop"); c.run_until_stopped(); vp_join(t); a.o.expect_once(); b.o.expect_once(); if (a.o.ch() != stopped) a.o.expect_value(0); if (b.o.ch() != stopped) b.o.expect_value(0); } }
VP_TEST(stop_both) { vp_config("preempt", 2); vp_set(&far_, 1); ok_ g; vp_set(&no_enter, 1); { C c{4}; ex::inplace_stop_source src; trun a{in_(c, 5), senv{src.get_token()}}; a.start(); int t = vp_spawn(stop_ctx, &c, "stop"); int u = vp_spawn(stop_it, &src, "stop op"); c.run_until_stopped(); vp_join(t); vp_join(u); a.o.expect_once(); if (a.o.ch() != stopped) a.o.expect_value(0); } }
VP_TEST(timer_after_stop) { vp_config("preempt", 2); vp_set(&far_, vp_choose(2, "timers are far away")); ok_ g; vp_set(&no_enter, 1); { C c{4}; X = &c; int t = vp_spawn(run_it, nullptr, "driver"); int u = vp_spawn(stop_ctx, &c, "stop"); trun a{in_(c, 5)}; a.start(); vp_event_wait(&a.done); a.o.expect_once(); if (a.o.ch() != stopped) a.o.expect_value(0); vp_join(u); vp_join(t); } }
VP_TEST(two_submitters) { vp_config("preempt", 2); ok_ g; vp_set(&no_enter, 1); { C c{2}; X = &c; trun b{ex::schedule(c.get_scheduler())}; NX = &b; int t = vp_spawn(run_it, nullptr, "driver"); int u = vp_spawn(next_, nullptr, "other"); trun a{ex::schedule(c.get_scheduler())}; a.start(); vp_event_wait(&a.done); vp_event_wait(&b.done); a.o.expect_once(); a.o.expect_value(0); b.o.expect_once(); b.o.expect_value(0); vp_join(u); c.request_stop(); vp_join(t); } }
VP_TEST(reuse) { ok_ g; { C c{2}; ex::inplace_stop_source s1, s2; s1.request_stop(); s2.request_stop(); { trun r{c.run(), senv{s1.get_token()}}; r.start(); r.o.expect_once(); r.o.expect_stopped(); } trun b{in_(c, 5)}; b.start(); b.o.expect_once(); b.o.expect_stopped(); trun q{c.run(exec::until::empty), senv{s2.get_token()}}; q.start(); q.o.expect_once(); q.o.expect_stopped(); } }
VP_TEST(running_twice) { ok_ g; { C c{2}; X = &c; trun b{in_(c, 5)}; sched_op a{ex::schedule(c.get_scheduler())}; a.then = [](void*) { try { if (vp_choose(2, "as a sender")) { trun r{X->run()}; r.start(); r.o.expect_once(); vp_check(r.o.ch() == error, "a running context cannot be run"); } else { X->run_until_stopped(); vp_check(false, "a running context cannot be run"); } } catch (const std::runtime_error&) {} vp_check(X->is_running(), "it still runs"); try { X->reset(); vp_check(false, "a running context cannot be reset"); } catch (const std::runtime_error&) {} }; a.start(); b.start(); c.run_until_empty(); vp_check(!c.is_running(), "it stopped running"); a.o.expect_once(); b.o.expect_once(); b.o.expect_value(0); } }
VP_TEST(at) { ok_ g; C c{2}; auto s = c.get_scheduler(); auto t = s.now() + std::chrono::nanoseconds{700}; trun r{exec::schedule_at(s, t)}; r.start(); c.run_until_empty(); r.o.expect_once(); r.o.expect_value(0); vp_check(vp_get(&seen_len) == 700, "the kernel is asked for the given time"); }
VP_TEST(past) { ok_ g; C c{2}; trun r{in_(c, -2500000001)}; r.start(); c.run_until_empty(); r.o.expect_value(0); vp_check(vp_get(&seen_len) == 0, "a time in the past is now"); }
VP_TEST(attrs) { ok_ g; C c{2}; auto s = c.get_scheduler(); vp_check(!(s == exec::io_uring_scheduler{nullptr}), "schedulers of two contexts differ"); vp_check(ex::get_completion_scheduler<ex::set_value_t>(ex::get_env(ex::schedule(s))) == s && ex::get_completion_scheduler<ex::set_value_t>(ex::get_env(in_(c, 5))) == s, "completes on its scheduler"); }
VP_TEST(moved_regions) { ok_ g; vp_set(&n_map, 2); R = (ring*) ::operator new(sizeof(ring)); Q = (io_uring_sqe*) ::operator new(64); { exec::memory_mapped_region a{R, sizeof(ring)}, b{Q, 64}; vp_check(bool(a) && a.data() == R && a.size() == sizeof(ring), "holds its region"); exec::memory_mapped_region e{std::move(a)}; vp_check(!a && e.data() == R, "a move hands the region on"); if (vp_choose(2, "assign")) { e = std::move(b); vp_check(vp_get(&n_map) == 1 && e.data() == Q && !b, "an assignment releases the old region"); } auto& same = e; e = std::move(same); vp_check(bool(e), "self-assignment keeps it"); } 
  vp_set(&n_fd, 2); { exec::safe_file_descriptor a{7}, b{8}; exec::safe_file_descriptor e{std::move(a)}; vp_check(!a && e.native_handle() == 7 && (int) e == 7, "a move hands the descriptor on"); switch (vp_choose(3, "how")) { case 0: e = std::move(b); vp_check(vp_get(&n_fd) == 1 && e.native_handle() == 8 && !b, "an assignment closes the old one"); break; case 1: e.reset(); vp_check(!e && vp_get(&n_fd) == 1, "reset closes"); } } }
// a rejected call does not end the running one
VP_TEST(rejected) { vp_config("preempt", 1); ok_ g; { C c{2}; X = &c; sched_op a{ex::schedule(c.get_scheduler())}; a.then = [](void*) { try { X->run_until_empty(); vp_check(false, "a running context cannot be run"); } catch (const std::runtime_error&) {} }; a.start(); int t = vp_spawn(stop_ctx, &c, "stop"); c.run_until_stopped(); vp_check(c.stop_requested(), "it runs until it is stopped"); vp_join(t); a.o.expect_once(); } }

// run_loop, sync_wait, sync_wait_with_variant
#include "vp.hpp"
#include <system_error>
using namespace vp;

// an opaque unit of work scheduled on a run_loop
struct job;
static void on_done(void*);
struct job {
  using S = decltype(ex::schedule(std::declval<ex::run_loop&>().get_scheduler()));
  run<S> r; long id; char ran{};
  job(ex::run_loop& l, long id) : r{ex::schedule(l.get_scheduler())}, id(id) {}
  void start() { r.start(); }
  long n() { return r.o.n(); }
};
static ex::run_loop* L; static job* J[4];
static char seq;
static void t_start0(void*) { J[0]->start(); vp_event_set(&J[0]); }
static void t_start1(void*) { J[1]->start(); vp_event_set(&J[1]); }
static void t_start2(void*) { J[2]->start(); vp_event_set(&J[2]); }
static void t_finish(void*) { L->finish(); }
static void t_start0_finish(void*) { J[0]->start(); L->finish(); }
static void t_start1_finish(void*) { J[1]->start(); L->finish(); }
static void t_run(void*) { L->run(); }

// receiver that records the order and runs a hook
struct seq_rcv { using receiver_concept = ex::receiver_tag; long* slot; ex::inplace_stop_token t; void (*hook)(); 
  void set_value() noexcept { *slot = vp_add(&seq, 1); if (hook) hook(); }
  void set_stopped() noexcept { *slot = -vp_add(&seq, 1); if (hook) hook(); }
  struct env { ex::inplace_stop_token t; auto query(ex::get_stop_token_t) const noexcept { return t; } };
  auto get_env() const noexcept { return env{t}; } };
using seq_op = decltype(ex::connect(ex::schedule(std::declval<ex::run_loop&>().get_scheduler()), std::declval<seq_rcv>()));
static seq_op* extra;
VP_TEST(fifo) {
  ex::run_loop l; ex::inplace_stop_source src; long s[4] = {}; L = &l;
  auto mk = [&](int i, void (*h)() = nullptr) { return ex::connect(ex::schedule(l.get_scheduler()), seq_rcv{&s[i], src.get_token(), h}); };
  auto d = mk(3); extra = &d;
  int who = vp_choose(4, "who schedules more work");
  auto a = mk(0, who == 0 ? [] { ex::start(*extra); } : nullptr), b = mk(1, who == 1 ? [] { ex::start(*extra); } : nullptr), c = mk(2, who == 2 ? [] { L->finish(); ex::start(*extra); } : nullptr);
  ex::start(a); ex::start(b); ex::start(c);
  if (who == 3) ex::start(d);
  vp_check(s[0] == 0 && s[1] == 0 && s[2] == 0, "work does not run before run()");
  if (vp_choose(2, "stop requested")) src.request_stop();
  if (who != 2 || vp_choose(2, "finish called before")) l.finish();
  l.run();
  long k = src.stop_requested() ? -1 : 1;
  vp_check(s[0] == k && s[1] == 2 * k && s[2] == 3 * k && s[3] == 4 * k, "scheduled work runs once, in order, stopped exactly when stop was requested, before run returns");
}
VP_TEST(empty) { ex::run_loop l; l.finish(); l.run(); }
VP_TEST(finish_twice) { ex::run_loop l; l.finish(); l.finish(); l.run(); }
VP_TEST(run_waits) {              // run() started first; work and finish come from another thread
  vp_config("preempt", 3);
  box<ex::run_loop> b; ::new ((void*) b.mem) ex::run_loop; L = &b.get();
  job j(*L, 0); J[0] = &j;
  vp_spawn(t_start0_finish, nullptr, "producer");
  L->run();
  vp_check(j.n() == 1 && j.r.o.ch() == value, "work scheduled before finish is executed before run returns");
  b.destroy();                    // finish() on the other thread must not touch the loop any more
  vp_join_all();
}
VP_TEST(two_finishers) {
  vp_config("preempt", 2);
  box<ex::run_loop> b; ::new ((void*) b.mem) ex::run_loop; L = &b.get();
  { job j0(*L, 0), j1(*L, 1); J[0] = &j0; J[1] = &j1;
  int a = vp_spawn(t_start0_finish, nullptr, "producer 1"), c = vp_spawn(t_start1_finish, nullptr, "producer 2");
  L->run();
  vp_join_all();
  vp_check(j0.n() + j1.n() >= 1, "run executes what was scheduled before the finish it saw");
  if (j0.n() == 0 || j1.n() == 0) L->run();
  vp_check(j0.n() == 1 && j1.n() == 1, "work scheduled late is executed by a later run"); }
}
VP_TEST(producers) {
  vp_config("preempt", 2);
  ex::run_loop l; L = &l;
  job j0(l, 0), j1(l, 1), j2(l, 2); J[0] = &j0; J[1] = &j1; J[2] = &j2;
  vp_spawn(t_start0, nullptr, "producer 1"); vp_spawn(t_start1, nullptr, "producer 2");
  vp_spawn(t_run, nullptr, "runner");
  J[2]->start();
  vp_event_wait(&J[0]); vp_event_wait(&J[1]);
  l.finish();
  vp_join_all();
  vp_check(j0.n() == 1 && j1.n() == 1 && j2.n() == 1, "work scheduled before finish is executed exactly once before run returns");
}
VP_TEST(publication) {            // what the scheduling thread wrote is visible to the work
  vp_config("preempt", 2);
  static long data; data = 0;
  ex::run_loop l; L = &l;
  struct R { using receiver_concept = ex::receiver_tag; void set_value() noexcept { vp_check(data == 7, "the work sees what preceded its scheduling"); } void set_stopped() noexcept {} };
  static auto op = ex::connect(ex::schedule(l.get_scheduler()), R{});
  struct T { static void go(void*) { data = 7; ex::start(op); L->finish(); } };
  vp_spawn(T::go, nullptr, "producer");
  l.run();
  vp_join_all();
}
// ---- sync_wait ------------------------------------------------------------------------
template <class S>
static void sw(S s) {
  long got = -1; long ch = none; long p = 0;
  try {
    auto r = ex::sync_wait((S&&) s);
    if (r) { ch = value; p = as_long(*r); } else ch = stopped;
  } catch (const err& e) { ch = error; p = e.e; }
  catch (const std::system_error& e) { ch = error; p = e.code().value(); }
  (void) got;
  vp_check(kids[0].started() == 1 && kids[0].completed() == 1, "sync_wait starts the sender once and returns after it completed");
  vp_check(kids[0].connected() == kids[0].destroyed(), "the operation is destroyed before sync_wait returns");
  vp_check(ch == kids[0].ch(), "sync_wait returns a value, throws the error, or returns nothing for stopped");
  if (ch == value || ch == error) vp_check(p == kids[0].pay(), "sync_wait delivers the right datum");
}
VP_TEST(sw_inline) { sw(snd<0, m_inline, VL, EE, EP, SS>{}); }
struct cat_t final : std::error_category { const char* name() const noexcept override { return "c"; } std::string message(int) const override { return "m"; } };
static const std::error_category* cat() noexcept { static cat_t c; return &c; }
struct ec_snd {                       // fails with an error_code
  using sender_concept = ex::sender_tag;
  template <class, class...> static consteval auto get_completion_signatures() noexcept -> ex::completion_signatures<ex::set_value_t(), ex::set_error_t(std::error_code)> { return {}; }
  template <class R> struct op { using operation_state_concept = ex::operation_state_tag; R r; void start() & noexcept { ex::set_error(std::move(r), std::error_code(5, *cat())); } };
  template <ex::receiver R> auto connect(R r) const noexcept -> op<R> { return op<R>{std::move(r)}; }
};
VP_TEST(sw_error_code) {              // ... which is thrown as a system_error
  bool got = false;
  try { (void) ex::sync_wait(ec_snd{}); } catch (const std::system_error&) { got = true; }
  vp_check(got, "an error_code is thrown as a system_error");
}
VP_TEST(sw_move_only) { sw(snd<0, m_inline, VV, SS>{}); }
VP_TEST(sw_late) {
  vp_config("preempt", 3);
  spawn_fire_started(0);
  sw(snd<0, m_later, VL, EE, SS>{});
  vp_join_all();
}
VP_TEST(sw_throwing_copy) {
  long ch = none, p = 0;
  try { auto r = ex::sync_wait(snd<0, m_inline, VT, SS>{}); if (r) { ch = value; p = as_long(*r); } else ch = stopped; } catch (const err& e) { ch = error; p = e.e; }
  if (kids[0].ch() == value) { vp_check(ch != stopped, "a throwing copy of the value is rethrown, not taken for stopped"); if (ch == value) vp_check(p == kids[0].pay(), "right value"); else vp_check(p == 77 || p == 78, "right exception"); }
  else vp_check(ch == stopped, "stopped gives nothing");
}
VP_TEST(sw_connect_throws) {
  try { auto r = ex::sync_wait(throwing_connect_snd<0, m_inline, VL>{}); vp_check(r.has_value() && as_long(*r) == kids[0].pay(), "right value"); }
  catch (const err& e) { vp_check(e.e == 55 && kids[0].started() == 0, "connect's exception leaves sync_wait"); }
}
VP_TEST(sw_variant) {
  long ch = none, p = 0;
  try { auto r = ex::sync_wait_with_variant(snd<0, m_inline, VL, VV, EE, SS>{}); if (r) { ch = value; p = as_long(*r); } else ch = stopped; } catch (const err& e) { ch = error; p = e.e; }
  vp_check(ch == kids[0].ch(), "right channel"); if (ch != stopped) vp_check(p == kids[0].pay(), "right datum");
}
// the environment's scheduler runs work on the waiting thread
VP_TEST(sw_env_scheduler) {
  vp_config("preempt", 2);
  static int me; me = vp_thread_id();
  spawn_fire_started(0);
  auto s = ex::let_value(ex::read_env(ex::get_scheduler), [](auto sched) noexcept { return ex::continues_on(snd<0, m_later, VL>{}, sched); }) | ex::then([](long v) noexcept { vp_check(vp_thread_id() == me, "work scheduled on sync_wait's scheduler runs on the waiting thread"); return v; });
  auto r = ex::sync_wait(std::move(s));
  vp_check(r.has_value() && as_long(*r) == kids[0].pay(), "right value");
  auto d = ex::sync_wait(ex::let_value(ex::read_env(ex::get_delegation_scheduler), [](auto sched) noexcept { return ex::schedule(sched); }) | ex::then([]() noexcept { return vp_thread_id(); }));
  vp_check(std::get<0>(*d) == me, "the delegation scheduler runs on the waiting thread");
  vp_join_all();
}

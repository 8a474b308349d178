// exec::trampoline_scheduler
#include "vp.hpp"
#include "exec/trampoline_scheduler.hpp"
using namespace vp;
using Sch = exec::trampoline_scheduler;
static char ran[8], nest, seq;
// operation i, when it completes, starts the operations first[i], first[i]+1, ...
struct node; static node* N[8]; static int kidsof[8][3]; static int D;
struct nrcv { using receiver_concept = ex::receiver_tag; node* n; ex::inplace_stop_token t;
  void set_value() && noexcept; void set_stopped() && noexcept; auto get_env() const noexcept { return stop_env{t}; } };
struct node { int i; ex::inplace_stop_token t; box<ex::connect_result_t<ex::schedule_result_t<Sch>, nrcv>> b; long order{}; int thread = -1; char done{}; bool v{};
  node(int i, Sch s, ex::inplace_stop_token t = {}) : i(i), t(t) { N[i] = this; b.emplace_from([&] { return ex::connect(ex::schedule(s), nrcv{this, t}); }); }
  void start() { ex::start(b.get()); }
  void complete(bool value) noexcept {
    vp_check(vp_add(&done, 1) == 1, "an operation completes once"); order = vp_add(&seq, 1); thread = vp_thread_id(); v = value;
    b.destroy();                                   // the operation may be destroyed at its completion
    vp_check(vp_add(&nest, 1) <= D, "operations are nested at most as deep as the scheduler was told");
    for (int k : kidsof[i]) if (k) N[k]->start();
    vp_add(&nest, -1);
  } };
void nrcv::set_value() && noexcept { n->complete(true); }
void nrcv::set_stopped() && noexcept { n->complete(false); }
static bool all(int n) { for (int i = 0; i < n; ++i) if (vp_get(&N[i]->done) != 1) return false; return true; }
static void chain(Sch s, int depth, int span) {   // 0 starts 1 starts 2 ...
  vp_config("stackspan", span); D = depth;
  node a{0, s}, b{1, s}, c{2, s}, d{3, s}, e{4, s}; for (int i = 0; i < 4; ++i) kidsof[i][0] = i + 1;
  a.start(); vp_check(all(5), "everything has run when the outermost start returns"); vp_check(a.order == 1 && b.order == 2 && c.order == 3 && d.order == 4 && e.order == 5, "each runs after the one that started it"); vp_check(vp_get(&nest) == 0, "balanced");
  for (int i = 0; i < 5; ++i) vp_check(N[i]->v, "value");
}
VP_TEST(chain_default) { chain(Sch{}, 16, 8); }
VP_TEST(chain_far) { chain(Sch{}, 16, 5000); }
VP_TEST(chain_1) { chain(Sch{1}, 1, 8); }
VP_TEST(chain_2) { chain(Sch{2}, 2, 8); }
VP_TEST(chain_3) { chain(Sch{3, 100}, 3, 8); }
VP_TEST(chain_small) { chain(Sch{3, 100}, 1, 200); }
VP_TEST(chain_size) { chain(Sch{100, 3}, 1, 8); }
// one operation starts several: those that cannot run at once run in the order they were started
VP_TEST(fifo) {
  vp_config("stackspan", 8); int dep = 1 + vp_choose(2, "depth"); D = dep; Sch s{(std::size_t) dep};
  node a{0, s}, b{1, s}, c{2, s}, d{3, s}, e{4, s}, f{5, s}; kidsof[0][0] = 1; kidsof[0][1] = 2; kidsof[0][2] = 3; kidsof[1][0] = 4; kidsof[2][0] = 5;
  a.start(); vp_check(all(6), "everything has run when the outermost start returns"); if (dep == 1) vp_check(a.order == 1 && b.order == 2 && c.order == 3 && d.order == 4 && e.order == 5 && f.order == 6, "deferred operations run in the order they were started");
}
VP_TEST(again) { // the trampoline is left clean: a later schedule runs at once
  D = 2; Sch s{2}; node a{0, s}, b{1, s}, c{2, s}; kidsof[0][0] = 1; a.start(); vp_check(vp_get(&a.done) && vp_get(&b.done), "run"); vp_check(!vp_get(&c.done), "not yet"); c.start(); vp_check(vp_get(&c.done) == 1, "run"); }
VP_TEST(stops) {
  vp_config("stackspan", 8); int dep = 1 + vp_choose(2, "depth"); D = dep; Sch s{(std::size_t) dep}; ex::inplace_stop_source src; bool pre = vp_choose(2, "stopped"); if (pre) src.request_stop();
  node a{0, s}, b{1, s, src.get_token()}, c{2, s}; kidsof[0][0] = 1; kidsof[1][0] = 2; a.start(); vp_check(all(3), "everything has run when the outermost start returns"); vp_check(b.v == !pre && a.v && c.v, "stopped exactly when its stop token says so"); }
VP_TEST(threads) { // each thread has its own trampoline
  vp_config("preempt", 2); D = 4; Sch s{1}; static node *A, *B; node a{0, s}, b{1, s}, c{2, s}, d{3, s}; A = &a; B = &b; kidsof[0][0] = 2; kidsof[1][0] = 3;
  vp_spawn([](void*) { B->start(); vp_check(vp_get(&B->done) && vp_get(&N[3]->done), "run"); }, nullptr, "second");
  a.start(); vp_check(vp_get(&a.done) && vp_get(&c.done), "run on this thread"); vp_check(a.thread == 0 && c.thread == 0, "an operation runs on the thread that started it"); vp_join(1); vp_check(b.thread == 1 && d.thread == 1, "an operation runs on the thread that started it"); }
VP_TEST(misc) { vp_check(Sch{} == Sch{} && Sch{3} == Sch{3} && !(Sch{3} == Sch{4}) && !(Sch{3, 7} == Sch{3, 8}), "schedulers are equal if they have the same limits"); run r{ex::schedule(Sch{})}; r.o.expect_none(); r.start(); r.o.expect_once(); vp_check(r.o.ch() == value, "value"); }

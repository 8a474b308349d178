// inplace_stop_source / inplace_stop_token / inplace_stop_callback
#include "vp.hpp"
using namespace vp;

struct cb_obs { char runs{}, dead{}, in{}; };
struct fn { cb_obs* c; void operator()() const noexcept {
  vp_check(vp_add(&c->runs, 1) == 1, "a stop callback runs at most once");
  vp_check(vp_get(&c->dead) == 0, "a stop callback does not run after its deregistration finished");
  vp_set(&c->in, 1); vp_yield_point(); 
  vp_check(vp_get(&c->dead) == 0, "deregistration waits for a callback running on another thread");
  vp_set(&c->in, 0); }
  static void vp_yield_point() noexcept { static char e; vp_event_set(&e); } };
using cb_t = ex::inplace_stop_callback<fn>;
struct holder {
  box<cb_t> b; cb_obs c;
  void reg(ex::inplace_stop_token t) { b.emplace_from([&] { return cb_t{t, fn{&c}}; }); }
  void unreg() { b.get().~cb_t(); vp_set(&c.dead, 1); vp_kill(b.mem, sizeof(b.mem)); }
  long runs() { return vp_get(&c.runs); }
};
static ex::inplace_stop_source* src;
static holder* hs[4];
static void t_request(void*) {
  bool first = src->request_stop();
  static char firsts;
  if (first) { vp_check(vp_add(&hs[0], 1) == 1, "only one request_stop reports success"); }
  vp_check(src->stop_requested(), "stop_requested is true after request_stop returns");
  (void) firsts;
}
static void t_unreg0(void*) { hs[0]->unreg(); }
static void t_reg1(void*) { hs[1]->reg(src->get_token()); }

VP_TEST(sequential) {
  ex::inplace_stop_source s; src = &s; holder a, b; hs[0] = &a; hs[1] = &b;
  auto tok = s.get_token();
  vp_check(tok.stop_possible() && !tok.stop_requested() && !s.stop_requested(), "no stop requested initially");
  a.reg(tok); b.reg(tok);
  bool un = vp_choose(2, "deregister the first before the request") == 1;
  if (un) a.unreg();
  vp_check(a.runs() == 0 && b.runs() == 0, "no callback runs before a request");
  vp_check(s.request_stop(), "the first request succeeds");
  vp_check(tok.stop_requested() && s.stop_requested(), "the request is visible");
  vp_check(a.runs() == !un, "every registered callback ran when request_stop returned");
  vp_check(b.runs() == 1, "every registered callback ran when request_stop returned");
  vp_check(!s.request_stop(), "a second request does nothing");
  vp_check(b.runs() == 1, "a second request runs nothing");
  holder c; c.reg(tok);
  vp_check(c.runs() == 1, "a callback registered after the request runs at once");
  c.unreg(); b.unreg(); if (!un) a.unreg();
  vp_check(!ex::inplace_stop_token{}.stop_possible() && !ex::inplace_stop_token{}.stop_requested(), "an empty token can never be stopped");
  vp_check(tok == s.get_token() && !(tok == ex::inplace_stop_token{}), "tokens compare by source");
}
VP_TEST(tokens) {             // tokens are values: assignment and swap carry the source along
  ex::inplace_stop_source s, t; holder h; cb_obs* c = &h.c;
  auto a = s.get_token(); auto b = t.get_token(); ex::inplace_stop_token none;
  int how = vp_choose(4, "how the token gets there");
  ex::inplace_stop_token x = b;
  if (how == 0) x = std::move(a); else if (how == 1) x = a; else if (how == 2) x.swap(a); else { ex::inplace_stop_token y{std::move(a)}; x = std::move(y); }
  vp_check(x == s.get_token() && !(x == t.get_token()), "the token stands for the source it came from");
  if (how == 2) vp_check(a == t.get_token(), "swap carries both over");
  if (how == 1) vp_check(a == x, "the source of a copy is unchanged");
  h.reg(x);
  bool first = vp_choose(2, "which source is stopped") == 0;
  (first ? s : t).request_stop();
  vp_check(vp_get(&c->runs) == first && x.stop_requested() == first && x.stop_possible(), "it follows its source and no other");
  x = none; vp_check(!x.stop_possible() && !x.stop_requested(), "an empty token can never be stopped");
  h.unreg();
}
VP_TEST(order_of_lists) {     // three callbacks, any one removed first
  ex::inplace_stop_source s; holder h[3]; auto t = s.get_token();
  for (auto& x : h) x.reg(t);
  int r = vp_choose(4, "which is removed");
  if (r < 3) h[r].unreg();
  int q = vp_choose(4, "which is removed next");
  if (q == r) q = 3;
  if (q < 3) h[q].unreg();
  holder late; bool l = vp_choose(2, "one more registered") == 1; if (l) late.reg(t);
  s.request_stop();
  for (int i = 0; i < 3; i++) { bool reg = i != r && i != q; vp_check(h[i].runs() == reg, "exactly the registered callbacks ran"); if (reg) h[i].unreg(); }
  if (l) { vp_check(late.runs() == 1, "exactly the registered callbacks ran"); late.unreg(); }
}
VP_TEST(request_vs_unregister) {
  vp_config("preempt", 3);
  ex::inplace_stop_source s; src = &s; holder a; hs[0] = &a;
  a.reg(s.get_token());
  vp_spawn(t_request, nullptr, "requester");
  a.unreg();
  vp_join_all();
}
VP_TEST(request_vs_register) {
  vp_config("preempt", 3);
  ex::inplace_stop_source s; src = &s; holder a; hs[0] = &a;
  vp_spawn(t_request, nullptr, "requester");
  a.reg(s.get_token());
  bool e = vp_choose(2, "deregister at once") == 1;
  if (e) { a.unreg(); vp_join_all(); }
  else { vp_join_all(); vp_check(a.runs() == 1, "a callback registered before or during a request is run"); a.unreg(); }
}
VP_TEST(two_requests) {
  vp_config("preempt", 3);
  ex::inplace_stop_source s; src = &s; holder a, b; hs[0] = &a; hs[1] = &b;
  a.reg(s.get_token());
  vp_spawn(t_request, nullptr, "requester 1");
  vp_spawn(t_request, nullptr, "requester 2");
  vp_join_all();
  vp_check(vp_get(&hs[0]) == 1, "one request_stop reports success");
  vp_check(a.runs() == 1, "the callback ran once");
  a.unreg();
}
VP_TEST(three_threads) {
  vp_config("preempt", 2);
  ex::inplace_stop_source s; src = &s; holder a, b; hs[0] = &a; hs[1] = &b;
  a.reg(s.get_token());
  vp_spawn(t_request, nullptr, "requester");
  vp_spawn(t_reg1, nullptr, "registrar");
  a.unreg();
  vp_join_all();
  vp_check(b.runs() == 1, "a callback registered before, during or after the request is run");
  b.unreg();
}
VP_TEST(register_vs_unregister) {
  vp_config("preempt", 3);
  ex::inplace_stop_source s; src = &s; holder a, b, c; hs[0] = &a; hs[1] = &b;
  c.reg(s.get_token()); a.reg(s.get_token());
  vp_spawn(t_reg1, nullptr, "registrar");
  a.unreg();
  vp_join_all();
  s.request_stop();
  vp_check(b.runs() == 1 && c.runs() == 1 && a.runs() == 0, "exactly the registered callbacks ran");
  b.unreg(); c.unreg();
}
// a callback may deregister itself or another callback, or register a new one
struct act { void (*f)(void*); void* p; void operator()() const noexcept { auto g = f; auto q = p; g(q); } };
using acb = ex::inplace_stop_callback<act>;
static box<acb>* ab[3]; static char ran[3];
VP_TEST(self_removal) {
  ex::inplace_stop_source s; box<acb> x; holder other; ab[0] = &x;
  bool first = vp_choose(2, "other registered first") == 1;
  if (first) other.reg(s.get_token());
  x.emplace_from([&] { return acb{s.get_token(), act{[](void*) { vp_add(&ran[0], 1); ab[0]->destroy(); }, nullptr}}; });
  if (!first) other.reg(s.get_token());
  s.request_stop();
  vp_check(vp_get(&ran[0]) == 1 && other.runs() == 1, "both callbacks ran once");
  other.unreg();
}
VP_TEST(remove_other) {
  ex::inplace_stop_source s; src = &s; box<acb> x; holder other, o2; hs[0] = &other;
  o2.reg(s.get_token());
  other.reg(s.get_token());
  x.emplace_from([&] { return acb{s.get_token(), act{[](void*) { if (hs[0]->runs() == 0) hs[0]->unreg(); vp_check(src->stop_requested(), "once requested, a stop stays requested"); }, nullptr}}; });
  s.request_stop();
  vp_check(o2.runs() == 1, "the remaining callback ran");
  if (!vp_get(&other.c.dead)) other.unreg();
  x.destroy(); o2.unreg();
}
VP_TEST(register_inside) {
  ex::inplace_stop_source s; src = &s; box<acb> x; holder h; hs[0] = &h;
  x.emplace_from([&] { return acb{s.get_token(), act{[](void*) { hs[0]->reg(src->get_token()); vp_check(hs[0]->runs() == 1, "a callback registered during a request runs at once"); vp_check(!src->request_stop(), "a nested request does nothing"); }, nullptr}}; });
  s.request_stop(); x.destroy(); h.unreg();
}
VP_TEST(self_removal_vs_thread) {
  vp_config("preempt", 2);
  ex::inplace_stop_source s; src = &s; box<acb> x; holder h; ab[0] = &x; hs[0] = &h;
  h.reg(s.get_token());
  x.emplace_from([&] { return acb{s.get_token(), act{[](void*) { ab[0]->destroy(); }, nullptr}}; });
  vp_spawn(t_request, nullptr, "requester");
  vp_spawn(t_unreg0, nullptr, "deregistrar");
  vp_join_all();
}
// publication: what the requester wrote before request_stop is visible to who sees the stop
static long data;
static void t_pub(void*) { data = 42; src->request_stop(); }
VP_TEST(publication) {
  vp_config("preempt", 2);
  ex::inplace_stop_source s; src = &s; data = 0;
  vp_spawn(t_pub, nullptr, "requester");
  if (s.get_token().stop_requested()) VP_CHECK(data == 42);
  vp_join_all();
}
VP_TEST(publication_to_callback) {   // ... and to the callback that runs because of it
  vp_config("preempt", 2);
  ex::inplace_stop_source s; src = &s; data = 0;
  vp_spawn(t_pub, nullptr, "requester");
  {
    box<acb> x;
    x.emplace_from([&] { return acb{s.get_token(), act{[](void*) { VP_CHECK(data == 42); }, nullptr}}; });
    x.destroy();
  }
  vp_join_all();
}
// the source may be destroyed as soon as the request returned and callbacks are gone
static box<ex::inplace_stop_source>* sb;
static void t_req_sb(void*) { sb->get().request_stop(); vp_event_set(&sb); }
VP_TEST(callback_last_access) {
  vp_config("preempt", 3);
  box<ex::inplace_stop_source> b; sb = &b; ::new ((void*)b.mem) ex::inplace_stop_source; src = &b.get();
  holder h; h.reg(b.get().get_token());
  vp_spawn(t_req_sb, nullptr, "requester");
  h.unreg();
  vp_event_wait(&sb);
  b.destroy();
}

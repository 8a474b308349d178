// simple_counting_scope, counting_scope, associate, join, stop_when
#include "vp_scope.hpp"
using namespace vp;

// an associated operation, destroyed inside its own completion
template <class Scope, class S> using assoc_t = decltype(ex::associate(std::declval<S>(), std::declval<Scope&>().get_token()));
static char datum;

static joined_scope<ex::simple_counting_scope>* JS;
static joined_scope<ex::counting_scope>* JC;
static void t_join0(void*) { JS->join(0); }
static void t_join1(void*) { JS->join(1); }
static void t_close(void*) { JS->get().close(); }
static void t_fire0(void*) { plain[0] = 1; fire(0); }
static void t_fire1(void*) { plain[1] = 1; fire(1); }

template <class S> using arun = run<S>;
VP_TEST(basic) {                     // one associated operation, join before or after it completes
  joined_scope<ex::simple_counting_scope> s;
  run r{ex::associate(snd<0, m_any, VV, EE, SS>{}, s.get().get_token())};
  r.start();
  s.join();
  if (!kids[0].completed()) { s.o[0].expect_none(); r.o.expect_none(); fire(0); }
  vp_check(s.joined(), "join completes once the last associated operation is destroyed"); s.o[0].expect_once(); vp_check(s.o[0].ch() == value, "join completes with set_value");
  r.o.expect_once(); vp_check(r.o.ch() == kids[0].ch(), "an associated sender completes as its child"); if (r.o.ch() != stopped) vp_check(r.o.p() == kids[0].pay(), "with the child's datum");
}
VP_TEST(unused) { joined_scope<ex::simple_counting_scope> s; if (vp_choose(2, "close")) s.get().close(); if (vp_choose(2, "join")) { s.join(); vp_check(s.joined(), "joining an unused scope completes at once"); } else s.sc.destroy(); }
VP_TEST(closed) {
  joined_scope<ex::simple_counting_scope> s;
  int pre = vp_choose(2, "used before");
  if (pre) { run r{ex::associate(snd<0, m_inline, V0>{}, s.get().get_token())}; r.start(); r.o.expect_once(); vp_check(kids[0].started() == 1, "an associated operation runs"); }
  s.get().close();
  bool b = (bool) s.get().get_token().try_associate(); vp_check(!b, "a closed scope does not associate");
  run r{ex::associate(snd<1, m_inline, V0>{}, s.get().get_token())}; r.start(); r.o.expect_once(); r.o.expect_stopped();
  vp_check(kids[1].connected() == 0, "an operation a closed scope refuses never runs");
  s.join(); vp_check(s.joined(), "join completes");
}
VP_TEST(joined_refuses) {
  ex::simple_counting_scope s; 
  { run r{ex::associate(snd<0, m_inline, V0>{}, s.get_token())}; r.start(); }
  { run j{s.join(), inl_env{}}; j.start(); j.o.expect_once(); vp_check(j.o.ch() == value, "join completes"); }
  vp_check(!(bool) s.get_token().try_associate(), "a joined scope does not associate");
  { run j{s.join(), inl_env{}}; j.start(); j.o.expect_once(); vp_check(j.o.ch() == value, "a second join completes"); }
}
VP_TEST(unstarted) {                 // connected but never started, or never connected: still counted until destroyed
  joined_scope<ex::simple_counting_scope> s;
  int how = vp_choose(3, "how far it got");
  { auto a = ex::associate(snd<0, m_later, V0>{}, s.get().get_token());
    auto b = std::move(a);
    if (how == 0) { s.join(); vp_check(!s.joined(), "a live associated sender keeps the scope open"); }
    else { run r{std::move(b)}; if (how == 2) { s.join(); vp_check(!s.joined(), "a live associated operation keeps the scope open"); } }
  }
  if (how == 1) s.join();
  vp_check(s.joined(), "dropping the last association lets join complete");
}
VP_TEST(association) {
  joined_scope<ex::simple_counting_scope> s;
  { auto a = s.get().get_token().try_associate(); vp_check((bool) a, "an open scope associates");
    auto b = a.try_associate(); vp_check((bool) b, "an association begets another"); auto c = std::move(a); vp_check(!(bool) a && (bool) c, "moving an association empties the source");
    s.get().close(); vp_check(!(bool) b.try_associate(), "not after close");
    decltype(a) e; vp_check(!(bool) e.try_associate(), "an empty association begets an empty one");
    s.join(); vp_check(!s.joined(), "live associations keep the scope open"); }
  vp_check(s.joined(), "join completes when the last association goes");
}
VP_TEST(copies) {                    // copying an associated sender associates again
  joined_scope<ex::simple_counting_scope> s;
  { auto a = ex::associate(snd<0, m_inline, V0>{}, s.get().get_token());
    if (vp_choose(2, "closed before the copy")) { s.get().close(); auto b = a; run r{std::move(b)}; r.start(); r.o.expect_stopped(); }
    else { auto b = a; run r{std::move(b)}; r.start(); vp_check(r.o.ch() == value, "a copy runs"); s.join(); vp_check(!s.joined(), "the original still counts"); }
  }
  if (!s.op[0].full && !s.joined()) s.join();
  vp_check(s.joined(), "join completes");
}
struct counted_snd : snd<0, m_inline, V0> { counted_snd() { vp_add(&datum, 1); } counted_snd(const counted_snd&) noexcept { vp_add(&datum, 1); } counted_snd(counted_snd&&) noexcept { vp_add(&datum, 1); } ~counted_snd() { vp_add(&datum, -1); } };
VP_TEST(sender_lifetime) {           // every wrapped sender is destroyed once, whether the scope accepts it or not, before the association ends
  ex::simple_counting_scope s; vp_add(&datum, 0);
  int when = vp_choose(4, "closed when");
  if (when == 0) s.close();
  { auto a = ex::associate(counted_snd{}, s.get_token());
    vp_check(vp_get(&datum) == (when == 0 ? 0 : 1), "a refused sender is dropped at once, an accepted one is kept");
    if (when == 1) s.close();
    if (vp_choose(2, "copy")) { auto b = a; vp_check(vp_get(&datum) == (when <= 1 ? (when == 1) : 2), "copying into a closed scope makes no sender"); if (when == 2) s.close(); run r{b}; r.start(); r.o.expect_once(); vp_check(r.o.ch() == (when == 3 ? value : stopped), "a copy associates anew"); }
    else { auto b = std::move(a); if (when == 2) s.close(); run r{std::move(b)}; r.start(); r.o.expect_once(); vp_check(r.o.ch() == (when == 0 ? stopped : value), "an association made before close survives it"); }
  }
  vp_check(vp_get(&datum) == 0, "every sender built is destroyed once");
  run j{s.join(), inl_env{}}; j.start(); j.o.expect_once();
}
struct throwing_copy_snd : snd<0, m_inline, V0> { char c; throwing_copy_snd() {} throwing_copy_snd(const throwing_copy_snd&) noexcept(false) { if (vp_choose(2, "sender copy throws")) throw err{31}; vp_set(&c, 0); vp_add(&datum, 1); } throwing_copy_snd(throwing_copy_snd&&) noexcept(false) { if (vp_choose(2, "sender move throws")) throw err{32}; vp_add(&datum, 1); } ~throwing_copy_snd() { vp_add(&datum, -1); } };
VP_TEST(throwing_sender) {
  joined_scope<ex::simple_counting_scope> s;
  vp_add(&datum, 0);
  try { throwing_copy_snd x; vp_add(&datum, 1);
    auto a = ex::associate(std::move(x), s.get().get_token());
    if (vp_choose(2, "copy")) { auto b = a; } else { auto b = std::move(a); }
  } catch (const err&) { }
  vp_check(vp_get(&datum) == 0, "every sender built is destroyed once");
  s.join(); vp_check(s.joined(), "no association is leaked by an exception");
}
VP_TEST(throwing_connect) {
  joined_scope<ex::simple_counting_scope> s;
  try { run r{ex::associate(throwing_connect_snd<0, m_any, V0>{}, s.get().get_token())}; r.start(); fire(0); r.o.expect_once(); } catch (const err& e) { vp_check(e.e == 55, "the exception leaves connect"); }
  s.join(); vp_check(s.joined(), "no association is leaked by an exception");
}
VP_TEST(join_deferred) {             // join reschedules onto the joiner's scheduler when it had to wait
  ex::simple_counting_scope s;
  run r{ex::associate(snd<0, m_later, V0>{}, s.get_token())};
  r.start();
  run j{s.join(), join_env{}};
  j.start(); j.o.expect_none(); vp_check(kids[7].started() == 0, "join waits");
  fire(0); vp_check(kids[7].started() == 1, "a waiting join is resumed through its scheduler");
  if (!kids[7].completed()) { j.o.expect_none(); fire(7); }
  j.o.expect_once(); vp_check(j.o.ch() == value, "join completes with set_value");
}
struct bad_env { sch<7, m_any, V0, EE, SS> s; auto query(ex::get_start_scheduler_t) const noexcept { return s; } auto query(ex::get_scheduler_t) const noexcept { return s; } };
VP_TEST(join_scheduler_fails) {      // what the scheduler a waiting join comes back on reports is what join reports
  ex::simple_counting_scope s;
  run r{ex::associate(snd<0, m_later, V0>{}, s.get_token())};
  r.start();
  run j{s.join(), bad_env{}};
  j.start(); j.o.expect_none();
  fire(0);
  if (!kids[7].completed()) { j.o.expect_none(); fire(7); }
  j.o.expect_once(); vp_check(j.o.ch() == kids[7].ch(), "join completes as the scheduler it comes back on");
  if (j.o.ch() == error) vp_check(j.o.p(0) == kids[7].pay(), "right error");
}
VP_TEST(race_two_ops) {
  vp_config("preempt", 2);
  joined_scope<ex::simple_counting_scope> s; JS = &s;
  run a{ex::associate(snd<0, m_later, V0>{}, s.get().get_token())}; run b{ex::associate(snd<1, m_later, V0, SS>{}, s.get().get_token())};
  a.start(); b.start();
  vp_spawn(t_fire0, nullptr, "completion 0"); vp_spawn(t_fire1, nullptr, "completion 1");
  s.join();
  vp_join_all();
  vp_check(s.joined(), "join completes"); s.o[0].expect_once(); vp_check(s.seen[0] == 2, "join sees what the operations did");
}
VP_TEST(race_two_joins) {
  vp_config("preempt", 2);
  joined_scope<ex::simple_counting_scope> s; JS = &s; s.need = 2;
  run a{ex::associate(snd<0, m_later, V0>{}, s.get().get_token())};
  a.start();
  vp_spawn(t_fire0, nullptr, "completion"); vp_spawn(t_join1, nullptr, "second joiner");
  s.join();
  vp_join_all();
  vp_check(s.joined(), "both joins complete"); s.o[0].expect_once(); s.o[1].expect_once();
}
static bool got;
static void t_assoc(void*) { { auto a = JS->get().get_token().try_associate(); got = (bool) a; if (a) plain[1] = 5; } vp_event_set(&got); }
VP_TEST(race_associate_join) {       // a new association against join and the last disassociation
  vp_config("preempt", 3);
  ex::simple_counting_scope s; 
  static ex::simple_counting_scope* S; S = &s;
  run a{ex::associate(snd<0, m_later, V0>{}, s.get_token())}; a.start();
  vp_spawn([](void*) { { auto x = S->get_token().try_associate(); got = (bool) x; if (x) { plain[1] = 5; vp_add(&datum, 1); plain[1] = 6; vp_add(&datum, -1); } } vp_event_set(&got); }, nullptr, "associator");
  vp_spawn(t_fire0, nullptr, "completion");
  run j{s.join(), inl_env{}}; j.start();
  vp_join_all();
  j.o.expect_once();
}
struct seen_rcv { using receiver_concept = ex::receiver_tag; long* out; long* in; void set_value() noexcept { *out = *in; vp_event_set(out); } inl_env env_; auto get_env() const noexcept { return env_; } };
VP_TEST(race_associate_join_visible) { // whoever was associated happens before the join completion
  vp_config("preempt", 3);
  ex::simple_counting_scope s; static ex::simple_counting_scope* S; S = &s; static long w; static bool g; w = 0; g = false;
  long out = -1;
  auto first = s.get_token().try_associate();
  auto op = ex::connect(s.join(), seen_rcv{&out, &w});
  vp_spawn([](void*) { auto x = S->get_token().try_associate(); if (x) { w = 6; vp_set(&g, 1); } }, nullptr, "associator");
  if (vp_choose(2, "join first")) { ex::start(op); { auto y = std::move(first); } } else { { auto y = std::move(first); } ex::start(op); }
  vp_event_wait(&out); vp_join_all();
  vp_check(vp_get(&g) ? out == 6 : true, "a join completes only after every association that succeeded is gone, and sees its effects");
}
VP_TEST(race_close) {
  vp_config("preempt", 2);
  joined_scope<ex::simple_counting_scope> s; JS = &s;
  run a{ex::associate(snd<0, m_later, V0>{}, s.get().get_token())}; a.start();
  vp_spawn(t_fire0, nullptr, "completion"); int c = vp_spawn(t_close, nullptr, "close");
  vp_join(c);
  vp_check(!(bool) JS->get().get_token().try_associate(), "after close no association succeeds");
  s.join(); vp_join_all(); vp_check(s.joined(), "join completes");
}
VP_TEST(race_close_join) {           // close while the join is pending and completing
  vp_config("preempt", 2);
  ex::simple_counting_scope s; static ex::simple_counting_scope* S; S = &s;
  run a{ex::associate(snd<0, m_later, V0>{}, s.get_token())}; a.start();
  vp_spawn(t_fire0, nullptr, "completion"); vp_spawn([](void*) { S->close(); }, nullptr, "close");
  run j{s.join(), inl_env{}}; j.start(); vp_join_all(); j.o.expect_once();
}
static long closed_seen;
VP_TEST(close_publishes) {           // what happened before close is visible to whoever is refused
  vp_config("preempt", 2);
  ex::simple_counting_scope s; static ex::simple_counting_scope* S; S = &s; plain[0] = 0;
  vp_spawn([](void*) { plain[0] = 9; S->close(); }, nullptr, "closer");
  bool ok; { auto a = s.get_token().try_associate(); ok = (bool) a; }
  if (!ok) vp_check(plain[0] == 9, "a refused association sees what happened before close");
  vp_join_all();
  run j{s.join(), inl_env{}}; j.start(); j.o.expect_once();
}
VP_TEST(not_joined_terminates) {
  vp_config("terminate-ok", 1);
  int how = vp_choose(3, "state");
  { ex::simple_counting_scope s; auto* t = new (std::nothrow) decltype(s.get_token().try_associate())(s.get_token().try_associate());
    if (how == 1) s.close();
    if (how == 2) { delete t; t = nullptr; }
  }
  vp_check(false, "destroying a used scope that was not joined terminates");
}
// ---- counting_scope: its stop source reaches the associated operations ---------------------
VP_TEST(counting_stop) {
  joined_scope<ex::counting_scope> s;
  run r{ex::associate(snd<0, m_later, V0, SS>{}, s.get().get_token())};
  r.start(); vp_check(!stop_seen(0), "no stop before it is requested");
  s.get().request_stop(); vp_check(stop_seen(0), "a stop request reaches the associated operation");
  s.join(); vp_check(!s.joined(), "a stop request does not by itself end the operations");
  fire(0); vp_check(s.joined(), "join completes");
}
VP_TEST(counting_both_tokens) {
  joined_scope<ex::counting_scope> s; ex::inplace_stop_source src;
  run r{ex::associate(snd<0, m_later, V0, SS>{}, s.get().get_token()), stop_env{src.get_token()}};
  r.start(); bool want = false;
  if (vp_choose(2, "outer stop")) { src.request_stop(); want = true; }
  if (vp_choose(2, "scope stop")) { s.get().request_stop(); want = true; }
  vp_check(stop_seen(0) == want, "the operation sees a stop request from its receiver or from the scope");
  fire(0); r.o.expect_once(); s.join(); vp_check(s.joined(), "join completes");
}
static ex::inplace_stop_source* SRC;
VP_TEST(counting_stop_race) {        // completion from either stop callback, destruction inside it
  vp_config("preempt", 2);
  joined_scope<ex::counting_scope> s; JC = &s;
  run_stop r{ex::associate(stop_snd<0, V0>{}, s.get().get_token())};
  r.start();
  vp_spawn([](void*) { JC->get().request_stop(); }, nullptr, "scope stop"); 
  int f = vp_spawn(t_fire0, nullptr, "completion");
  vp_join_all();
  r.o.expect_once(); s.join(); vp_check(s.joined(), "join completes");
}
VP_TEST(counting_two_stops_race) {
  vp_config("preempt", 2);
  joined_scope<ex::counting_scope> s; JC = &s; ex::inplace_stop_source src; SRC = &src;
  run r{ex::associate(stop_snd<0, V0>{}, s.get().get_token()), stop_env{src.get_token()}};
  r.start();
  vp_spawn([](void*) { JC->get().request_stop(); }, nullptr, "scope stop");
  vp_spawn([](void*) { SRC->request_stop(); }, nullptr, "receiver stop");
  vp_join_all();
  r.o.expect_once(); r.o.expect_stopped(); vp_check(vp_get(&kids[0].stopseen_) == 1, "two stop requests run the child's callback once");
  s.join(); vp_check(s.joined(), "join completes");
}
VP_TEST(counting_already_stopped) {
  joined_scope<ex::counting_scope> s; s.get().request_stop();
  run r{ex::associate(stop_snd<0, V0>{}, s.get().get_token())}; r.start(); r.o.expect_once(); r.o.expect_stopped();
  s.join(); vp_check(s.joined(), "join completes");
}

// an operation that registers a callback with its token (copied or moved) and completes only when fired
template <class R> struct tok_op : pending_base {
  using operation_state_concept = ex::operation_state_tag;
  struct cbk { void operator()() const noexcept { vp_add(&datum, 1); } };
  using tok_t = ex::stop_token_of_t<ex::env_of_t<R>>; using cb_t = ex::stop_callback_for_t<tok_t, cbk>;
  R r; std::optional<cb_t> cb; bool possible;
  explicit tok_op(R&& x) : r(std::move(x)) { }
  tok_op(tok_op&&) = delete;
  void start() & noexcept {
    vp_set(&kids[0].pend_, (long) static_cast<pending_base*>(this)); tok_t t = ex::get_stop_token(ex::get_env(r)); possible = t.stop_possible(); vp_set(&kids[0].pay_, t.stop_requested()); vp_set(&kids[0].started_, t.stop_possible());
    if (vp_choose(2, "move the token")) cb.emplace(std::move(t), cbk{}); else cb.emplace(std::as_const(t), cbk{});
  }
  void fire() noexcept override { cb.reset(); ex::set_value(std::move(r)); }
};
struct tok_snd { using sender_concept = ex::sender_tag; template <class, class...> static consteval auto get_completion_signatures() noexcept -> ex::completion_signatures<V0> { return {}; } template <ex::receiver R> auto connect(R r) const -> tok_op<R> { return tok_op<R>(std::move(r)); } };
VP_TEST(counting_token) {            // the fused token: possible, requested and its callback follow either source
  joined_scope<ex::counting_scope> s; ex::inplace_stop_source src; vp_set(&datum, 0);
  bool outer = vp_choose(2, "the receiver's token is connected");
  int so = outer ? vp_choose(3, "outer stop: never, before, after") : 0, ss = vp_choose(3, "scope stop: never, before, after");
  run r{ex::associate(tok_snd{}, s.get().get_token()), stop_env{outer ? src.get_token() : ex::inplace_stop_token{}}};
  if (so == 1) src.request_stop();
  if (ss == 1) s.get().request_stop();
  r.start();
  vp_check(vp_get(&kids[0].started_) == 1, "stop is possible"); vp_check((vp_get(&kids[0].pay_) != 0) == (so == 1 || ss == 1), "stop is reported as requested by either source");
  vp_check(vp_get(&datum) == (so == 1 || ss == 1), "a callback registered after a stop request runs at once, and once");
  if (so == 2) src.request_stop();
  if (ss == 2) s.get().request_stop();
  vp_check(vp_get(&datum) == (so != 0 || ss != 0), "the callback runs once, on the first stop request");
  fire(0); r.o.expect_once(); vp_check(r.o.ch() == value, "completes as its child");
  s.join(); vp_check(s.joined(), "join completes");
}

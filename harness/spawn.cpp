// spawn, spawn_future
#include "vp_scope.hpp"

// an allocator that counts, and may fail
static char allocs, acopies;
template <class T> struct galloc {
  using value_type = T;
  int id = 7;
  galloc() = default; galloc(int i) : id(i) {}
  template <class U> galloc(const galloc<U>& o) noexcept : id(o.id) {}
  T* allocate(std::size_t n) { if (vp_choose(2, "allocation fails")) throw std::bad_alloc{}; vp_add(&allocs, 1); vp_check(id == 7, "the environment's allocator is used"); return static_cast<T*>(::operator new(n * sizeof(T))); }
  void deallocate(T* p, std::size_t) noexcept { vp_add(&allocs, -1); vp_check(id == 7, "the environment's allocator is used"); ::operator delete(p); }
  bool operator==(const galloc&) const noexcept = default;
};
struct al_env { auto query(ex::get_allocator_t) const noexcept { return galloc<std::byte>{7}; } };
using scope1 = ex::simple_counting_scope;
static joined_scope<scope1>* JS;
static void t_fire0(void*) { plain[0] = 1; fire(0); }
static void t_fireq(void*) { fire(0); }

// ---- spawn ----------------------------------------------------------------------------
VP_TEST(spawn_basic) {
  joined_scope<scope1> s;
  bool alloc = vp_choose(2, "custom allocator"), spawned = true;
  vp_set(&allocs, 0);
  try { if (alloc) ex::spawn(snd<0, m_any, V0, SS>{}, s.get().get_token(), al_env{}); else ex::spawn(snd<0, m_any, V0, SS>{}, s.get().get_token()); } catch (const std::bad_alloc&) { spawned = false; vp_check(alloc, "only the allocator throws"); vp_check(kids[0].started() == 0, "nothing is started when the allocation fails"); }
  if (spawned) vp_check(kids[0].started() == 1, "the sender is started at once");
  s.join();
  if (spawned && !kids[0].completed()) { vp_check(!s.joined(), "the spawned operation keeps the scope open"); vp_check(!alloc || vp_get(&allocs) == 1, "the state is allocated once"); fire(0); }
  vp_check(s.joined(), "join completes"); vp_check(vp_get(&allocs) == 0, "the state is deallocated");
}
VP_TEST(spawn_closed) {
  joined_scope<scope1> s; s.get().close(); vp_set(&allocs, 0);
  try { ex::spawn(snd<0, m_any, V0, SS>{}, s.get().get_token(), al_env{}); } catch (const std::bad_alloc&) { }
  vp_check(kids[0].started() == 0, "a closed scope starts nothing"); vp_check(vp_get(&allocs) == 0, "the state is deallocated");
  s.join(); vp_check(s.joined(), "join completes");
}
VP_TEST(spawn_throws) {
  joined_scope<scope1> s; vp_set(&allocs, 0); bool ok = true;
  try { ex::spawn(throwing_connect_snd<0, m_inline, V0>{}, s.get().get_token(), al_env{}); } catch (const std::bad_alloc&) { ok = false; } catch (const err& e) { ok = false; vp_check(e.e == 55, "the exception of connect leaves spawn"); }
  vp_check(vp_get(&allocs) == 0, "the state is deallocated"); vp_check(kids[0].started() == ok, "started only if nothing threw");
  s.join(); vp_check(s.joined(), "no association is leaked");
}
// a scope token whose try_associate may throw or refuse
static char assocs;
struct opq_assoc {
  bool on = false;
  opq_assoc() = default; explicit opq_assoc(bool b) : on(b) { if (b) vp_add(&assocs, 1); }
  opq_assoc(opq_assoc&& o) noexcept : on(std::exchange(o.on, false)) {}
  opq_assoc& operator=(opq_assoc o) noexcept { std::swap(on, o.on); return *this; }
  ~opq_assoc() { if (on) { vp_add(&assocs, -1); vp_check(vp_get(&allocs) == 0, "the association outlives the operation and its storage"); } }
  explicit operator bool() const noexcept { return on; }
  opq_assoc try_associate() const { return opq_assoc{on}; }
};
struct opq_token {
  template <ex::sender S> S&& wrap(S&& s) const noexcept { return static_cast<S&&>(s); }
  opq_assoc try_associate() const { if (vp_choose(2, "association throws")) throw err{41}; return opq_assoc{(bool) vp_choose(2, "association refused")}; }
};
VP_TEST(spawn_token) {
  vp_set(&allocs, 0); vp_set(&assocs, 0); bool thrown = false;
  try { ex::spawn(snd<0, m_any, V0, SS>{}, opq_token{}, al_env{}); } catch (const std::bad_alloc&) { thrown = true; } catch (const err& e) { thrown = true; vp_check(e.e == 41, "the token's exception leaves spawn"); }
  if (thrown) vp_check(kids[0].started() == 0, "nothing is started when spawn throws");
  if (kids[0].started() && !kids[0].completed()) { vp_check(vp_get(&assocs) == 1, "the association is held while it runs"); fire(0); }
  vp_check(vp_get(&allocs) == 0 && vp_get(&assocs) == 0, "everything is released");
}
VP_TEST(spawn_race) {
  vp_config("preempt", 2);
  joined_scope<scope1> s; JS = &s; s.need = 1;
  vp_spawn([](void*) { ex::spawn(snd<0, m_later, V0>{}, JS->get().get_token()); vp_event_set(&allocs); }, nullptr, "spawner");
  vp_spawn([](void*) { plain[0] = 1; fire_started(0); }, nullptr, "completion");
  vp_event_wait(&kids[0].pend_);
  s.join();
  vp_join_all();
  vp_check(s.joined(), "join completes"); vp_check(s.seen[0] == 1, "join sees what the operation did");
}
// ---- spawn_future ----------------------------------------------------------------------
VP_TEST(future_basic) {              // every order of completion, start and drop, one thread
  joined_scope<scope1> s; vp_set(&allocs, 0);
  try {
    auto f = ex::spawn_future(snd<0, m_any, VV, EE, SS>{}, s.get().get_token(), al_env{});
    vp_check(kids[0].started() == 1, "the sender is started at once");
    s.join();
    int how = vp_choose(3, "drop the future, drop its operation, start it");
    if (how == 0) { auto g = std::move(f); }
    else {
      run r{std::move(f)};
      if (!kids[0].completed() && vp_choose(2, "completes between connect and start")) fire(0);
      if (how == 2) {
        bool early = kids[0].completed();
        vp_check(early || !s.joined(), "the scope stays open");
        r.start();
        if (early) vp_check(r.o.n() == 1, "a finished future completes at once"); else { r.o.expect_none(); fire(0); }
        r.o.expect_once(); vp_check(r.o.ch() == kids[0].ch(), "the future completes as the spawned sender");
        if (r.o.ch() != stopped) vp_check(r.o.p() == kids[0].pay(), "with its datum");
      }
    }
    if (!kids[0].completed()) { vp_check(!s.joined(), "an abandoned operation keeps the scope open"); vp_check(stop_seen(0), "an abandoned operation is asked to stop"); fire(0); }
  } catch (const std::bad_alloc&) { vp_check(kids[0].started() == 0, "nothing is started when the allocation fails"); s.join(); }
  vp_check(s.joined(), "join completes"); vp_check(vp_get(&allocs) == 0, "the state is deallocated");
}
VP_TEST(future_closed) {
  joined_scope<scope1> s; s.get().close(); vp_set(&allocs, 0);
  try { auto f = ex::spawn_future(snd<0, m_any, VV, SS>{}, s.get().get_token(), al_env{});
    vp_check(kids[0].started() == 0, "a closed scope starts nothing");
    if (vp_choose(2, "start")) { run r{std::move(f)}; r.start(); r.o.expect_once(); r.o.expect_stopped(); }
  } catch (const std::bad_alloc&) {}
  vp_check(vp_get(&allocs) == 0, "the state is deallocated");
  s.join(); vp_check(s.joined(), "join completes");
}
VP_TEST(future_token) {
  vp_set(&allocs, 0); vp_set(&assocs, 0); bool thrown = false;
  try { auto f = ex::spawn_future(throwing_connect_snd<0, m_any, V0, SS>{}, opq_token{}, al_env{});
    bool st = kids[0].started();
    if (st && !kids[0].completed()) vp_check(vp_get(&assocs) == 1, "the association is held while it runs");
    int how = vp_choose(2, "start"); run r{std::move(f)};
    if (how) { r.start(); if (st && !kids[0].completed()) fire(0); r.o.expect_once(); vp_check(r.o.ch() == (st ? kids[0].ch() : stopped), "completes as the spawned sender, or stopped if refused"); }
    else if (st && !kids[0].completed()) fire(0);
  } catch (const std::bad_alloc&) { thrown = true; } catch (const err& e) { thrown = true; vp_check(e.e == 41 || e.e == 55, "the exception leaves spawn_future"); }
  if (thrown) vp_check(kids[0].started() == 0, "nothing is started when spawn_future throws");
  vp_check(vp_get(&allocs) == 0 && vp_get(&assocs) == 0, "everything is released");
}
VP_TEST(future_throwing_value) {
  joined_scope<scope1> s;
  { auto f = ex::spawn_future(snd<0, m_any, VT, SS>{}, s.get().get_token());
    run r{std::move(f)}; r.start(); if (!kids[0].completed()) fire(0); r.o.expect_once();
    if (r.o.ch() == value) vp_check(r.o.p() == kids[0].pay(), "the datum arrives"); else if (r.o.ch() == error) vp_check(r.o.p() == 77 || r.o.p() == 78, "a throwing move becomes the error"); else vp_check(kids[0].ch() == stopped, "stopped only if the child was"); }
  s.join(); vp_check(s.joined(), "join completes");
}
VP_TEST(future_stop) {               // a stop request before, during or after start, one thread
  joined_scope<scope1> s; ex::inplace_stop_source src;
  auto f = ex::spawn_future(snd<0, m_later, VV, SS>{}, s.get().get_token());
  int when = vp_choose(4, "stop: before start, after, never, before start with the result ready");
  run r{std::move(f), stop_env{src.get_token()}};
  if (when == 0 || when == 3) src.request_stop();
  if (when == 3 || (when == 2 && vp_choose(2, "result ready"))) fire(0);
  r.start();
  if (when == 1) { r.o.expect_none(); src.request_stop(); }
  if (when == 0 || when == 1) { vp_check(r.o.n() == 1, "a stop request completes the future at once"); r.o.expect_stopped(); vp_check(stop_seen(0), "the spawned operation is asked to stop"); s.join(); vp_check(!s.joined(), "it still runs"); fire(0); }
  else { if (!kids[0].completed()) { r.o.expect_none(); fire(0); } r.o.expect_once(); vp_check(r.o.ch() == kids[0].ch(), "completes as the child"); s.join(); }
  vp_check(s.joined(), "join completes");
}
VP_TEST(future_race_start) {         // completion against start
  vp_config("preempt", 2);
  joined_scope<scope1> s; JS = &s;
  auto f = ex::spawn_future(snd<0, m_later, VV, SS>{}, s.get().get_token());
  s.join();
  { run r{std::move(f)};
    vp_spawn(t_fire0, nullptr, "completion");
    r.start();
    vp_join_all();
    r.o.expect_once(); vp_check(r.o.ch() == kids[0].ch(), "completes as the child"); if (r.o.ch() == value) vp_check(r.o.p() == kids[0].pay(), "with its datum"); }
  vp_check(s.joined(), "join completes"); vp_check(s.seen[0] == 1, "join sees what the operation did");
}
VP_TEST(future_race_drop) {          // completion against dropping the future
  vp_config("preempt", 2);
  joined_scope<scope1> s; JS = &s;
  { auto f = ex::spawn_future(snd<0, m_later, VV, SS>{}, s.get().get_token());
    s.join();
    vp_spawn(t_fire0, nullptr, "completion"); }
  vp_join_all(); vp_check(s.joined(), "join completes");
}
VP_TEST(future_race_all) {           // completion, stop request and start
  vp_config("preempt", 3);
  joined_scope<scope1> s; JS = &s; static ex::inplace_stop_source* SRC; ex::inplace_stop_source src; SRC = &src;
  auto f = ex::spawn_future(snd<0, m_later, VV, SS>{}, s.get().get_token());
  s.join();
  { run r{std::move(f), stop_env{src.get_token()}};
    vp_spawn(t_fire0, nullptr, "completion"); vp_spawn([](void*) { SRC->request_stop(); }, nullptr, "stop request");
    r.start();
    vp_join_all();
    r.o.expect_once(); if (r.o.ch() == value) vp_check(r.o.p() == kids[0].pay(), "a value is the child's"); else r.o.expect_stopped();
    vp_check(vp_get(&kids[0].completed_) == 1, "the child has completed"); }
  vp_check(s.joined(), "join completes");
}
VP_TEST(future_race_stop_aware) {    // the child completes from the forwarded stop request
  vp_config("preempt", 2);
  joined_scope<scope1> s; JS = &s; static ex::inplace_stop_source* SRC; ex::inplace_stop_source src; SRC = &src;
  auto f = ex::spawn_future(stop_snd<0, VV>{}, s.get().get_token());
  s.join();
  { run r{std::move(f), stop_env{src.get_token()}};
    vp_spawn([](void*) { SRC->request_stop(); }, nullptr, "stop request");
    r.start();
    vp_join_all();
    r.o.expect_once(); r.o.expect_stopped(); }
  vp_check(s.joined(), "join completes");
}
VP_TEST(future_drop_stop_aware) {
  vp_config("preempt", 2);
  joined_scope<scope1> s; JS = &s;
  { auto f = ex::spawn_future(stop_snd<0, VV>{}, s.get().get_token()); s.join(); vp_spawn(t_fireq, nullptr, "completion"); }
  vp_join_all(); vp_check(s.joined(), "join completes");
}
// a stop token whose callback cannot always be registered
struct thr_token {
  static constexpr bool stop_requested() noexcept { return false; } static constexpr bool stop_possible() noexcept { return true; }
  bool operator==(const thr_token&) const noexcept = default;
  template <class F> struct callback_type { F f; template <class G> callback_type(thr_token, G&& g) noexcept(false) : f((G&&) g) { if (vp_choose(2, "callback registration throws")) throw err{66}; vp_add(&acopies, 1); } callback_type(callback_type&&) = delete; ~callback_type() { vp_add(&acopies, -1); } };
};
struct thr_env { auto query(ex::get_stop_token_t) const noexcept { return thr_token{}; } };
VP_TEST(future_callback_throws) {
  joined_scope<scope1> s; vp_set(&acopies, 0);
  { run r{ex::spawn_future(snd<0, m_any, VV, SS>{}, s.get().get_token()), thr_env{}};
    r.start(); bool threw = r.o.n() && r.o.ch() == error;
    if (threw) vp_check(r.o.p() == 66, "the exception becomes the error");
    if (!kids[0].completed()) { if (threw) vp_check(stop_seen(0), "the abandoned operation is asked to stop"); fire(0); }
    r.o.expect_once(); if (!threw) vp_check(r.o.ch() == kids[0].ch(), "completes as the child"); }
  vp_check(vp_get(&acopies) == 0, "the callback is destroyed"); s.join(); vp_check(s.joined(), "join completes");
}

VP_TEST(future_race_all_aware) {     // completion, stop request and start; the child may complete from the forwarded stop request
  vp_config("preempt", 2);
  joined_scope<scope1> s; JS = &s; static ex::inplace_stop_source* SRC; ex::inplace_stop_source src; SRC = &src;
  auto f = ex::spawn_future(stop_snd<0, VV>{}, s.get().get_token());
  s.join();
  { run r{std::move(f), stop_env{src.get_token()}};
    vp_spawn(t_fireq, nullptr, "completion"); vp_spawn([](void*) { SRC->request_stop(); }, nullptr, "stop request");
    r.start();
    vp_join_all();
    r.o.expect_once(); if (r.o.ch() == value) vp_check(r.o.p() == kids[0].pay(), "a value is the child's"); else r.o.expect_stopped(); }
  vp_check(s.joined(), "join completes");
}
struct alt { long a, b; };
VP_TEST(spawn_env) {                 // the environment given to spawn is the child's environment
  joined_scope<scope1> s; vp_set(&allocs, 0); ex::inplace_stop_source src; 
  ex::spawn(snd<0, m_later, V0>{}, s.get().get_token(), stop_env{src.get_token()});
  auto f = ex::spawn_future(snd<1, m_later, V0>{}, s.get().get_token(), stop_env{src.get_token()});
  vp_check(!stop_seen(0) && !stop_seen(1), "no stop before it is requested"); src.request_stop(); vp_check(stop_seen(0), "the spawned operation sees the environment's stop token");
  fire(0); fire(1); s.join(); { auto g = std::move(f); } vp_check(s.joined(), "join completes");
}

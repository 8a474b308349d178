// The most-general client: opaque senders, receivers, functions and environments
// used to close the library for the analyser (engine/absint.cpp).  None of this is
// ever executed; the functions declared here have no definition.
#pragma once
#include <stdexec/execution.hpp>
#include <exception>
#include <initializer_list>
#include <new>
#include <optional>
#include <tuple>
#include <variant>
#include <type_traits>
#include <utility>

extern "C" {
int vp_choose(int n, const char* label);          // any value in [0,n)
long vp_sym(const char* label);                   // any value at all (a fresh symbol)
void vp_check(bool ok, const char* what);         // obligation
void vp_note(const char*);
void vp_stop() __attribute__((noreturn));
int vp_spawn(void (*)(void*), void*, const char* name);
void vp_join(int);
void vp_join_all();
int vp_thread_id();
void vp_kill(void*, unsigned long);               // the storage is gone
void vp_live(void*, unsigned long);
void vp_expire(void*, unsigned long);              // may not be used until vp_live; keeps its contents
void vp_obj_begin(const void*, const char* what);  // an object is constructed here: it has to be destroyed before its storage goes
void vp_obj_end(const void*);
int vp_alive(const void*);
long vp_get(const void* key);                     // ghost variables (not memory)
void vp_set(const void* key, long);
long vp_add(const void* key, long);
void vp_event_set(const void* key);               // ghost events (synchronise)
void vp_event_wait(const void* key);
int vp_event_test(const void* key);
void vp_idle();                                   // resume once nothing else can run
void vp_yield();
void vp_atomic_begin();
void vp_atomic_end();
long vp_clock();
void vp_clock_advance(long);
long vp_heap();
void vp_config(const char*, long);
}
#define VP_TEST(n) extern "C" void vp_test_##n()
#define VP_CHECK(c) vp_check((c), #c)

namespace vp {
  namespace ex = stdexec;

  // ---- lifetime-tracked storage -------------------------------------------------
  // destroys T and declares the storage dead: any later access is a violation
  template <class T>
  struct box {
    alignas(T) unsigned char mem[sizeof(T)];
    bool full = false;
    box() noexcept {}
    box(box&&) = delete;
    ~box() {}
    template <class F>
    T& emplace_from(F&& f) {
      T* p = ::new (static_cast<void*>(mem)) T(static_cast<F&&>(f)());
      full = true;
      return *p;
    }
    T& get() noexcept { return *std::launder(reinterpret_cast<T*>(mem)); }
    void destroy() noexcept {
      get().~T();
      vp_kill(mem, sizeof(T));
      full = false;
    }
  };

  // ---- a movable value with a typestate ------------------------------------------
  struct val {
    long v;
    int st = 1;                                   // 1 live, 2 moved-from, 0 destroyed
    explicit val(long x) noexcept : v(x) { vp_obj_begin(this, "a value"); }
    val(std::initializer_list<val>) noexcept : v(-4242) { vp_obj_begin(this, "a value"); vp_check(false, "a value is copied or moved, not wrapped in a list"); }
    val(val&& o) noexcept : v(o.v) {
      vp_obj_begin(this, "a value");
      vp_check(o.st == 1, "a value is moved from only while it holds its value");
      o.st = 2;
    }
    val(const val& o) noexcept : v(o.v) { vp_obj_begin(this, "a value"); vp_check(o.st == 1, "a value is copied only while it holds its value"); }
    val& operator=(val&& o) noexcept {
      vp_check(o.st == 1, "a value is moved from only while it holds its value");
      v = o.v; st = 1; o.st = 2; return *this;
    }
    val& operator=(const val& o) noexcept { vp_check(o.st == 1, "a value is copied only while it holds its value"); v = o.v; st = 1; return *this; }
    ~val() { vp_obj_end(this); st = 0; }
  };
  // the same, with a copy/move constructor that may throw
  struct err { long e; };
  struct tval {
    long v;
    int st = 1;
    explicit tval(long x) noexcept : v(x) { vp_obj_begin(this, "a value"); }
    tval(tval&& o) noexcept(false) : v(o.v) {
      if (vp_choose(2, "value move throws")) throw err{77};
      vp_obj_begin(this, "a value");
      vp_check(o.st == 1, "a value is moved from only while it holds its value");
      o.st = 2;
    }
    tval(const tval& o) noexcept(false) : v(o.v) {
      if (vp_choose(2, "value copy throws")) throw err{78};
      vp_obj_begin(this, "a value");
      vp_check(o.st == 1, "a value is copied only while it holds its value");
    }
    ~tval() { vp_obj_end(this); st = 0; }
  };

  // an over-aligned value: it may only ever live at a suitably aligned address
  struct alignas(64) aval { long v; explicit aval(long x) noexcept : v(x) {} aval(const aval& o) noexcept : v(o.v) {} aval& operator=(const aval& o) noexcept { v = o.v; return *this; } };

  // ---- channels ------------------------------------------------------------------
  enum ch_t : long { none = 0, value = 1, error = 2, stopped = 3 };

  inline long as_long(long v) { return v; }
  inline long as_long(int v) { return v; }
  inline long as_long(unsigned v) { return v; }
  inline long as_long(unsigned long v) { return (long) v; }
  inline long as_long(bool v) { return v; }
  inline long as_long(const val& v) { vp_check(v.st == 1, "a delivered value is alive and not moved-from"); return v.v; }
  inline long as_long(const tval& v) { vp_check(v.st == 1, "a delivered value is alive and not moved-from"); return v.v; }
  inline long as_long(const aval& v) { return v.v; }
  inline long as_long(const err& e) { return e.e; }
  inline long as_long(const std::exception_ptr& p) {
    vp_check(p != nullptr, "a delivered exception_ptr is not null");
    long r = -1;
    try { std::rethrow_exception(p); } catch (const err& e) { r = e.e; } catch (const std::bad_alloc&) { r = -2; } catch (const tval& e) { r = e.v; } catch (...) { r = -3; }
    return r;
  }
  template <class T> long as_long(const T*) { return -4; }
  template <class... Ts> long as_long(const std::tuple<Ts...>& t) { return std::apply([](auto&... x) -> long { if constexpr (sizeof...(x) == 0) return -9; else return (as_long(x) + ...); }, t); }
  template <class... Ts> long as_long(const std::variant<Ts...>& v) {
    long r = -8; std::size_t i = 0;
    (void) ((v.index() == i++ ? (r = as_long(*std::get_if<Ts>(&v)), true) : false) || ...);
    return r;
  }
  template <class T> long as_long(const std::optional<T>& v) { return v ? as_long(*v) : -7; }
  struct unit {};
  inline long as_long(unit) { return -5; }
  inline long as_long(ex::set_value_t) { return value; }
  inline long as_long(ex::set_error_t) { return error; }
  inline long as_long(ex::set_stopped_t) { return stopped; }

  // ---- where code runs: the innermost child completion active on this thread -----------
  inline char ctx_key[32];
  inline long ctx() { return vp_get(&ctx_key[vp_thread_id()]) - 1; }   // -1: none

  // ---- what a scenario observes about one receiver ---------------------------------
  // ghost keys; the struct itself is never read or written by the analysed program
  struct obs {
    char n_, ch_, p0_, p1_, p2_, nargs_, t_, ctx_;
    long thread() const { return vp_get(&t_); }
    long ctx() const { return vp_get(&ctx_) - 1; }   // the child inside whose completion the receiver was completed
    long n() const { return vp_get(&n_); }
    long ch() const { return vp_get(&ch_); }
    long p(int i = 0) const { return vp_get(i == 0 ? &p0_ : i == 1 ? &p1_ : &p2_); }
    long nargs() const { return vp_get(&nargs_); }
    void expect_value(long a) const { vp_check(ch() == value, "the receiver is completed with set_value"); vp_check(p(0) == a, "set_value carries the right value"); }
    void expect_error(long a) const { vp_check(ch() == error, "the receiver is completed with set_error"); vp_check(p(0) == a, "set_error carries the right error"); }
    void expect_stopped() const { vp_check(ch() == stopped, "the receiver is completed with set_stopped"); }
    void expect_once() const { vp_check(n() == 1, "the receiver is completed exactly once"); }
    void expect_none() const { vp_check(n() == 0, "the receiver is not completed"); }
    template <class... As>
    void complete(ch_t c, const As&... as) const {
      vp_check(vp_get(&n_) == 0, "a receiver is completed at most once");
      vp_add(&n_, 1);
      vp_set(&ch_, c);
      vp_set(&nargs_, sizeof...(As));
      vp_set(&t_, vp_thread_id());
      vp_set(&ctx_, vp::ctx() + 1);
      int i = 0;
      ((vp_set(i == 0 ? &p0_ : i == 1 ? &p1_ : &p2_, as_long(as)), ++i), ...);
      (void) i;
    }
  };

  struct rcv_hooks {
    obs* o;
    void (*after)(void*) = nullptr;               // runs inside the completion: may destroy the operation
    void* arg = nullptr;
  };

  // ---- is a completion one of the advertised ones? -----------------------------------
  template <class Sigs, class Tag, class... As> struct declares : std::true_type {};          // nothing advertised: anything goes
  template <class D, class Tag, class... As> struct sig_is : std::false_type {};
  template <class Tag, class... Ds, class... As>
    requires (sizeof...(Ds) == sizeof...(As))
  struct sig_is<Tag(Ds...), Tag, As...> : std::bool_constant<(std::is_same_v<Ds&&, As&&> && ...)> {};
  template <class... Sigs, class Tag, class... As>
  struct declares<ex::completion_signatures<Sigs...>, Tag, As...> : std::bool_constant<(sig_is<Sigs, Tag, As...>::value || ...)> {};

  // ---- an object that has to be destroyed before its storage goes ---------------------
  struct tracked {
    tracked() noexcept { vp_obj_begin(this, "a receiver"); }
    tracked(const tracked&) noexcept { vp_obj_begin(this, "a receiver"); }
    tracked& operator=(const tracked&) noexcept { return *this; }
    ~tracked() { vp_obj_end(this); }
  };

  // ---- the opaque receiver ----------------------------------------------------------
  template <class Env = ex::env<>, class Sigs = void>
  struct rcv {
    using receiver_concept = ex::receiver_tag;
    rcv_hooks* h;
    [[no_unique_address]] Env env_{};
    tracked t_{};
    template <class... As>
    void set_value(As&&... as) && noexcept { rcv_hooks k = *h; vp_check(declares<Sigs, ex::set_value_t, As...>::value, "the value completion is one of the advertised completion signatures"); k.o->complete(value, as...); if (k.after) k.after(k.arg); }
    template <class E>
    void set_error(E&& e) && noexcept { rcv_hooks k = *h; vp_check(declares<Sigs, ex::set_error_t, E>::value, "the error completion is one of the advertised completion signatures"); k.o->complete(error, e); if (k.after) k.after(k.arg); }
    void set_stopped() && noexcept { rcv_hooks k = *h; vp_check(declares<Sigs, ex::set_stopped_t>::value, "the stopped completion is one of the advertised completion signatures"); k.o->complete(stopped); if (k.after) k.after(k.arg); }
    auto get_env() const noexcept -> Env { return env_; }
  };

  // ---- the opaque sender --------------------------------------------------------------
  // ghost keys for one child
  struct kid {
    char conn_, started_, completed_, destroyed_, pend_, ch_, pay_, stopseen_;
    long connected() const { return vp_get(&conn_); }
    long started() const { return vp_get(&started_); }
    long completed() const { return vp_get(&completed_); }
    long destroyed() const { return vp_get(&destroyed_); }
    long ch() const { return vp_get(&ch_); }
    long pay() const { return vp_get(&pay_); }
    bool pending() const { return vp_get(&pend_) != 0; }
  };
  inline kid kids[8];

  template <class T> T make(long v);
  template <> inline long make<long>(long v) { return v; }
  template <> inline val make<val>(long v) { return val{v}; }
  template <> inline tval make<tval>(long v) { return tval{v}; }
  template <> inline aval make<aval>(long v) { return aval{v}; }
  template <> inline err make<err>(long v) { return err{v}; }
  template <> inline int make<int>(long v) { return (int) v; }
  template <> inline std::exception_ptr make<std::exception_ptr>(long v) { return std::make_exception_ptr(err{v}); }

  struct pending_base {
    virtual void fire() noexcept = 0;             // complete with any of the declared signatures
    virtual bool stop() noexcept { return false; } // does the child's environment ask it to stop
  };

  // Mode: 0 completes inside start, 1 completes later, 2 either; +4: watches its stop token
  enum mode { m_inline = 0, m_later = 1, m_any = 2 };

  // What a child completes with lives in its operation: once that is destroyed, it is gone.
  struct datums {
    char a_[3], n_[3];
    void add(int i, const void* p, unsigned long n) noexcept { vp_set(&a_[i], (long) p); vp_set(&n_[i], (long) n); }
    void expire() noexcept { for (int i = 0; i < 3; ++i) if (long p = vp_get(&a_[i])) vp_expire((void*) p, (unsigned long) vp_get(&n_[i])); }
    void clear() noexcept { for (int i = 0; i < 3; ++i) vp_set(&a_[i], 0); }
  };
  template <class Tag, class R, class... As>
  void complete_with(datums* d, R& r, As&&... as) noexcept {
    if (d) { int i = 0; ((d->add(i, std::addressof(as), sizeof(As)), ++i), ...); (void) i; }
    Tag{}(static_cast<R&&>(r), static_cast<As&&>(as)...);
    (vp_live(const_cast<void*>(static_cast<const volatile void*>(std::addressof(as))), sizeof(As)), ...);
  }

  template <class R, class Sig> struct complete_one;
  template <class R, class... As>
  struct complete_one<R, ex::set_value_t(As...)> { static void go(kid* k, R& r, datums* d) noexcept {
    vp_set(&k->ch_, value);
    if constexpr (sizeof...(As) == 0) ex::set_value(static_cast<R&&>(r));
    else { long s = vp_sym("value"); vp_set(&k->pay_, s); complete_with<ex::set_value_t>(d, r, make<std::decay_t<As>>(s)...); } } };
  template <class R, class E>
  struct complete_one<R, ex::set_error_t(E)> { static void go(kid* k, R& r, datums* d) noexcept {
    vp_set(&k->ch_, error); long s = vp_sym("error"); vp_set(&k->pay_, s); complete_with<ex::set_error_t>(d, r, make<std::decay_t<E>>(s)); } };
  template <class R>
  struct complete_one<R, ex::set_stopped_t()> { static void go(kid* k, R& r, datums*) noexcept { vp_set(&k->ch_, stopped); ex::set_stopped(static_cast<R&&>(r)); } };

  template <class R, class... Sigs>
  void complete_any(kid* k, R&& r, datums* d = nullptr) noexcept {       // the receiver dies with the operation, maybe inside this call
    vp_check(vp_get(&k->completed_) == 0, "an opaque child completes once");
    vp_set(&k->completed_, 1);
    int c = sizeof...(Sigs) == 1 ? 0 : vp_choose(sizeof...(Sigs), "child completes with signature");
    int i = 0;
    char* cx = &ctx_key[vp_thread_id()];
    long old = vp_get(cx);
    vp_set(cx, (k - kids) + 1);
    (void) ((i++ == c ? (complete_one<R, Sigs>::go(k, r, d), true) : false) || ...);
    vp_set(cx, old);
  }

  template <class R, int Id, int Mode, class... Sigs>
  struct kid_op : pending_base {
    using operation_state_concept = ex::operation_state_tag;
    R r;
    long st = 1;
    datums d;
    explicit kid_op(R&& x) noexcept(std::is_nothrow_move_constructible_v<R>) : r(static_cast<R&&>(x)) { vp_obj_begin(this, "a child operation"); d.clear(); vp_add(&kids[Id].conn_, 1); vp_set(&kids[Id].started_, 0); vp_set(&kids[Id].completed_, 0); }
    kid_op(kid_op&&) = delete;
    ~kid_op() {
      vp_check(st == 1, "a child operation is destroyed once");
      vp_obj_end(this);
      st = 0;
      d.expire();
      if (vp_get(&kids[Id].started_)) vp_check(vp_get(&kids[Id].completed_) != 0, "a started child operation is not destroyed before it completes");
      vp_add(&kids[Id].destroyed_, 1);
    }
    void start() & noexcept {
      vp_check(st == 1, "start is called on a live operation");
      vp_check(vp_get(&kids[Id].started_) == 0, "a child operation is started at most once");
      vp_set(&kids[Id].started_, 1);
      if (Mode == m_inline || (Mode == m_any && vp_choose(2, "child completes later") == 0)) complete_any<R, Sigs...>(&kids[Id], static_cast<R&&>(r), &d);
      else { vp_set(&kids[Id].pend_, (long) static_cast<pending_base*>(this)); vp_event_set(&kids[Id].pend_); }   // from here on another thread may complete it
    }
    void fire() noexcept override { vp_check(st == 1, "a pending child operation is alive"); vp_set(&kids[Id].pend_, 0); complete_any<R, Sigs...>(&kids[Id], static_cast<R&&>(r), &d); }
    bool stop() noexcept override { return ex::get_stop_token(ex::get_env(r)).stop_requested(); }
  };

  template <int Id, int Mode, class... Sigs>
  struct snd {
    using sender_concept = ex::sender_tag;
    template <class, class...>
    static consteval auto get_completion_signatures() noexcept -> ex::completion_signatures<Sigs...> { return {}; }
    template <ex::receiver R>
    auto connect(R r) const noexcept(std::is_nothrow_move_constructible_v<R>) -> kid_op<R, Id, Mode, Sigs...> { return kid_op<R, Id, Mode, Sigs...>{static_cast<R&&>(r)}; }
    // connect that may throw
  };
  template <int Id, int Mode, class... Sigs>
  struct throwing_connect_snd {
    using sender_concept = ex::sender_tag;
    template <class, class...>
    static consteval auto get_completion_signatures() noexcept -> ex::completion_signatures<Sigs...> { return {}; }
    template <ex::receiver R>
    auto connect(R r) const noexcept(false) -> kid_op<R, Id, Mode, Sigs...> { if (vp_choose(2, "connect throws")) throw err{55}; return kid_op<R, Id, Mode, Sigs...>{static_cast<R&&>(r)}; }
  };
  // ---- the opaque scheduler: schedule() is kid Id ---------------------------------------
  template <int Id, int Mode, class... Sigs>
  struct sch {
    using scheduler_concept = ex::scheduler_tag;
    long tag = Id;
    struct env {
      sch s;
      auto query(ex::get_completion_scheduler_t<ex::set_value_t>) const noexcept { return s; }
      auto query(ex::get_completion_scheduler_t<ex::set_stopped_t>) const noexcept { return s; }
    };
    struct sender : snd<Id, Mode, Sigs...> { sch s; auto get_env() const noexcept -> env { return env{s}; } };
    auto schedule() const noexcept -> sender { return sender{{}, *this}; }
    bool operator==(const sch&) const noexcept = default;
  };
  inline bool fire(int id) noexcept {
    long p = vp_get(&kids[id].pend_);
    if (!p) return false;
    reinterpret_cast<pending_base*>(p)->fire();
    return true;
  }

  inline bool stop_seen(int id) noexcept { return reinterpret_cast<pending_base*>(vp_get(&kids[id].pend_))->stop(); }

  // a sender that reacts to its environment's stop token: it completes with stopped from the
  // callback, unless it was completed by fire() first
  template <class R, int Id, class... Sigs>
  struct stop_op : pending_base {
    using operation_state_concept = ex::operation_state_tag;
    struct on_stop { stop_op* o; void operator()() const noexcept { stop_op* q = o; q->stopped(); } };
    using tok_t = ex::stop_token_of_t<ex::env_of_t<R>>;
    using cb_t = ex::stop_callback_for_t<tok_t, on_stop>;
    R r;
    char claim{}, ready{};
    std::optional<cb_t> cb;
    explicit stop_op(R&& x) noexcept(std::is_nothrow_move_constructible_v<R>) : r(static_cast<R&&>(x)) { vp_obj_begin(this, "a child operation"); vp_add(&kids[Id].conn_, 1); vp_set(&kids[Id].started_, 0); vp_set(&kids[Id].completed_, 0); vp_set(&claim, 0); }
    stop_op(stop_op&&) = delete;
    ~stop_op() {
      vp_obj_end(this);
      if (vp_get(&kids[Id].started_)) vp_check(vp_get(&kids[Id].completed_) != 0, "a started child operation is not destroyed before it completes");
      vp_add(&kids[Id].destroyed_, 1);
    }
    void stopped() noexcept {
      vp_add(&kids[Id].stopseen_, 1);
      if (vp_add(&claim, 1) != 1) return;
      vp_event_wait(&ready);                      // the callback may run as soon as it is registered
      vp_set(&kids[Id].completed_, 1); vp_set(&kids[Id].ch_, vp::stopped); vp_set(&kids[Id].pend_, 0);
      cb.reset();                                 // a child deregisters before it completes
      R q(static_cast<R&&>(r));
      ex::set_stopped(static_cast<R&&>(q));
    }
    void start() & noexcept {
      vp_check(vp_get(&kids[Id].started_) == 0, "a child operation is started at most once");
      vp_set(&kids[Id].started_, 1);
      vp_set(&kids[Id].pend_, (long) static_cast<pending_base*>(this));
      vp_add(&claim, 2);                          // not yet: the callback is being registered
      cb.emplace(ex::get_stop_token(ex::get_env(r)), on_stop{this});
      vp_event_set(&ready);
      vp_event_set(&kids[Id].pend_);
      if (vp_add(&claim, -2) != 0) { vp_set(&claim, 0); stopped(); }
    }
    void fire() noexcept override {
      if (vp_add(&claim, 1) != 1) return;
      vp_set(&kids[Id].pend_, 0);
      cb.reset();
      complete_any<R, Sigs...>(&kids[Id], static_cast<R&&>(r));
    }
  };
  template <int Id, class... Sigs>
  struct stop_snd {
    using sender_concept = ex::sender_tag;
    template <class, class...>
    static consteval auto get_completion_signatures() noexcept -> ex::completion_signatures<Sigs..., ex::set_stopped_t()> { return {}; }
    template <ex::receiver R>
    auto connect(R r) const noexcept -> stop_op<R, Id, Sigs...> { return stop_op<R, Id, Sigs...>{static_cast<R&&>(r)}; }
  };
  inline void fire_started(int id) noexcept { vp_event_wait(&kids[id].pend_); fire(id); }   // as soon as it is started, even before start returned
  inline void fire_thread(void* p) { fire((int) (long) p); }
  inline void fire_started_thread(void* p) { fire_started((int) (long) p); }
  inline int spawn_fire_started(int id) { return vp_spawn(fire_started_thread, (void*) (long) id, "child completion"); }
  inline void stop_thread(void* p) { static_cast<ex::inplace_stop_source*>(p)->request_stop(); }
  inline int spawn_fire(int id) { return vp_spawn(fire_thread, (void*) (long) id, "child completion"); }
  inline int spawn_stop(ex::inplace_stop_source& s) { return vp_spawn(stop_thread, &s, "stop request"); }

  using V0 = ex::set_value_t();
  using VL = ex::set_value_t(long);
  using VV = ex::set_value_t(val);
  using VT = ex::set_value_t(tval);
  using VA = ex::set_value_t(aval);
  using EP = ex::set_error_t(std::exception_ptr);
  using EE = ex::set_error_t(err);
  using SS = ex::set_stopped_t();

  struct stop_env { ex::inplace_stop_token t; auto query(ex::get_stop_token_t) const noexcept { return t; } };

  // ---- an operation whose storage the completion may destroy -----------------------------
  template <class S, class Env = ex::env<>>
  struct run {
    using R = rcv<Env, ex::completion_signatures_of_t<S, Env>>;
    using op_t = ex::connect_result_t<S, R>;
    obs o;
    rcv_hooks h;
    box<op_t> b;
    explicit run(S s, Env e = {}) : h{&o, [](void* p) { static_cast<run*>(p)->b.destroy(); }, this} {
      b.emplace_from([&]() -> op_t { return ex::connect(static_cast<S&&>(s), R{&h, static_cast<Env&&>(e)}); });
    }
    void start() noexcept { ex::start(b.get()); }
    ~run() { if (b.full) b.destroy(); }
  };
  // the same, with a stop source that dies as soon as the receiver is completed: a callback
  // still registered then, or a token still used, is an access to a dead object
  template <class S>
  struct run_stop {
    box<ex::inplace_stop_source> src;
    using R = rcv<stop_env, ex::completion_signatures_of_t<S, stop_env>>;
    using op_t = ex::connect_result_t<S, R>;
    obs o;
    rcv_hooks h;
    box<op_t> b;
    explicit run_stop(S s, bool already = false) : h{&o, [](void* p) { auto* q = static_cast<run_stop*>(p); q->src.destroy(); q->b.destroy(); }, this} {
      ::new (static_cast<void*>(src.mem)) ex::inplace_stop_source; src.full = true;
      if (already) src.get().request_stop();
      b.emplace_from([&]() -> op_t { return ex::connect(static_cast<S&&>(s), R{&h, stop_env{src.get().get_token()}}); });
    }
    void start() noexcept { ex::start(b.get()); }
    ~run_stop() { if (b.full) b.destroy(); if (src.full) src.destroy(); }
  };
  template <class S> run(S) -> run<S>;
  template <class S, class E> run(S, E) -> run<S, E>;
}

// Opaque sequence senders and sequence receivers.
#pragma once
#include "vp.hpp"
#include <exec/sequence_senders.hpp>

namespace vp {
  // ---- what a scenario observes about the items of one sequence -------------------------
  struct pending_reply { virtual void reply() noexcept = 0; };
  struct seqlog {
    char n_, act_, max_, brk_, nexts_, fail_;
    char ch_[48], p_[48], pend_[48], dep_, deep_;
    long deepest() const { return vp_get(&deep_); }    // nesting of answers
    long n() const { return vp_get(&n_); }             // items started
    long active() const { return vp_get(&act_); }      // of which not yet answered
    long most() const { return vp_get(&max_); }        // most at one time
    long broken() const { return vp_get(&brk_); }      // answered with set_stopped
    long nexts() const { return vp_get(&nexts_); }     // calls of set_next
    long failed() const { return vp_get(&fail_); }     // set_next or connecting its result threw
    long ch(int k) const { return vp_get(&ch_[k]); }
    long p(int k) const { return vp_get(&p_[k]); }
    bool pending(int k) const { return vp_get(&pend_[k]) != 0; }
    long count(long c) const { long r = 0; for (int k = 0; k < n(); ++k) r += ch(k) == c; return r; }
  };
  inline seqlog sl;

  enum { c_break = 1, c_defer = 2, c_throw = 4, c_conthrow = 8, c_follow = 16 };   // what the consumer may do

  template <int F, class Item, class R>
  struct nx_op : pending_reply {
    using operation_state_concept = ex::operation_state_tag;
    struct ir {
      using receiver_concept = ex::receiver_tag;
      nx_op* o;
      template <class... As> void set_value(As&&... as) && noexcept { vp_check(declares<sigs_t<ex::set_value_t>, ex::set_value_t, As...>::value, "the item's value completion is one of the advertised completion signatures"); o->done(value, as...); }
      template <class E> void set_error(E&& e) && noexcept { vp_check(declares<sigs_t<ex::set_error_t>, ex::set_error_t, E>::value, "the item's error completion is one of the advertised completion signatures"); o->done(error, e); }
      void set_stopped() && noexcept { vp_check(declares<sigs_t<ex::set_stopped_t>, ex::set_stopped_t>::value, "the item's stopped completion is one of the advertised completion signatures"); o->done(stopped); }
      auto get_env() const noexcept -> ex::env_of_t<R> { return ex::get_env(o->r); }
    };
    template <class> using sigs_t = ex::completion_signatures_of_t<Item, ex::env_of_t<R>>;
    R r;
    long st = 1;
    int k = -1;
    bool answered = false;
    ex::connect_result_t<Item, ir> op;
    nx_op(Item&& it, R&& x) noexcept(std::is_nothrow_move_constructible_v<R> && noexcept(ex::connect(std::declval<Item>(), std::declval<ir>()))) : r(static_cast<R&&>(x)), op(ex::connect(static_cast<Item&&>(it), ir{this})) {}
    nx_op(nx_op&&) = delete;
    ~nx_op() { vp_check(st == 1, "an item operation is destroyed once"); st = 0; vp_check(k < 0 || answered, "a started item operation is not destroyed before it was answered"); }
    void start() & noexcept {
      vp_check(st == 1 && k < 0, "an item operation is started once");
      k = (int) vp_add(&sl.n_, 1) - 1;
      long a = vp_add(&sl.act_, 1);
      if (a > vp_get(&sl.max_)) vp_set(&sl.max_, a);
      ex::start(op);
    }
    template <class... As> void done(long c, As&... as) noexcept {
      vp_check(st == 1 && vp_get(&sl.ch_[k]) == none, "an item completes once");
      vp_set(&sl.ch_[k], c);
      if constexpr (sizeof...(As) > 0) vp_set(&sl.p_[k], (as_long(as) + ...));
      if ((F & c_defer) && vp_choose(2, "the consumer answers later")) { vp_set(&sl.pend_[k], (long) static_cast<pending_reply*>(this)); vp_event_set(&sl.pend_[k]); }
      else reply();
    }
    void reply() noexcept override {
      vp_check(st == 1, "an item operation that was not answered is alive");
      vp_set(&sl.pend_[k], 0);
      answered = true;
      bool b = (F & c_follow) && vp_get(&sl.ch_[k]) == stopped ? true : (F & c_break) && vp_choose(2, "the consumer breaks");
      vp_add(&sl.act_, -1);
      if (b) { vp_add(&sl.brk_, 1); ex::set_stopped(static_cast<R&&>(r)); }
      else {
        long d = vp_add(&sl.dep_, 1);
        if (d > vp_get(&sl.deep_)) vp_set(&sl.deep_, d);
        ex::set_value(static_cast<R&&>(r));
        vp_add(&sl.dep_, -1);
      }
    }
  };
  // what the consumer answers set_next with
  template <int F, class Item>
  struct nx {
    using sender_concept = ex::sender_tag;
    Item it;
    template <class, class...> static consteval auto get_completion_signatures() noexcept -> ex::completion_signatures<V0, SS> { return {}; }
    template <ex::receiver R> auto connect(R r) && noexcept(!(F & c_conthrow) && noexcept(nx_op<F, Item, R>{std::declval<Item>(), std::declval<R>()})) -> nx_op<F, Item, R> {
      if constexpr ((F & c_conthrow) != 0) if (vp_choose(2, "connecting the next sender throws")) { vp_add(&sl.fail_, 1); throw err{67}; }
      return nx_op<F, Item, R>{static_cast<Item&&>(it), static_cast<R&&>(r)};
    }
  };
  template <class Items, class T> struct has_item : std::false_type {};
  template <class... Is, class T> struct has_item<exec::item_types<Is...>, T> : std::bool_constant<(std::is_same_v<Is, T> || ...)> {};
  template <class T> struct has_item<void, T> : std::true_type {};

  // ---- the opaque consumer -------------------------------------------------------------
  template <int F, class Env, class Sigs, class Items>
  struct srcv {
    using receiver_concept = ex::receiver_tag;
    rcv_hooks* h;
    [[no_unique_address]] Env env_{};
    srcv(rcv_hooks* x, Env e) noexcept : h(x), env_(static_cast<Env&&>(e)) {}
    srcv(srcv&&) = default;
    template <class Item> auto set_next(Item&& item) & noexcept(!(F & c_throw) && std::is_nothrow_move_constructible_v<std::decay_t<Item>>) -> nx<F, std::decay_t<Item>> {
      vp_check(has_item<Items, std::decay_t<Item>>::value, "every item is one of the advertised item types");
      vp_check(h->o->n() == 0, "no item is offered once the sequence completed");
      vp_add(&sl.nexts_, 1);
      if constexpr ((F & c_throw) != 0) if (vp_choose(2, "set_next throws")) { vp_add(&sl.fail_, 1); throw err{66}; }
      return nx<F, std::decay_t<Item>>{static_cast<Item&&>(item)};
    }
    void last() const noexcept { vp_check(sl.active() == 0, "the sequence completes only after every item it started was answered"); }
    void set_value() && noexcept { rcv_hooks k = *h; last(); vp_check(declares<Sigs, ex::set_value_t>::value, "the value completion is one of the advertised completion signatures"); k.o->complete(value); if (k.after) k.after(k.arg); }
    template <class E> void set_error(E&& e) && noexcept { rcv_hooks k = *h; last(); vp_check(declares<Sigs, ex::set_error_t, E>::value, "the error completion is one of the advertised completion signatures"); k.o->complete(error, e); if (k.after) k.after(k.arg); }
    void set_stopped() && noexcept { rcv_hooks k = *h; last(); vp_check(declares<Sigs, ex::set_stopped_t>::value, "the stopped completion is one of the advertised completion signatures"); k.o->complete(stopped); if (k.after) k.after(k.arg); }
    auto get_env() const noexcept -> Env { return env_; }
  };

  // ---- an opaque item: the runtime counterpart of snd --------------------------------------
  template <class R, int Mode, class... Sigs>
  struct item_op : pending_base {
    using operation_state_concept = ex::operation_state_tag;
    R r;
    int id;
    long st = 1;
    datums d;
    item_op(R&& x, int i) noexcept : r(static_cast<R&&>(x)), id(i) { d.clear(); vp_add(&kids[id].conn_, 1); vp_set(&kids[id].started_, 0); vp_set(&kids[id].completed_, 0); }
    item_op(item_op&&) = delete;
    ~item_op() { vp_check(st == 1, "a child operation is destroyed once"); st = 0; d.expire(); if (vp_get(&kids[id].started_)) vp_check(vp_get(&kids[id].completed_) != 0, "a started child operation is not destroyed before it completes"); vp_add(&kids[id].destroyed_, 1); }
    void start() & noexcept {
      vp_check(st == 1 && vp_get(&kids[id].started_) == 0, "a child operation is started at most once");
      vp_set(&kids[id].started_, 1);
      if (Mode == m_inline || (Mode == m_any && vp_choose(2, "child completes later") == 0)) complete_any<R, Sigs...>(&kids[id], static_cast<R&&>(r), &d);
      else { vp_set(&kids[id].pend_, (long) static_cast<pending_base*>(this)); vp_event_set(&kids[id].pend_); }
    }
    void fire() noexcept override { vp_check(st == 1, "a pending child operation is alive"); vp_set(&kids[id].pend_, 0); complete_any<R, Sigs...>(&kids[id], static_cast<R&&>(r), &d); }
    bool stop() noexcept override { return ex::get_stop_token(ex::get_env(r)).stop_requested(); }
  };
  template <int Mode, class... Sigs>
  struct item {
    using sender_concept = ex::sender_tag;
    int id;
    template <class, class...> static consteval auto get_completion_signatures() noexcept -> ex::completion_signatures<Sigs...> { return {}; }
    template <ex::receiver R> auto connect(R r) const noexcept -> item_op<R, Mode, Sigs...> { return item_op<R, Mode, Sigs...>{static_cast<R&&>(r), id}; }
  };

  // ---- the opaque sequence sender: kid Id; up to N items made by Mk(k) -----------------------
  template <class Sigs, class S> struct has_sig : std::false_type {};
  template <class... Ss, class S> struct has_sig<ex::completion_signatures<Ss...>, S> : std::bool_constant<(std::is_same_v<Ss, S> || ...)> {};

  template <class R, int Id, int N, int Mode, class Mk, class... Sigs>
  struct seq_op : pending_base {
    using operation_state_concept = ex::operation_state_tag;
    using item_t = decltype(Mk::make(0));
    struct nr {
      using receiver_concept = ex::receiver_tag;
      seq_op* o;
      void set_value() && noexcept { seq_op* q = o; q->answered(false); }
      void set_stopped() && noexcept { seq_op* q = o; q->answered(true); }
      auto get_env() const noexcept -> ex::env_of_t<R> { return ex::get_env(o->r); }
    };
    using next_t = exec::next_sender_of_t<R, item_t>;
    using sigs = ex::completion_signatures<Sigs...>;
    R r;
    box<ex::connect_result_t<next_t, nr>> op;
    long st = 1;
    int i = 0;
    bool looping = false, again = false;
    datums d;
    explicit seq_op(R&& x) noexcept : r(static_cast<R&&>(x)) { d.clear(); vp_add(&kids[Id].conn_, 1); vp_set(&kids[Id].started_, 0); vp_set(&kids[Id].completed_, 0); }
    seq_op(seq_op&&) = delete;
    ~seq_op() { vp_check(st == 1, "a sequence operation is destroyed once"); st = 0; d.expire(); if (!op.full) vp_live(op.mem, sizeof(op.mem)); vp_check(vp_get(&kids[Id].started_) == 0 || vp_get(&kids[Id].completed_) != 0, "a started sequence operation is not destroyed before it completes"); vp_add(&kids[Id].destroyed_, 1); }
    void start() & noexcept { vp_check(st == 1 && vp_get(&kids[Id].started_) == 0, "a child operation is started at most once"); vp_set(&kids[Id].started_, 1); step(); }
    void step() noexcept {
      if (Mode == m_inline || (Mode == m_any && vp_choose(2, "the sequence continues later") == 0)) go();
      else { vp_set(&kids[Id].pend_, (long) static_cast<pending_base*>(this)); vp_event_set(&kids[Id].pend_); }
    }
    void fire() noexcept override { vp_check(st == 1, "a pending sequence operation is alive"); vp_set(&kids[Id].pend_, 0); go(); }
    bool stop() noexcept override { return ex::get_stop_token(ex::get_env(r)).stop_requested(); }
    void go() noexcept {
      if (i < N && vp_choose(2, "another item")) {
        vp_live(op.mem, sizeof(op.mem));
        try { op.emplace_from([&] { return ex::connect(exec::set_next(r, Mk::make(i)), nr{this}); }); }
        catch (...) {
          if constexpr (has_sig<sigs, EP>::value) { vp_set(&kids[Id].completed_, 1); vp_set(&kids[Id].ch_, error); vp_set(&kids[Id].pay_, as_long(std::current_exception())); ex::set_error(static_cast<R&&>(r), std::current_exception()); }
          else vp_check(false, "set_next does not throw here");
          return;
        }
        ++i;
        ex::start(op.get());
      } else complete_any<R, Sigs...>(&kids[Id], static_cast<R&&>(r), &d);
    }
    void answered(bool brk) noexcept {
      vp_check(st == 1 && vp_get(&kids[Id].completed_) == 0, "an item is answered while its sequence operation is alive");
      op.destroy();
      if (!brk) step();
      else if constexpr (requires { Mk::fails_after_break; }) complete_any<R, Sigs...>(&kids[Id], static_cast<R&&>(r), &d);
      else if constexpr (has_sig<sigs, SS>::value) complete_any<R, V0, SS>(&kids[Id], static_cast<R&&>(r), &d);
      else complete_any<R, V0>(&kids[Id], static_cast<R&&>(r), &d);
    }
  };
  template <int Id, int N, int Mode, class Mk, class... Sigs>
  struct seq {
    using sender_concept = exec::sequence_sender_tag;
    using item_types = exec::item_types<decltype(Mk::make(0))>;
    template <class, class...> static consteval auto get_completion_signatures() noexcept -> ex::completion_signatures<Sigs...> { return {}; }
    template <ex::receiver R> auto subscribe(R r) const noexcept -> seq_op<R, Id, N, Mode, Mk, Sigs...> { return seq_op<R, Id, N, Mode, Mk, Sigs...>{static_cast<R&&>(r)}; }
  };
  // items are kids Base, Base+1, ...
  template <int Base, int Mode, class... Sigs>
  struct mk { static auto make(int k) noexcept -> item<Mode, Sigs...> { return {Base + k}; } };

  // ---- a subscription whose completion destroys the operation --------------------------------
  template <class S, int F, class Env, class Sigs = ex::completion_signatures_of_t<S, Env>, class Items = std::decay_t<exec::__item_types_of_t<S, Env>>>
  struct sub {
    using R = srcv<F, Env, Sigs, Items>;
    using op_t = exec::subscribe_result_t<S, R>;
    obs o;
    rcv_hooks h;
    box<op_t> b;
    explicit sub(S s, Env e = {}) : h{&o, [](void* p) { static_cast<sub*>(p)->b.destroy(); }, this} {
      b.emplace_from([&]() -> op_t { return exec::subscribe(static_cast<S&&>(s), R{&h, static_cast<Env&&>(e)}); });
    }
    void start() noexcept { ex::start(b.get()); }
    ~sub() { if (b.full) b.destroy(); }
  };
  template <int F, class Env = ex::env<>, class S> auto subscribed(S s, Env e = {}) { return sub<S, F, Env>{static_cast<S&&>(s), static_cast<Env&&>(e)}; }

  // the same, with a stop source that dies as soon as the sequence ends
  template <class S, int F, class Sigs = ex::completion_signatures_of_t<S, stop_env>, class Items = std::decay_t<exec::__item_types_of_t<S, stop_env>>>
  struct sub_stop {
    using R = srcv<F, stop_env, Sigs, Items>;
    using op_t = exec::subscribe_result_t<S, R>;
    box<ex::inplace_stop_source> src;
    obs o;
    rcv_hooks h;
    box<op_t> b;
    explicit sub_stop(S s) : h{&o, [](void* p) { auto* q = static_cast<sub_stop*>(p); q->src.destroy(); q->b.destroy(); }, this} {
      ::new (static_cast<void*>(src.mem)) ex::inplace_stop_source; src.full = true;
      b.emplace_from([&]() -> op_t { return exec::subscribe(static_cast<S&&>(s), R{&h, stop_env{src.get().get_token()}}); });
    }
    void start() noexcept { ex::start(b.get()); }
    ~sub_stop() { if (b.full) b.destroy(); if (src.full) src.destroy(); }
  };
  template <int F, class S> auto subscribed_stop(S s) { return sub_stop<S, F>{static_cast<S&&>(s)}; }

  // complete whatever can complete, in any order, until nothing is pending
  inline void drive(int kidcount = 8) {
    for (int steps = 0; steps < 24; ++steps) {
      int n = 0;
      for (int k = 0; k < kidcount; ++k) n += kids[k].pending();
      for (int k = 0; k < sl.n(); ++k) n += sl.pending(k);
      if (n == 0) return;
      int c = n == 1 ? 0 : vp_choose(n, "what happens next");
      for (int k = 0; k < kidcount; ++k) if (kids[k].pending() && c-- == 0) { fire(k); c = -100; break; }
      if (c < 0) continue;
      for (int k = 0; k < sl.n(); ++k) if (sl.pending(k) && c-- == 0) { reinterpret_cast<pending_reply*>(vp_get(&sl.pend_[k]))->reply(); break; }
    }
    vp_check(false, "the scenario ends");
  }
}

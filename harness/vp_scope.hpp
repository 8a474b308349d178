#pragma once
#include "vp.hpp"
#include <atomic>
using namespace vp;
static long plain[4];
struct join_env { sch<7, m_any, V0> s; auto query(ex::get_start_scheduler_t) const noexcept { return s; } auto query(ex::get_scheduler_t) const noexcept { return s; } };
struct inl_env { auto query(ex::get_start_scheduler_t) const noexcept { return ex::inline_scheduler{}; } auto query(ex::get_scheduler_t) const noexcept { return ex::inline_scheduler{}; } };

// a join operation whose completion destroys the join operation and then the scope
template <class Scope>
struct joined_scope {
  box<Scope> sc;
  using J = decltype(std::declval<Scope&>().join());
  using R = rcv<inl_env, ex::completion_signatures_of_t<J, inl_env>>;
  obs o[2]; rcv_hooks h[2]; box<ex::connect_result_t<J, R>> op[2];
  int need = 1; std::atomic<int> done{0}; long seen[2] = {};
  joined_scope() { ::new ((void*) sc.mem) Scope; sc.full = true; for (int i = 0; i < 2; ++i) h[i] = {&o[i], i ? &after<1> : &after<0>, this}; }
  template <int I> static void after(void* p) {
    auto* s = static_cast<joined_scope*>(p);
    s->seen[I] += plain[0] + plain[1];               // everything the associated operations wrote is visible here
    s->op[I].destroy();
    if (s->done.fetch_add(1, std::memory_order_acq_rel) + 1 == s->need) s->sc.destroy();
  }
  Scope& get() { return sc.get(); }
  void join(int i = 0) { op[i].emplace_from([&] { return ex::connect(sc.get().join(), R{&h[i], {}}); }); ex::start(op[i].get()); }
  bool joined() const { return done.load(std::memory_order_relaxed) == need; }
};

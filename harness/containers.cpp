// the lists, the queues and the heap behind the execution contexts
#include "vp.hpp"
#include <exec/detail/bwos_lifo_queue.hpp>
#include <exec/detail/atomic_intrusive_queue.hpp>
#include <exec/detail/intrusive_heap.hpp>
#include <stdexec/__detail/__intrusive_queue.hpp>
#include <stdexec/__detail/__intrusive_slist.hpp>
#include <stdexec/__detail/__intrusive_mpsc_queue.hpp>
#include <stdexec/__detail/__atomic_intrusive_queue.hpp>
#include <exec/static_thread_pool.hpp>
using namespace vp;
struct item { long v = 0; item* next = nullptr; };
using Q = ex::__intrusive_queue<&item::next>;
static char cnt[16];
static void took(item* it) { if (it) vp_check(vp_add(&cnt[it->v], 1) == 1, "what was put in is taken out once"); }

// ---- the work-stealing queue of one pool thread ---------------------------------------
using B = exec::bwos::lifo_queue<item*>;
// one thread: any sequence of operations against the list it stands for
static void bwos_any(int blocks, int size, int ops) {
  B q(blocks, size);
  vp_check(q.num_blocks() >= (std::size_t) blocks && q.block_size() == (std::size_t) size, "the queue has the shape asked for");
  static item its[10]; int lo = 0, hi = 0, n = 0; item* live[10];
  for (int i = 0; i < ops; ++i) switch (vp_choose(3, "operation")) {
    case 0: its[n].v = n; if (q.push_back(&its[n])) { live[hi++] = &its[n]; } else vp_check(hi != lo, "an empty queue is not full"); ++n; break;
    case 1: { item* x = q.pop_back(); if (hi == lo) vp_check(x == nullptr, "nothing comes out of an empty queue"); else { vp_check(x == live[hi - 1], "the owner gets what was put in last"); --hi; } took(x); break; }
    case 2: { item* x = q.steal_front(); if (x) { vp_check(hi > lo && x == live[lo], "a thief gets what was put in first"); ++lo; } took(x); break; }
  }
  while (hi > lo) { item* x = q.pop_back(); vp_check(x == live[hi - 1], "the owner gets everything that was not stolen"); --hi; took(x); }
  vp_check(q.pop_back() == nullptr, "then it is empty");
}
VP_TEST(bwos_1_1) { bwos_any(1, 1, 5); }
VP_TEST(bwos_2_1) { bwos_any(2, 1, 8); }
VP_TEST(bwos_2_2) { bwos_any(2, 2, 8); }
VP_TEST(bwos_4_1) { bwos_any(4, 1, 8); }
VP_TEST(bwos_bulk) {
  Q l; static item its[6]; int n = vp_choose(6, "items"); for (int i = 0; i < n; ++i) { its[i].v = i; l.push_back(&its[i]); }
  B q(2, 2);
  if (vp_choose(2, "one before")) { its[5].v = 5; q.push_back(&its[5]); }
  auto last = q.push_back(l.begin(), l.end());
  int in = 0; for (auto it = l.begin(); it != last; ++it) ++in;
  vp_check(in == n || in >= 3, "as many as fit are put in");
  for (int i = in; i-- > 0;) { item* x = q.pop_back(); vp_check(x == &its[i], "in their order"); }
  Q m; m.splice(m.begin(), l, l.begin(), last);
  m.clear(); int k = in;              // as the pool does: what is in the queue belongs to whoever takes it
  for (; !l.empty(); ++k) { item* x = l.pop_front(); vp_check(x->v == k, "and leaves the rest"); }
  vp_check(k == n, "all of it");
}
// the owner and thieves
static B* G; static item gi[6];
static void thief(void* n) { for (long i = 0; i < (long) n; ++i) { item* x = G->steal_front(); if (x) vp_check(x->v >= 0 && gi + x->v == x, "a stolen item is whole"); took(x); } }
static void drain(B& q, int n) { while (item* x = q.pop_back()) took(x); vp_join_all(); while (item* x = q.pop_back()) took(x); for (int i = 0; i < n; ++i) vp_check(vp_get(&cnt[i]) == 1, "everything put in is taken out exactly once"); }
static void put(B& q, int i) { gi[i].v = i; if (!q.push_back(&gi[i])) took(&gi[i]); }
VP_TEST(bwos_thief) {
  vp_config("preempt", 3);
  B q(2, 1); G = &q;
  vp_spawn(thief, (void*) 2, "thief");
  put(q, 0); put(q, 1); if (vp_choose(2, "pop")) took(q.pop_back()); put(q, 2); put(q, 3);
  drain(q, 4);
}
VP_TEST(bwos_thief_2) {
  vp_config("preempt", 3);
  B q(2, 2); G = &q;
  put(q, 0); put(q, 1); put(q, 2);
  vp_spawn(thief, (void*) 2, "thief");
  took(q.pop_back()); took(q.pop_back()); put(q, 3); put(q, 4);
  drain(q, 5);
}
VP_TEST(bwos_thieves) {
  vp_config("preempt", 2);
  B q(2, 2); G = &q;
  put(q, 0); put(q, 1); put(q, 2);
  vp_spawn(thief, (void*) 1, "thief"); vp_spawn(thief, (void*) 2, "thief");
  took(q.pop_back()); took(q.pop_back()); put(q, 3); put(q, 4);
  drain(q, 5);
}
VP_TEST(bwos_wrap) {                 // blocks are reused while a thief is at work
  vp_config("preempt", 2);
  B q(2, 1); G = &q;
  put(q, 0); put(q, 1);
  vp_spawn(thief, (void*) 3, "thief");
  put(q, 2); put(q, 3); took(q.pop_back()); put(q, 4); put(q, 5);
  drain(q, 6);
}
// ---- lists ------------------------------------------------------------------------------
VP_TEST(queue_any) {
  static item its[6]; Q q; item* ref[12]; int lo = 6, hi = 6, n = 0;
  for (int i = 0; i < 6; ++i) switch (vp_choose(3, "operation")) {
    case 0: its[n].v = n; q.push_back(&its[n]); ref[hi++] = &its[n++]; break;
    case 1: its[n].v = n; q.push_front(&its[n]); ref[--lo] = &its[n++]; break;
    case 2: if (q.empty()) { vp_check(lo == hi, "empty means nothing was left"); break; } vp_check(lo < hi && q.pop_front() == ref[lo], "pop_front takes the first"); ++lo; break;
  }
  vp_check(q.empty() == (lo == hi), "empty means nothing is left");
  if (lo != hi) vp_check(q.front() == ref[lo] && q.back() == ref[hi - 1], "front and back are the ends");
  int k = lo; for (item* x: q) vp_check(x == ref[k++], "iteration goes from front to back"); vp_check(k == hi, "over all of it");
  while (!q.empty()) { vp_check(q.pop_front() == ref[lo], "pop_front takes the first"); ++lo; }
}
VP_TEST(queue_join) {
  static item its[6]; Q a, b; int na = vp_choose(3, "a"), nb = vp_choose(3, "b"), how = vp_choose(3, "how"); int n = 0;
  for (int i = 0; i < na; ++i) { its[n].v = n; a.push_back(&its[n++]); }
  for (int i = 0; i < nb; ++i) { its[n].v = n; b.push_back(&its[n++]); }
  Q c; int at = 0;
  if (how == 0) { a.append(std::move(b)); c = std::move(a); } else if (how == 1) { b.prepend(std::move(a)); c = std::move(b); } else { Q t{std::move(a)}; t.splice(t.end(), b, b.begin(), b.end()); c = std::move(t); }
  vp_check(b.empty() && a.empty(), "what was moved from is empty");
  if (n && vp_choose(2, "and one more")) { its[n].v = n; c.push_back(&its[n]); ++n; }
  for (; !c.empty(); ++at) vp_check(c.pop_front() == &its[at], "the lists are joined in order"); vp_check(at == n, "all of both");

}
VP_TEST(queue_make) {
  static item its[3]; int n = vp_choose(4, "n"); item* h = nullptr; for (int i = 0; i < n; ++i) { its[i].next = h; h = &its[i]; }
  bool rev = vp_choose(2, "reversed"); Q q = rev ? Q::make_reversed(h) : Q::make(h); 
  vp_check(n == 0 || q.back() == &its[rev ? n - 1 : 0], "the tail is the last"); its[2].v = 9; item extra; q.push_back(&extra);
  for (int i = 0; i < n; ++i) vp_check(q.pop_front() == &its[rev ? i : n - 1 - i], "in order"); vp_check(q.pop_front() == &extra && q.empty(), "and what came later");
}
using SL = ex::__intrusive_slist<&item::next>;
VP_TEST(slist) {
  static item its[4]; SL l; int n = vp_choose(4, "n"); for (int i = 0; i < n; ++i) l.push_front(&its[i]);
  item other; int r = vp_choose(n + 1, "remove"); 
  item* got = r < n ? l.remove(&its[r]) : n ? l.remove(&other) : nullptr; vp_check(got == (r < n ? &its[r] : nullptr), "remove takes what is there and only that");
  for (int i = n; i-- > 0;) if (i != r) vp_check(!l.empty() && l.pop_front() == &its[i], "the others stay in order"); vp_check(l.empty(), "nothing else");
}
// ---- atomic queues: any producers, one consumer -------------------------------------------
struct anode { long v = 0; anode* next = nullptr; };
using AQ = exec::__atomic_intrusive_queue<&anode::next>;
static AQ* A; static anode an[6]; static long last_of[2];
static void producer(void* p) { long k = (long) p; for (int i = 0; i < 2; ++i) { an[2 * k + i].v = 2 * k + i; A->push_front(&an[2 * k + i]); } }
template <class L> void take(L l) { int seen[2] = {-1, -1}; (void) seen; while (!l.empty()) { anode* x = l.pop_front(); int i = (int) x->v; vp_check(&an[i] == x && vp_add(&cnt[i], 1) == 1, "what was put in is taken out once"); if (i & 1) vp_check(i > 3 || vp_get(&cnt[i - 1]) == 1, "in the order each producer put it in"); } }
VP_TEST(atomic_queue) {
  vp_config("preempt", 3);
  AQ q; A = &q;
  vp_spawn(producer, (void*) 0, "producer"); vp_spawn(producer, (void*) 1, "producer");
  take(q.pop_all_reversed()); take(q.pop_all_reversed());
  vp_join_all(); take(q.pop_all_reversed());
  for (int i = 0; i < 4; ++i) vp_check(vp_get(&cnt[i]) == 1, "everything put in is taken out"); vp_check(q.empty(), "then it is empty");
}
static void prepender(void*) { ex::__intrusive_queue<&anode::next> l; an[4].v = 4; an[5].v = 5; l.push_back(&an[5]); l.push_back(&an[4]); A->prepend(std::move(l)); }
VP_TEST(atomic_queue_prepend) {
  vp_config("preempt", 3);
  AQ q; A = &q;
  vp_spawn(prepender, nullptr, "producer"); vp_spawn(producer, (void*) 0, "producer");
  take(q.pop_all_reversed()); vp_join_all(); take(q.pop_all_reversed());
  for (int i: {0, 1, 4, 5}) vp_check(vp_get(&cnt[i]) == 1, "everything put in is taken out");
}
using AQ2 = ex::__atomic_intrusive_queue<&anode::next>;
static AQ2* A2;
static void producer2(void* p) { long k = (long) p; for (int i = 0; i < 2; ++i) { an[2 * k + i].v = 2 * k + i; A2->push(&an[2 * k + i]); } }
VP_TEST(atomic_queue_wait) {
  vp_config("preempt", 3);
  AQ2 q; A2 = &q;
  vp_spawn(producer2, (void*) 0, "producer"); vp_spawn(producer2, (void*) 1, "producer");
  long n = 0; while (n < 4) { q.wait_for_item(); auto l = q.pop_all(); vp_check(!l.empty(), "wait_for_item returns when there is one"); take(std::move(l)); n = 0; for (int i = 0; i < 4; ++i) n += vp_get(&cnt[i]); }
  vp_join_all();
}
struct mnode { ex::__std::atomic<mnode*> next{nullptr}; long v = 0; };
using MQ = ex::__intrusive_mpsc_queue<&mnode::next>;
static MQ* MP; static mnode mn[4];
static void mproducer(void* p) { long k = (long) p; for (int i = 0; i < 2; ++i) { mn[2 * k + i].v = 2 * k + i; MP->push_back(&mn[2 * k + i]); } }
VP_TEST(mpsc_queue) {
  vp_config("preempt", 3);
  MQ q; MP = &q;
  vp_spawn(mproducer, (void*) 0, "producer"); vp_spawn(mproducer, (void*) 1, "producer");
  auto get = [&] { if (mnode* x = q.pop_front()) { int i = (int) x->v; vp_check(x == &mn[i] && vp_add(&cnt[i], 1) == 1, "what was put in is taken out once"); if (i & 1) vp_check(vp_get(&cnt[i - 1]) == 1, "in the order each producer put it in"); return true; } return false; };
  get(); get(); vp_join_all(); while (get()) {}
  for (int i = 0; i < 4; ++i) vp_check(vp_get(&cnt[i]) == 1, "everything put in is taken out");
}
// ---- the timer heap -----------------------------------------------------------------------
struct hn { int key = 0; hn* prev = nullptr; hn* left = nullptr; hn* right = nullptr; };
using H = exec::intrusive_heap<hn, int, &hn::key, &hn::prev, &hn::left, &hn::right>;
static void heap(int n, int keys, int erases) {
  hn nodes[8]; bool in[8]; H h;
  for (int i = 0; i < n; ++i) { nodes[i].key = vp_choose(keys, "key"); h.insert(&nodes[i]); in[i] = true; }
  auto is_min = [&] { hn* f = h.front(); int k = 0; bool any = false; for (int i = 0; i < n; ++i) if (in[i] && (!any || nodes[i].key < k)) { k = nodes[i].key; any = true; } vp_check(any == (f != nullptr), "there is a front while something is in"); if (f) vp_check(in[f - nodes] && f->key == k, "the front is one of the smallest"); };
  is_min();
  for (int e = 0; e < erases; ++e) { int i = vp_choose(n, "erase"); vp_check(h.erase(&nodes[i]) == in[i], "erase says whether it was in"); in[i] = false; is_min(); }
  if (vp_choose(2, "pop, then erase")) { hn* f = h.front(); if (f) { h.pop_front(); in[f - nodes] = false; is_min(); int i = vp_choose(n, "erase"); vp_check(h.erase(&nodes[i]) == in[i], "erase says whether it was in"); in[i] = false; is_min(); } }
  if (vp_choose(2, "insert again")) for (int i = 0; i < n; ++i) if (!in[i]) { nodes[i].key = vp_choose(keys, "key"); h.insert(&nodes[i]); in[i] = true; is_min(); break; }
  while (hn* f = h.front()) { h.pop_front(); vp_check(in[f - nodes], "only what is in comes out"); in[f - nodes] = false; is_min(); }
  for (int i = 0; i < n; ++i) { vp_check(!in[i], "everything that was in comes out"); vp_check(!h.erase(&nodes[i]), "and is no longer in"); }
}
VP_TEST(heap_3) { heap(3, 3, 2); }
VP_TEST(heap_5) { heap(5, 3, 1); }
VP_TEST(heap_4) { heap(4, 3, 2); }
VP_TEST(heap_7) { heap(7, 2, 1); }
VP_TEST(heap_8) { heap(8, 2, 1); }

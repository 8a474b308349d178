// the process-wide backend of the parallel scheduler
#define STDEXEC_PARALLEL_SCHEDULER_HEADER_ONLY 1
#include "vp.hpp"
using namespace vp;
namespace rp = ex::parallel_scheduler_replacement;
static char made, dead;
struct be final : rp::parallel_scheduler_backend {
  long id; explicit be(long i) : id(i) { vp_add(&made, 1); }
  ~be() { vp_add(&dead, 1); }
  void schedule(rp::receiver_proxy& r, std::span<std::byte>) noexcept override { r.set_value(); }
  void schedule_bulk_chunked(std::size_t n, rp::bulk_item_receiver_proxy& r, std::span<std::byte>) noexcept override { r.execute(0, n); r.set_value(); }
  void schedule_bulk_unchunked(std::size_t n, rp::bulk_item_receiver_proxy& r, std::span<std::byte>) noexcept override { for (std::size_t i = 0; i < n; ++i) r.execute(i, i + 1); r.set_value(); }
};
using ptr = std::shared_ptr<rp::parallel_scheduler_backend>;
static char ids;
static ptr fa() { return std::make_shared<be>(vp_add(&ids, 1)); }
static ptr fb() { return std::make_shared<be>(100 + vp_add(&ids, 1)); }
static ptr fnone() { return nullptr; }
// nothing is made yet when the factory is set: the backend is made on first use
static char tried;
static ptr flazy() { return vp_add(&tried, 1) == 1 ? nullptr : std::make_shared<be>(vp_add(&ids, 1)); }
struct reset { long h = vp_heap(); ~reset() { rp::set_parallel_scheduler_backend(fnone); vp_check(vp_heap() == h, "every backend is released"); vp_check(vp_get(&made) == vp_get(&dead), "every backend is destroyed"); } };
static long id(const ptr& p) { return static_cast<be*>(p.get())->id; }
VP_TEST(replace) { reset z; rp::set_parallel_scheduler_backend(fa); auto p = rp::query_parallel_scheduler_backend(); vp_check(p && id(p) == 1, "the backend is the one that was set"); vp_check(p == rp::query_parallel_scheduler_backend(), "there is one backend");
  auto old = rp::set_parallel_scheduler_backend(fb); vp_check(old == &fa, "setting a factory returns the previous one"); auto q = rp::query_parallel_scheduler_backend(); vp_check(id(q) == 102, "the backend is the one that was set"); vp_check(!vp_get(&dead), "a backend lives as long as it is used"); p.reset(); vp_check(vp_get(&dead) == 1, "a replaced backend is released"); }
VP_TEST(same) { reset z; rp::set_parallel_scheduler_backend(fa); auto a = ex::get_parallel_scheduler(); auto b = ex::get_parallel_scheduler(); vp_check(a == b, "the parallel scheduler is unique"); }
VP_TEST(lazy) { reset z; rp::set_parallel_scheduler_backend(flazy); vp_check(!vp_get(&made), "nothing is made yet"); auto a = ex::get_parallel_scheduler(); auto b = ex::get_parallel_scheduler(); vp_check(a == b, "the parallel scheduler is unique"); vp_check(vp_get(&made) == 1, "one backend is made"); }
VP_TEST(missing) { reset z; rp::set_parallel_scheduler_backend(fnone); bool t = false; try { (void) ex::get_parallel_scheduler(); } catch (...) { t = true; } vp_check(t, "without a backend there is no scheduler"); }
static void q(void* p) { *static_cast<ptr*>(p) = rp::query_parallel_scheduler_backend(); }
static void set_b(void*) { rp::set_parallel_scheduler_backend(fb); }
VP_TEST(two_queries) { vp_config("preempt", 3); reset z; ptr a, b; rp::set_parallel_scheduler_backend(fa); vp_spawn(q, &a, "query"); vp_spawn(q, &b, "query"); vp_join_all(); vp_check(a == b && id(a) == 1, "there is one backend"); }
VP_TEST(two_first_queries) { vp_config("preempt", 3); reset z; ptr a, b; rp::set_parallel_scheduler_backend(flazy); vp_spawn(q, &a, "query"); vp_spawn(q, &b, "query"); vp_join_all(); vp_check(a == b && a == rp::query_parallel_scheduler_backend(), "there is one backend"); }
VP_TEST(query_and_set) { vp_config("preempt", 3); reset z; ptr a; rp::set_parallel_scheduler_backend(fa); vp_spawn(q, &a, "query"); vp_spawn(set_b, nullptr, "set"); vp_join_all(); vp_check(id(a) == 1 || id(a) == 102, "a query gets one of the backends"); vp_check(id(rp::query_parallel_scheduler_backend()) == 102, "the backend is the one that was set"); }
VP_TEST(first_query_and_set) { vp_config("preempt", 3); reset z; ptr a; rp::set_parallel_scheduler_backend(flazy); vp_spawn(q, &a, "query"); vp_spawn(set_b, nullptr, "set"); vp_join_all(); vp_check(a != nullptr, "a query gets one of the backends"); vp_check(id(rp::query_parallel_scheduler_backend()) >= 100, "the backend is the one that was set"); }
VP_TEST(two_sets) { vp_config("preempt", 3); reset z; ptr a; rp::set_parallel_scheduler_backend(fnone); vp_spawn(set_b, nullptr, "set"); vp_spawn(set_b, nullptr, "set"); vp_spawn(q, &a, "query"); vp_join_all(); vp_check(id(rp::query_parallel_scheduler_backend()) > 100, "the backend is one that was set"); }

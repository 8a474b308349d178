// completions and start() that may throw have to be rejected; VPFAIL == 0 is the well-formed twin
#include "wit.hpp"
#ifndef VPFAIL
#  define VPFAIL 0
#endif
using namespace w;
#define NX(n) noexcept(VPFAIL != n)
WIT(true);
// ---- completion functions and start that may throw
struct op5 { using operation_state_concept = ex::operation_state_tag; void start() & NX(1); };
struct rc5 { using receiver_concept = ex::receiver_tag; void set_value() NX(2); void set_error(int) NX(3); void set_stopped() NX(4); };
inline void use5(op5& o, rc5 r) { ex::start(o); ex::set_value(std::move(r)); ex::set_error(std::move(r), 1); ex::set_stopped(std::move(r)); }
#if VPFAIL == 1 // an operation whose start() may throw
#endif
#if VPFAIL == 2 // a receiver whose set_value() may throw
#endif
#if VPFAIL == 3 // a receiver whose set_error() may throw
#endif
#if VPFAIL == 4 // a receiver whose set_stopped() may throw
#endif

// The BOOST_ASSERT handler of the debug simulation.
#include "plan.hpp"
#include "debug_rt.hpp"
#include <cstdlib>
namespace sim { namespace dbg {
bool armed = false, live = false; sigjmp_buf top; void (*check_untouched)(void*) = nullptr; void* who = nullptr;
static void fail(const char* expr, const char* fn, long line) {
    S.lib = 0; S.arm = 0; S.core = 0;
    if (!live) { fprintf(stderr, "assertion outside a run: %s (%s:%ld)\n", expr, fn, line); _Exit(70); }
    live = false;
    if (armed) {
        armed = false; tracef("    reported: %s (line %ld)", expr, line); mix(0xA55E);
        check_untouched(who);
        siglongjmp(top, 2);
    }
    violate(C15, "assertion-on-valid-use", expr, true);
    siglongjmp(top, 3);
}
}}
namespace boost {
void assertion_failed(char const* expr, char const* function, char const*, long line) { sim::dbg::fail(expr, function, line); abort(); }
void assertion_failed_msg(char const* expr, char const*, char const* function, char const*, long line) { sim::dbg::fail(expr, function, line); abort(); }
}

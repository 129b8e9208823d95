#pragma once
#include <setjmp.h>
namespace sim { namespace dbg {
extern bool armed;                        // a misuse is in progress: an assertion is what must happen
extern bool live;                         // a run is in progress (the handler may jump)
extern sigjmp_buf top;
extern void (*check_untouched)(void*); extern void* who;
}}

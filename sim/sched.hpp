// Threads under the simulator: real OS threads of which exactly one runs; every switch is a decision of the plan.
#pragma once
#include "core.hpp"
#include <functional>

namespace sim { namespace sched {

struct Decision { uint32_t run, who, flag; };      // after `run` points hand over to the who-th runnable thread
struct Abandon {};                                  // unwinds threads that can never continue

extern bool active;
extern int cur;                                     // running thread, -1 outside run()
extern bool deadlock;
extern uint64_t switches, trail;                    // count and hash of (thread, position) at every switch
extern void (*on_flag)(uint32_t flag);              // a decision carrying a flag (fault injection of the world)

void run(std::vector<std::function<void()>> fns, const std::vector<Decision>& ds);
void point();                                       // a place where the thread may be preempted
void block();                                       // not runnable until wake(); throws Abandon if nothing can run any more
void wake(int t);
bool blocked(int t);

}}  // namespace

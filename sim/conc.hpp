#pragma once
#include "sched.hpp"
namespace sim { namespace conc {
const int SHARED = -7;
struct Range { const char* b; const char* e; int owner; };      // memory of container objects
extern std::vector<Range> ranges; extern bool readers; extern std::vector<Violation> found; extern uint64_t accesses;
void reset();
}}

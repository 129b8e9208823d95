#pragma once
#include "plan.hpp"
namespace sim {
uint64_t plan_seed(uint64_t base, int prop, uint64_t i);
Plan generate(int prop, uint64_t seed);
Plan generate_for(int world, int prop, uint64_t seed);   // the common generator, for a given world
}

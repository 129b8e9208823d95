// C19: the bounded buffers of example/bounded_buffer_comparison.cpp (real classes).
#include "bound.hpp"
#define main comparison_example_main                // other names than those of the other example: one program holds both
#define bounded_buffer cmp_bounded_buffer
#define Producer CmpProducer
#define Consumer CmpConsumer
#define fifo_test cmp_fifo_test
#include CB_COMPARISON
#undef main

namespace sim {
static RegB<K0, cmp_bounded_buffer<Elem<K0>>> r0(35, "comparison bounded_buffer<K0>", false);
static RegB<K0, bounded_buffer_space_optimized<Elem<K0>>> r1(36, "comparison bounded_buffer_space_optimized<K0>", true);
static RegB<K1, bounded_buffer_space_optimized<Elem<K1>>> r2(37, "comparison bounded_buffer_space_optimized<K1>", true);
static RegB<K6, bounded_buffer_space_optimized<long>> r3(38, "comparison bounded_buffer_space_optimized<long>", true);
}  // namespace sim

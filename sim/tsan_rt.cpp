// The compiler reports every memory access of the instrumented code here (in place of the race detector's runtime):
// each is a preemption point and is judged against who may touch what.
#include "conc.hpp"
#include "plan.hpp"
#include <cstdio>
#include <unordered_map>

extern "C" { extern char __data_start[]; extern char _end[]; }
namespace sim { namespace conc {

std::vector<Range> ranges; bool readers = false; std::vector<Violation> found; uint64_t accesses = 0;
static bool in_hook = false;
struct Cell { uint32_t readers, writers; };
static std::unordered_map<uintptr_t, Cell> statics;
void reset() { ranges.clear(); found.clear(); statics.clear(); accesses = 0; readers = false; in_hook = false; }
static void report(const char* kind, const std::string& d) { if (found.size() < 8) found.push_back(Violation{kind, C18, -1, d}); tracef("    !! %s %s", kind, d.c_str()); }
static bool own(const void* a, const void* obj, size_t n) { return a >= obj && a < static_cast<const char*>(obj) + n; }

static void access(const void* a, size_t n, bool write) {
    if (!sched::active || in_hook || S.lib <= 0 || S.core > 0 || n == 0) return;
    in_hook = true; ++accesses;
    const char* who = write ? "writes" : "reads";
    if (in_arena(a)) {
        uint32_t b = block_of(a);
        if (b) {
            int o = block(b).owner;
            if (o != S.tid && (o != SHARED || write)) report(o == SHARED ? "reader-writes-shared-storage" : "touches-another-threads-storage", "thread " + std::to_string(S.tid) + " " + who + " block #" + std::to_string(b));
        }
    } else {
        bool hit = false;
        for (const Range& r : ranges) if (a >= r.b && a < r.e) {
            hit = true;
            if (r.owner != S.tid && (r.owner != SHARED || write)) report(r.owner == SHARED ? "reader-writes-shared-buffer" : "touches-another-threads-buffer", "thread " + std::to_string(S.tid) + " " + who + " offset " + std::to_string(static_cast<const char*>(a) - r.b));
        }
        if (!hit && a >= static_cast<void*>(__data_start) && a < static_cast<void*>(_end) && !own(a, &S, sizeof S) && !own(a, &COV, sizeof COV)) {
            for (uintptr_t k = uintptr_t(a) / 4; k <= (uintptr_t(a) + n - 1) / 4; ++k) {
                Cell& c = statics[k]; uint32_t me = 1u << S.tid;
                (write ? c.writers : c.readers) |= me;
                if ((c.writers & ~me) || (write && (c.readers & ~me))) { report("unsynchronised-shared-state", "thread " + std::to_string(S.tid) + " " + who + " static storage also used by another thread"); break; }
            }
        }
    }
    in_hook = false;
    sched::point();
}
}}  // namespace
using sim::conc::access;

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* a) { access(a, n, false); } void __tsan_write##n(void* a) { access(a, n, true); } \
    void __tsan_unaligned_read##n(void* a) { access(a, n, false); } void __tsan_unaligned_write##n(void* a) { access(a, n, true); } \
    void __tsan_volatile_read##n(void* a) { access(a, n, false); } void __tsan_volatile_write##n(void* a) { access(a, n, true); } \
    void __tsan_unaligned_volatile_read##n(void* a) { access(a, n, false); } void __tsan_unaligned_volatile_write##n(void* a) { access(a, n, true); } \
    void __tsan_read##n##_pc(void* a, void*) { access(a, n, false); } void __tsan_write##n##_pc(void* a, void*) { access(a, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long n) { access(a, n, false); }
void __tsan_write_range(void* a, unsigned long n) { access(a, n, true); }
void __tsan_vptr_update(void** a, void*) { access(a, 8, true); }
void __tsan_vptr_read(void** a) { access(a, 8, false); }
// atomics: a preemption point, never a race (one thread runs at a time, so plain accesses are atomic here)
#define AT(b, T) \
    T __tsan_atomic##b##_load(const volatile T* a, int) { sim::sched::point(); return *a; } \
    void __tsan_atomic##b##_store(volatile T* a, T v, int) { sim::sched::point(); *a = v; } \
    T __tsan_atomic##b##_exchange(volatile T* a, T v, int) { sim::sched::point(); T o = *a; *a = v; return o; } \
    T __tsan_atomic##b##_fetch_add(volatile T* a, T v, int) { sim::sched::point(); T o = *a; *a = T(o + v); return o; } \
    T __tsan_atomic##b##_fetch_sub(volatile T* a, T v, int) { sim::sched::point(); T o = *a; *a = T(o - v); return o; } \
    T __tsan_atomic##b##_fetch_and(volatile T* a, T v, int) { sim::sched::point(); T o = *a; *a = T(o & v); return o; } \
    T __tsan_atomic##b##_fetch_or(volatile T* a, T v, int) { sim::sched::point(); T o = *a; *a = T(o | v); return o; } \
    T __tsan_atomic##b##_fetch_xor(volatile T* a, T v, int) { sim::sched::point(); T o = *a; *a = T(o ^ v); return o; } \
    T __tsan_atomic##b##_fetch_nand(volatile T* a, T v, int) { sim::sched::point(); T o = *a; *a = T(~(o & v)); return o; } \
    bool __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) { sim::sched::point(); if (*a == *e) { *a = v; return true; } *e = *a; return false; } \
    bool __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) { sim::sched::point(); if (*a == *e) { *a = v; return true; } *e = *a; return false; } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T* a, T e, T v, int, int) { sim::sched::point(); T o = *a; if (o == e) *a = v; return o; }
typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef unsigned long u64;
AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { access(s, n, false); access(d, n, true); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { access(s, n, false); access(d, n, true); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { access(d, n, true); return __real_memset(d, c, n); }
// lazily initialised function-local statics synchronise by themselves: their initialiser is neither judged nor preempted
int __real___cxa_guard_acquire(u64*); void __real___cxa_guard_release(u64*); void __real___cxa_guard_abort(u64*);
int __wrap___cxa_guard_acquire(u64* g) { int r = __real___cxa_guard_acquire(g); if (r) ++sim::S.core; return r; }
void __wrap___cxa_guard_release(u64* g) { --sim::S.core; __real___cxa_guard_release(g); }
void __wrap___cxa_guard_abort(u64* g) { --sim::S.core; __real___cxa_guard_abort(g); }
}

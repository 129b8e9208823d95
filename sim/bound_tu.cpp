// C19: the documented bounded buffer (the example's real class) under simulated threads, mutex and conditions.
#include "bound.hpp"
#define main circular_buffer_example_main
#include CB_EXAMPLE
#undef main

namespace sim {
namespace sync {
std::vector<CondBase*> conds; std::vector<uint64_t> last_lock; uint64_t locks, choices, choice_seed, spurious;
CondBase::CondBase() { conds.push_back(this); }
CondBase::~CondBase() { conds.erase(std::find(conds.begin(), conds.end(), this)); }
void acquired(const void*) { if (sched::cur >= 0) last_lock[size_t(sched::cur)] = ++locks; }
uint32_t choose(uint32_t n) { Rng r(choice_seed + ++choices * 7919); return r.below(n); }
void flag(uint32_t) {                        // a spurious wake-up of one waiting thread
    std::vector<std::pair<CondBase*, size_t>> all; for (CondBase* c : conds) for (size_t i = 0; i < c->waiting.size(); ++i) all.push_back({c, i});
    if (all.empty()) return;
    auto& x = all[choose(uint32_t(all.size()))]; int t = x.first->waiting[x.second]; x.first->waiting.erase(x.first->waiting.begin() + long(x.second)); sched::wake(t); ++spurious;
}
}
// the same pattern on the space-optimized container
template <class T> class bounded_so {
    boost::circular_buffer_space_optimized<T> c; size_t unread; boost::mutex m; boost::condition ne, nf;
public:
    typedef T value_type;
    explicit bounded_so(size_t n) : c(n), unread(0) {}
    void push_front(const T& x) { boost::mutex::scoped_lock l(m); nf.wait(l, [&] { return unread < size_t(c.capacity()); }); c.push_front(x); ++unread; l.unlock(); ne.notify_one(); }
    void pop_back(T* p) { boost::mutex::scoped_lock l(m); ne.wait(l, [&] { return unread > 0; }); *p = c[--unread]; l.unlock(); nf.notify_one(); }
};

static RegB<K0, bounded_buffer<Elem<K0>>> r0(30, "example bounded_buffer<K0>", false);
static RegB<K2, bounded_buffer<Elem<K2>>> r1(31, "example bounded_buffer<K2>", false);
static RegB<K6, bounded_buffer<long>> r2(32, "example bounded_buffer<long>", false);
static RegB<K1, bounded_so<Elem<K1>>> r3(33, "pattern on space_optimized<K1>", true);
static RegB<K0, bounded_so<Elem<K0>>> r4(34, "pattern on space_optimized<K0>", true);
}  // namespace sim

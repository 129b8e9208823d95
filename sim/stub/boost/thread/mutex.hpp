// Simulated mutex and condition: same interface as the parts of Boost.Thread the bounded buffer uses.
#pragma once
#include "sched.hpp"
#include <vector>
namespace sim { namespace sync {
void acquired(const void* m);                       // the world logs the order in which threads enter the lock
uint32_t choose(uint32_t n);                        // which waiter a notification reaches: a seeded decision
struct CondBase { std::vector<int> waiting; CondBase(); ~CondBase(); };
}}
namespace boost {
class mutex {
    int owner; std::vector<int> want;
    mutex(const mutex&); mutex& operator=(const mutex&);
public:
    mutex() : owner(-1) {}
    void lock() {
        sim::sched::point();
        while (owner != -1) { want.push_back(sim::sched::cur); sim::sched::block(); }
        owner = sim::sched::cur; sim::sync::acquired(this); sim::sched::point();
    }
    bool try_lock() { sim::sched::point(); if (owner != -1) return false; owner = sim::sched::cur; sim::sync::acquired(this); return true; }
    void unlock() { owner = -1; std::vector<int> w; w.swap(want); for (int t : w) sim::sched::wake(t); }
    class scoped_lock {
        mutex* m; bool held; scoped_lock(const scoped_lock&); scoped_lock& operator=(const scoped_lock&);
    public:
        explicit scoped_lock(mutex& x) : m(&x), held(false) { lock(); }
        ~scoped_lock() { if (held) m->unlock(); }
        void lock() { m->lock(); held = true; }
        void unlock() { m->unlock(); held = false; sim::sched::point(); }
        bool owns_lock() const { return held; }
    };
};
template <class M> class unique_lock : public mutex::scoped_lock { public: explicit unique_lock(M& m) : mutex::scoped_lock(m) {} };
template <class M> class lock_guard { M& m; lock_guard(const lock_guard&); lock_guard& operator=(const lock_guard&); public: typedef M mutex_type; explicit lock_guard(M& x) : m(x) { m.lock(); } ~lock_guard() { m.unlock(); sim::sched::point(); } };
}

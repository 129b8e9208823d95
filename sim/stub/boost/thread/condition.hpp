#pragma once
#include <boost/thread/mutex.hpp>
namespace boost {
class condition : sim::sync::CondBase {
    condition(const condition&); condition& operator=(const condition&);
public:
    condition() {}
    template <class L> void wait(L& l) {
        waiting.push_back(sim::sched::cur); l.unlock();          // atomic: nobody runs between (unlock preempts only afterwards)
        bool listed = true;
        while (listed) {
            listed = false; for (int t : waiting) if (t == sim::sched::cur) listed = true;
            if (listed) sim::sched::block();
            listed = false; for (int t : waiting) if (t == sim::sched::cur) listed = true;
        }
        l.lock();
    }
    template <class L, class P> void wait(L& l, P p) { while (!p()) wait(l); }
    void notify_one() { sim::sched::point(); if (waiting.empty()) return; uint32_t i = sim::sync::choose(uint32_t(waiting.size())); int t = waiting[i]; waiting.erase(waiting.begin() + i); sim::sched::wake(t); }
    void notify_all() { sim::sched::point(); std::vector<int> w; w.swap(waiting); for (int t : w) sim::sched::wake(t); }
};
typedef condition condition_variable;
}

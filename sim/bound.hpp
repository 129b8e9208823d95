// C19: a bounded buffer class under simulated threads, mutex and conditions: execution and judging of one plan.
#pragma once
#include "plan.hpp"
#include "sched.hpp"
#include <boost/thread/mutex.hpp>
#include <boost/thread/condition.hpp>
#include <algorithm>
#include <deque>
#include <functional>
#include <memory>

namespace sim {
namespace sync {
extern std::vector<CondBase*> conds; extern std::vector<uint64_t> last_lock; extern uint64_t locks, choices, choice_seed, spurious;
void flag(uint32_t);
}
template <int K, class BB> struct Bound {
    typedef typename KindOf<K>::type E;
    struct Rec { uint64_t at; bool push; long id; int thread; };
    static void yield(int) { sched::point(); }
    static bool supports(int op) { return op == XA || op == XB; }
    static void run(const Plan& p, RunResult& r) {
        begin_run(); S.step_tags = C19;
        int n = 1; for (const Step& s : p.steps) if (s.op != SCHED) n = std::max(n, s.c + 1);
        size_t cap = std::max<size_t>(1, p.caps[0]);
        sync::conds.clear(); sync::last_lock.assign(size_t(n), 0); sync::locks = sync::choices = sync::spurious = 0; sync::choice_seed = p.seed;
        std::vector<Rec> log; std::vector<int> state(size_t(n), 0), doing(size_t(n), 0); uint64_t ops = 0, faults = 0; std::vector<Violation> found;
        size_t pushes = 0, pops = 0; long ids = 100;
        {
            std::unique_ptr<BB> bb(new BB(cap));
            S.yield = &yield; std::vector<std::function<void()>> fn;
            for (int t = 0; t < n; ++t) fn.push_back([&, t] {
                int si = -1;
                for (const Step& s : p.steps) {
                    ++si; if (s.op == SCHED || s.c != t) continue;
                    S.step_events = 0; S.step = si; doing[size_t(t)] = s.op; ++COV.op_runs[s.op]; ++ops;
                    if (s.op == XA) {
                        long id = ++ids; E item = make<E>(id); bool ok = false;
                        S.fired = false; S.fired_count = 0; S.ordinal = 0; if (s.mode == M_FAULT) { S.arm = s.mask; S.countdown = std::max(1, s.count); S.sticky = s.sticky; }
                        tracef("    thread %d: push %ld", t, id);
                        bool failed = false;
                        for (int attempt = 0; attempt < 2 && !ok; ++attempt) {   // a producer whose copy failed offers the same item again
                            try { Lib l; bb->push_front(item); ok = true; } catch (SimFault&) { failed = true; } catch (SimBadAlloc&) { failed = true; } catch (sched::Abandon&) { S.lib = 0; S.arm = 0; throw; } catch (std::exception& e) { found.push_back(Violation{"unexpected-exception", C19, si, e.what()}); }
                            S.arm = 0; if (!S.fired) break;
                        }
                        if (S.fired) { ++faults; ++COV.op_fault[s.op]; if (!failed) found.push_back(Violation{"failure-swallowed", C19, si, ""}); }
                        if (!ok) found.push_back(Violation{"push-failed-without-cause", C19, si, ""});
                        if (ok) { log.push_back(Rec{sync::last_lock[size_t(t)], true, id, t}); ++pushes; }
                        mix(uint64_t(id) * 2 + ok);
                    } else {
                        E item = make<E>(-5); bool ok = false;
                        try { Lib l; bb->pop_back(&item); ok = true; } catch (sched::Abandon&) { S.lib = 0; throw; } catch (std::exception& e) { found.push_back(Violation{"unexpected-exception", C19, si, e.what()}); }
                        tracef("    thread %d: popped %ld", t, peek(item));
                        if (ok) { log.push_back(Rec{sync::last_lock[size_t(t)], false, peek(item), t}); ++pops; mix(uint64_t(peek(item)) * 2); }
                    }
                }
                state[size_t(t)] = 1; doing[size_t(t)] = 0;
            });
            std::vector<sched::Decision> d; for (const Step& s : p.steps) if (s.op == SCHED) d.push_back({s.x, s.y, s.mode});
            sched::on_flag = &sync::flag; sched::run(fn, d); sched::on_flag = nullptr; S.yield = nullptr;
            if (sched::deadlock) {                       // every thread still waiting must have a reason to
                int wait_push = 0, wait_pop = 0; for (int t = 0; t < n; ++t) if (!state[size_t(t)]) (doing[size_t(t)] == XA ? wait_push : wait_pop)++;
                size_t held = pushes - pops;
                if ((wait_push && held < cap) || (wait_pop && held > 0)) found.push_back(Violation{"no-progress", C19, -1, std::to_string(wait_push) + " producers and " + std::to_string(wait_pop) + " consumers wait with " + std::to_string(held) + " of " + std::to_string(cap) + " items"});
                ++COV.probes[PR_LENGTH_ERROR];
            }
        }
        // the operations took effect in the order in which they held the lock: replay them on a plain queue
        std::sort(log.begin(), log.end(), [](const Rec& a, const Rec& b) { return a.at < b.at; });
        std::deque<long> q;
        for (const Rec& x : log) {
            if (x.push) { if (q.size() >= cap) { found.push_back(Violation{"producer-passed-a-full-buffer", C19, -1, "item " + std::to_string(x.id)}); break; } q.push_back(x.id); if (q.size() == cap) ++COV.probes[PR_FULL]; }
            else { if (q.empty()) { found.push_back(Violation{"consumer-passed-an-empty-buffer", C19, -1, "got " + std::to_string(x.id)}); break; }
                if (q.front() != x.id) { found.push_back(Violation{"item-lost-duplicated-or-reordered", C19, -1, "expected " + std::to_string(q.front()) + " got " + std::to_string(x.id)}); break; } q.pop_front(); }
        }
        if (K != K6 && S.live_other != 0) found.push_back(Violation{"items-leaked", C19, -1, std::to_string(S.live_other)});
        for (auto& v : S.viol) found.push_back(v);
        r.viol = found; r.steps_run = int(ops); r.faults = int(faults); r.events = S.events; r.switches = sched::switches; r.interleaving = sched::trail; COV.probes[PR_SPURIOUS] += sync::spurious;
        r.hash = S.hash ^ sched::trail; for (const Rec& x : log) r.hash = (r.hash ^ (uint64_t(x.id) * 4 + x.push)) * 0x100000001B3ull;
        S.viol.clear();
    }
};
inline Plan bound_gen(int world, int prop, uint64_t seed) {
    Rng r(seed); r.next(); Plan p; p.prop = prop; p.seed = seed; p.world = world;
    p.caps[0] = 1 + r.below(r.chance(1, 3) ? 9 : 3); p.caps[1] = p.caps[2] = 0;
    uint32_t prod = 1 + r.below(3), cons = 1 + r.below(3), items = 1 + r.below(r.chance(1, 4) ? 30 : 10);
    bool faulty = r.chance(1, 2);
    for (uint32_t i = 0; i < items; ++i) {
        Step a; a.op = XA; a.c = uint8_t(r.below(prod));
        if (faulty && r.chance(1, 4)) { a.mode = M_FAULT; a.mask = F_ALL; a.count = 1 + int(r.below(3)); }
        p.steps.push_back(a);
        Step b; b.op = XB; b.c = uint8_t(prod + r.below(cons)); if (!r.chance(1, 40)) p.steps.push_back(b);
    }
    static const uint32_t lens[] = {2, 6, 20, 80}; uint32_t len = lens[r.below(4)], sw = r.below(60); bool spur = r.chance(1, 2);
    for (uint32_t s = 0; s < sw; ++s) { Step t; t.op = SCHED; t.x = r.below(len); t.y = r.below(12); t.mode = spur && r.chance(1, 3); p.steps.push_back(t); }
    return p;
}
template <int K, class BB> struct RegB { RegB(int id, const char* name, bool so) { typedef Bound<K, BB> T; register_world(id, World{name, so, K, "std::allocator", &T::supports, &T::run, true, &bound_gen, 1}); } };
}  // namespace sim

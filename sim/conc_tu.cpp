// C18. Compiled once per world with -fsanitize=thread: programs of independent threads (each a full model-checked
// world of its own), and simultaneous readers of one buffer, interleaved at single memory accesses.
#include "world.hpp"
#include "conc.hpp"
#include <memory>
#include <cstring>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {
struct Alone { uint64_t hash = 0, events = 0; std::string verdict; };
inline std::string verdict_of(const RunResult& r) { std::string s; for (auto& v : r.viol) s += v.kind + "@" + std::to_string(v.step) + ";"; if (r.aborted) s += "aborted"; return s; }

template <int K, bool SO, template <class> class A> struct Conc {
    typedef W<K, SO, A> World1; typedef typename World1::CB CB; typedef typename World1::E E;
    static void yield(int) { sched::point(); }
    static void schedule(const Plan& p, std::vector<sched::Decision>& d) { for (const Step& s : p.steps) if (s.op == SCHED) d.push_back({s.x, s.y, s.mode}); }
    static int threads(const Plan& p) { int n = 2; for (const Step& s : p.steps) if (s.op != SCHED) n = std::max(n, s.c / 3 + 1); return std::min(n, 4); }
    static void verdicts(RunResult& r) {
        for (auto& v : conc::found) r.viol.push_back(v);
        r.switches = sched::switches; r.interleaving = sched::trail; r.hash = (S.hash ^ sched::trail) * 0x100000001B3ull + conc::accesses; r.events = S.events;
    }
    static void independent(const Plan& p, RunResult& r) {
        int n = threads(p); std::vector<Plan> sub(size_t(n), p); std::vector<Alone> alone(static_cast<size_t>(n)), both(static_cast<size_t>(n));
        for (int t = 0; t < n; ++t) {
            Plan& q = sub[size_t(t)]; q.prop = 0; q.steps.clear(); if (p.max_elems < 1000) q.max_elems += uint32_t(t) * 5;   // limits of their own
            for (Step s : p.steps) if (s.op != SCHED && s.op < SCHED && s.c / 3 == t) { s.c %= 3; q.steps.push_back(s); }
        }
        // alone: each in a process of its own, so that nothing another thread did can be seen
        struct Res { uint64_t hash, events, steps, faults, foreign; char verdict[1024]; };
        Res* res = static_cast<Res*>(mmap(nullptr, size_t(n) * sizeof(Res), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        for (int t = 0; t < n; ++t) {
            fflush(stdout); strcpy(res[t].verdict, "crash"); pid_t pid = fork();
            if (pid == 0) {
                begin_run(); RunResult q; { std::unique_ptr<World1> w(new World1(sub[size_t(t)], q)); w->go(); }
                res[t].hash = S.hash; res[t].events = S.events; res[t].steps = uint64_t(q.steps_run); res[t].faults = uint64_t(q.faults); res[t].foreign = q.viol.size();
                snprintf(res[t].verdict, sizeof res[t].verdict, "%s", verdict_of(q).c_str()); fflush(stdout); _exit(0);
            }
            int st = 0; waitpid(pid, &st, 0);
            if (!strcmp(res[t].verdict, "crash")) { ++r.foreign; r.aborted = true; munmap(res, size_t(n) * sizeof(Res)); return; }   // no thread needed for it: another property
            alone[size_t(t)] = {res[t].hash, res[t].events, res[t].verdict}; r.foreign += res[t].foreign; r.steps_run += int(res[t].steps); r.faults += int(res[t].faults);
        }
        munmap(res, size_t(n) * sizeof(Res));
        begin_run(); conc::reset(); S.yield = &yield;
        std::vector<std::unique_ptr<World1>> w; std::vector<RunResult> q(static_cast<size_t>(n)); std::vector<std::function<void()>> fn;
        for (int t = 0; t < n; ++t) {
            w.emplace_back(new World1(sub[size_t(t)], q[size_t(t)]));
            const char* m = reinterpret_cast<const char*>(&w.back()->mem[0][0]); conc::ranges.push_back({m, m + sizeof w.back()->mem, t});
        }
        for (int t = 0; t < n; ++t) fn.push_back([&, t] { w[size_t(t)]->go(); both[size_t(t)] = {S.hash, S.events, verdict_of(q[size_t(t)])}; });
        std::vector<sched::Decision> d; schedule(p, d);
        sched::run(fn, d); S.yield = nullptr;
        for (int t = 0; t < n; ++t) {
            const Alone &a = alone[size_t(t)], &b = both[size_t(t)];
            if (a.verdict != b.verdict) r.viol.push_back(Violation{"outcome-differs-from-running-alone", C18, -1, "thread " + std::to_string(t) + ": alone {" + a.verdict + "} interleaved {" + b.verdict + "}"});
            else if (a.hash != b.hash || a.events != b.events) r.viol.push_back(Violation{"history-differs-from-running-alone", C18, -1, "thread " + std::to_string(t)});
        }
        verdicts(r);
    }
    // ---- simultaneous readers of one buffer
    static void fail(int si, const char* what) { S.step = si; conc::found.push_back(Violation{"reader-saw-wrong-sequence", C18, si, what}); }
    static void reader_step(int si, const Step& st, const CB& c, const CB& d, const std::vector<long>& v, const std::vector<long>& u) {
        size_t n = v.size(); S.step_events = 0;
        std::vector<long> got; got.reserve(n + 4); bool ok = true; Out o;
        auto arm = [&] { S.fired = false; S.fired_count = 0; S.ordinal = 0; if (st.mode == M_FAULT) { S.arm = st.mask; S.countdown = std::max(1, st.count); S.sticky = st.sticky; } };
        auto call = [&](auto f) {
            arm(); Out o;
            try { Lib l; f(); } catch (SimFault&) { o.x = X_FAULT; } catch (SimBadAlloc&) { o.x = X_FAULT; } catch (std::out_of_range&) { o.x = X_RANGE; } catch (...) { o.x = X_OTHER; }
            S.arm = 0; if (S.fired) ++ran[1]; return o;
        };
        switch (st.x % 10) {
        case 0: o = call([&] { for (typename CB::const_iterator i = c.begin(); i != c.end(); ++i) got.push_back(peek(*i)); }); break;
        case 1: o = call([&] { for (size_t i = 0; i < c.size(); ++i) got.push_back(peek(c[i])); }); break;
        case 2: o = call([&] { for (typename CB::const_reverse_iterator i = c.rbegin(); i != c.rend(); ++i) got.push_back(peek(*i)); }); std::reverse(got.begin(), got.end()); break;
        case 3: o = call([&] { auto a = c.array_one(), b = c.array_two(); for (size_t i = 0; i < a.second; ++i) got.push_back(peek(*(a.first + i))); for (size_t i = 0; i < b.second; ++i) got.push_back(peek(*(b.first + i))); }); break;
        case 4: o = call([&] { for (size_t i = 0; i < n; ++i) got.push_back(peek(c.at(i))); ok = c.size() == n && c.empty() == (n == 0) && c.full() == (n == size_t(c.capacity())) && c.reserve() == size_t(c.capacity()) - n && (c.max_size() > 0); }); break;
        case 5: if (!n) return; o = call([&] { ok = peek(c.front()) == v.front() && peek(c.back()) == v.back(); got = v; }); break;
        case 6: o = call([&] { got = v; (void)c.at(n + st.y % 5); }); if (o.x != X_RANGE) fail(si, "at"); o.x = X_NONE; break;
        case 7: o = call([&] { ok = (c == d) == (v == u) && (c < d) == (v < u) && (d != c) == (v != u); got = v; }); break;
        case 8: o = call([&] { typename CB::const_iterator i = c.begin(); size_t p = 0; for (size_t k = 0; k < n; ++k) { size_t t = (p + st.y + k) % n; i += long(t) - long(p); p = t; ok = ok && peek(*i) == v[p] && i - c.begin() == long(p); } got = v; ok = ok && c.end() - c.begin() == long(n); }); break;
        default: copy(c, got, call, o, std::integral_constant<bool, World1::copyable>()); break;
        }
        ++ran[0];
        if (o.x == X_FAULT && S.fired) return;
        if (o.x != X_NONE) fail(si, "unexpected exception"); else if (!ok || got != v) fail(si, "wrong result");
    }
    template <class C2> static void copy(const CB& c, std::vector<long>& got, C2& call, Out& o, std::true_type) {
        o = call([&] { CB e(c); for (size_t i = 0; i < e.size(); ++i) got.push_back(peek(e[i])); });
    }
    template <class C2> static void copy(const CB& c, std::vector<long>& got, C2& call, Out& o, std::false_type) { o = call([&] { for (size_t i = 0; i < c.size(); ++i) got.push_back(peek(c[i])); }); }
    static uint64_t ran[2];
    static void readers(const Plan& p, RunResult& r) {
        begin_run(); conc::reset(); ran[0] = ran[1] = 0; S.tid = conc::SHARED; S.max_elems = p.max_elems;
        int n = threads(p);
        { std::unique_ptr<char[]> mem(new char[2 * sizeof(CB) + 128]); char* base = mem.get(); base += (64 - uintptr_t(base) % 64) % 64;
            CB* cb[2]; std::vector<long> v[2]; long id = 100;
            for (int i = 0; i < 2; ++i) {
                size_t cap = std::min<size_t>(p.caps[i], 60);
                cb[i] = ::new (base + size_t(i) * sizeof(CB)) CB(World1::mkcap(cap, std::min<size_t>(p.mins[i], cap)), A<E>(i + 1));
                if (!cap) continue;
                for (uint32_t k = 0; k < p.rot[i] % (cap + 1); ++k) { E e = make<E>(7); cb[i]->push_back(std::move(e)); cb[i]->pop_front(); }
                if (i == 1 && p.rot[2] % 2) id = 100;             // equal prefixes make comparisons interesting
                for (uint32_t k = 0; k < p.fill[i] % (cap + 1); ++k) { ++id; E e = make<E>(id); cb[i]->push_back(std::move(e)); v[i].push_back(id); }
            }
            conc::ranges.push_back({base, base + 2 * sizeof(CB), conc::SHARED});
            S.yield = &yield; std::vector<std::function<void()>> fn;
            for (int t = 0; t < n; ++t) fn.push_back([&, t] { int si = 0; for (const Step& s : p.steps) { if (s.op != SCHED && s.c / 3 == t) reader_step(si, s, *cb[s.d % 2], *cb[(s.d + 1) % 2], v[s.d % 2], v[(s.d + 1) % 2]); ++si; } });
            std::vector<sched::Decision> d; schedule(p, d);
            sched::run(fn, d); S.yield = nullptr;
            std::vector<Violation> keep = conc::found;
            for (int i = 0; i < 2; ++i) { for (size_t k = 0; k < v[i].size(); ++k) if (cb[i]->size() != v[i].size() || peek((*cb[i])[k]) != v[i][k]) { keep.push_back(Violation{"buffer-changed-by-readers", C18, -1, ""}); break; } cb[i]->~CB(); }
            conc::found = keep;
        }
        r.steps_run = int(ran[0]); r.faults = int(ran[1]); verdicts(r);
    }
};
template <int K, bool SO, template <class> class A> uint64_t Conc<K, SO, A>::ran[2];

static Plan gen(int world, int prop, uint64_t seed) {
    Rng r(seed); r.next(); Plan p; p.prop = prop; p.seed = seed; p.world = world; const sim::World& w = worlds[size_t(world)];
    bool rd = strncmp(w.name, "readers", 7) == 0;
    for (int i = 0; i < 3; ++i) {
        p.caps[i] = r.chance(1, 12) ? 0 : r.below(r.chance(1, 4) ? 34 : 9); p.mins[i] = r.chance(1, 2) ? 0 : r.below(p.caps[i] + 1);
        p.rot[i] = r.next() & 0xffff; p.fill[i] = r.chance(1, 3) ? p.caps[i] : uint32_t(r.next() & 0xffff);
    }
    if (!rd && !w.cbso && r.chance(1, 3)) p.max_elems = 8 + r.below(40);
    uint32_t n = 2 + r.chance(1, 3); bool faulty = r.chance(1, 3);
    std::vector<int> menu; for (int o = 0; o < SCHED; ++o) if (w.supports(o)) for (int k = r.below(3); k > 0; --k) menu.push_back(o);
    if (menu.empty()) menu.push_back(OBSERVE);
    uint32_t steps = 2 + r.below(rd ? 10 : 14);
    for (uint32_t s = 0; s < steps; ++s) {
        Step t; t.op = uint8_t(rd ? int(OBSERVE) : menu[r.below(uint32_t(menu.size()))]); t.c = uint8_t(3 * r.below(n) + r.below(3)); t.d = uint8_t(r.below(3));
        t.x = uint32_t(r.next() & 0xffffff); t.y = uint32_t(r.next() & 0xffffff); t.z = uint32_t(r.next() & 0xffffff);
        if (faulty && r.chance(1, 5)) { t.mode = M_FAULT; t.mask = F_ALL; t.count = 1; while (t.count < 30 && r.chance(3, 4)) ++t.count; t.sticky = r.chance(1, 4); }
        p.steps.push_back(t);
    }
    static const uint32_t lens[] = {3, 12, 60, 400, 3000}; uint32_t len = lens[r.below(5)], sw = 1 + r.below(40);
    for (uint32_t s = 0; s < sw; ++s) { Step t; t.op = SCHED; t.x = r.below(r.chance(1, 6) ? 10 * len : len); t.y = r.below(6); p.steps.push_back(t); }
    return p;
}
#define STR2(x) #x
#define STR(x) STR2(x)
#if BOOST_CB_ENABLE_DEBUG
#define DBGNAME "debug "
#else
#define DBGNAME ""
#endif
struct RegC {
    RegC() {
        typedef Conc<WK, WSO, WA> T;
        register_world(WID, World{WSO ? "independent<" DBGNAME "space_optimized<" STR(WK) "," STR(WA) ">>" : "independent<" DBGNAME "circular_buffer<" STR(WK) "," STR(WA) ">>", WSO, WK, STR(WA), &W<WK, WSO, WA>::supports, &T::independent, true, &gen, 2});
#if !BOOST_CB_ENABLE_DEBUG      // with debug support even readers of one buffer have to exclude each other (documented)
        register_world(WID + 50, World{WSO ? "readers<space_optimized<" STR(WK) "," STR(WA) ">>" : "readers<circular_buffer<" STR(WK) "," STR(WA) ">>", WSO, WK, STR(WA), &W<WK, WSO, WA>::supports, &T::readers, true, &gen, 1});
#endif
    }
};
static RegC reg;
}  // namespace sim
#if BOOST_CB_ENABLE_DEBUG
namespace boost {   // valid histories: an assertion is a crash of the run
__attribute__((weak)) void assertion_failed(char const* expr, char const* fn, char const*, long line) { fprintf(stderr, "assertion: %s (%s:%ld)\n", expr, fn, line); _Exit(70); }
__attribute__((weak)) void assertion_failed_msg(char const* expr, char const*, char const* fn, char const*, long line) { assertion_failed(expr, fn, "", line); }
}
#endif

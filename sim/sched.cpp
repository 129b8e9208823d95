#include "sched.hpp"
#include <cstdio>
#include <cstdlib>
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>

namespace sim { namespace sched {

bool active = false, deadlock = false;
int cur = -1;
uint64_t switches = 0, trail = 0;
void (*on_flag)(uint32_t) = nullptr;

enum { RUNNABLE, BLOCKED, DONE };
struct Thread { pthread_t th; sem_t sem; int status; bool abandon; State st; std::function<void()> fn; };
static std::vector<Thread*> tt;
static sem_t main_sem;
static std::vector<Decision> dec; static size_t dpos = 0; static uint64_t budget = 0; static bool endless = true;

static int nth_runnable(uint32_t k) {
    uint32_t n = 0; for (Thread* t : tt) n += t->status == RUNNABLE;
    if (!n) return -1;
    k %= n;
    for (size_t i = 0; i < tt.size(); ++i) if (tt[i]->status == RUNNABLE && k-- == 0) return int(i);
    return -1;
}
static void next_budget() { if (dpos < dec.size()) { budget = dec[dpos].run + 1; endless = false; } else endless = true; }
static void leave_to(int to) {                     // the caller then waits on its own semaphore or ends
    int me = cur;
    ++switches; trail = (trail ^ (uint64_t(me) * 1000003 + S.events * 8 + uint64_t(to))) * 0x100000001B3ull; trail ^= trail >> 31;
    if (S.trace) tracef("        ~~ switch: thread %d (at event %lu) -> thread %d", me, (unsigned long)S.events, to);
    std::swap(tt[size_t(me)]->st, S); std::swap(S, tt[size_t(to)]->st);
    cur = to; sem_post(&tt[size_t(to)]->sem);
}
static void take(bool forced) {                    // consume one decision; forced: the current thread cannot continue
    uint32_t who = 0;
    if (dpos < dec.size()) { Decision d = dec[dpos++]; who = d.who; if (d.flag && on_flag) on_flag(d.flag); }
    next_budget();
    int to = nth_runnable(who), me = cur;
    if (to < 0) {                                  // nothing can run
        deadlock = true;
        for (Thread* t : tt) if (t->status == BLOCKED) { t->status = RUNNABLE; t->abandon = true; }
        to = me;
    }
    if (to != me) { leave_to(to); while (sem_wait(&tt[size_t(me)]->sem)) {} }
    if (tt[size_t(me)]->abandon) { tt[size_t(me)]->abandon = false; if (forced) throw Abandon(); }
}
void point() {
    if (!active || endless) return;
    if (--budget == 0) take(false);
}
void block() { tt[size_t(cur)]->status = BLOCKED; take(true); }
void wake(int t) { if (tt[size_t(t)]->status == BLOCKED) tt[size_t(t)]->status = RUNNABLE; }
bool blocked(int t) { return tt[size_t(t)]->status == BLOCKED; }

static void* body(void* p) {
    Thread* t = static_cast<Thread*>(p);
    while (sem_wait(&t->sem)) {}
    try { t->fn(); } catch (Abandon&) {}
    t->status = DONE; S.lib = 0;
    int to = nth_runnable(dpos < dec.size() ? dec[dpos].who : 0);
    if (to < 0) {
        bool left = false;
        for (Thread* u : tt) if (u->status == BLOCKED) { deadlock = left = true; u->status = RUNNABLE; u->abandon = true; }
        if (left) to = nth_runnable(0);
    }
    if (to >= 0) leave_to(to);
    else { std::swap(t->st, S); cur = -1; sem_post(&main_sem); }
    return nullptr;
}
void run(std::vector<std::function<void()>> fns, const std::vector<Decision>& ds) {
    dec = ds; dpos = 0; deadlock = false; switches = 0; trail = 1469598103934665603ull; next_budget();
    sem_init(&main_sem, 0, 0);
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 512 * 1024);
    State base = S; uint64_t ff[F_NKINDS]; memcpy(ff, S.fault_fired, sizeof ff);
    for (size_t i = 0; i < fns.size(); ++i) {
        Thread* t = new Thread; t->status = RUNNABLE; t->abandon = false; t->st = base; t->st.tid = int(i); memset(t->st.fault_fired, 0, sizeof ff); t->fn = fns[i]; sem_init(&t->sem, 0, 0); tt.push_back(t);
    }
    for (Thread* t : tt) if (pthread_create(&t->th, &at, body, t)) { perror("pthread_create"); _exit(78); }
    active = true; cur = 0; std::swap(S, tt[0]->st); sem_post(&tt[0]->sem);
    while (sem_wait(&main_sem)) {}
    active = false; cur = -1;
    for (Thread* t : tt) pthread_join(t->th, nullptr);
    S = base; memcpy(S.fault_fired, ff, sizeof ff);
    for (Thread* t : tt) {
        for (int k = 0; k < F_NKINDS; ++k) S.fault_fired[k] += t->st.fault_fired[k];
        S.live_other += t->st.live_other - base.live_other; S.live_arena += t->st.live_arena - base.live_arena; S.live_blocks += t->st.live_blocks - base.live_blocks;
        S.events += t->st.events - base.events; S.hash = (S.hash ^ t->st.hash) * 0x100000001B3ull;
        sem_destroy(&t->sem); delete t;
    }
    tt.clear(); sem_destroy(&main_sem); pthread_attr_destroy(&at);
}

}}  // namespace

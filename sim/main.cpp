// Driver: seeded search over plans, replay, minimisation.
//   simrun run PROP SEED RUNS WORKERS SECONDS OUTDIR      search; writes OUTDIR/stats.json and, on a violation, OUTDIR/found.plan
//   simrun replay FILE [-q]                               executes one plan (prints the trace); exit 1 if it violates its property
//   simrun min FILE OUT SECONDS                           minimises a violating plan, keeping the violation class
//   simrun gen PROP SEED INDEX                            prints the plan of one run
#include "gen.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <fstream>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>

using namespace sim;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + double(t.tv_nsec) * 1e-9; }
static void cpu_timer(int sec) { itimerval v; v.it_interval.tv_sec = v.it_interval.tv_usec = v.it_value.tv_usec = 0; v.it_value.tv_sec = sec; setitimer(ITIMER_VIRTUAL, &v, nullptr); }
static void quiet_limits() { rlimit l; l.rlim_cur = l.rlim_max = 0; setrlimit(RLIMIT_CORE, &l); }

struct Slot { volatile uint64_t cur; volatile int running; volatile uint64_t runs, events, steps, faults, aborted, foreign, dbl, clean, switches; volatile int bad_determinism; };
struct Shared { volatile uint64_t stop_at; Slot s[64]; };

static std::string prop_name(int p) { char b[8]; snprintf(b, sizeof b, "C%02d", p); return b; }

// ------------------------------------------------------------------ one plan in a fork: outcome as text "class|step|hash|detail"
struct Outcome { bool viol = false; std::string kind, detail; int step = -1; uint64_t hash = 0; };
static Outcome run_forked(const Plan& p, bool trace = false) {
    int fd[2]; if (pipe(fd)) { perror("pipe"); exit(2); }
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        close(fd[0]); quiet_limits(); cpu_timer(12); if (!trace) { if (!freopen("/dev/null", "w", stderr)) {} }
        S.trace = trace; if (trace) setvbuf(stdout, nullptr, _IOLBF, 0);
        RunResult r; worlds[p.world].run(p, r);
        std::ostringstream o;
        if (r.viol.empty()) o << "ok\n-1\n" << r.hash << "\n\n"; else o << r.viol[0].kind << "\n" << r.viol[0].step << "\n" << r.hash << "\n" << r.viol[0].detail << "\n";
        std::string s = o.str(); if (write(fd[1], s.data(), s.size()) < 0) {}
        fflush(stdout); _exit(0);
    }
    close(fd[1]);
    std::string s; char b[512]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) s.append(b, size_t(n));
    close(fd[0]); int st = 0; waitpid(pid, &st, 0);
    Outcome o;
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) || s.empty()) {
        o.viol = true; int sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
        o.kind = sig == SIGVTALRM || (WIFEXITED(st) && WEXITSTATUS(st) == 66) ? "does-not-terminate" : "crash";
        o.detail = sig ? strsignal(sig) : "exit " + std::to_string(WEXITSTATUS(st));
        return o;
    }
    std::istringstream in(s); std::string l; std::getline(in, o.kind); std::getline(in, l); o.step = atoi(l.c_str()); std::getline(in, l); o.hash = strtoull(l.c_str(), nullptr, 10); std::getline(in, o.detail);
    o.viol = o.kind != "ok"; if (!o.viol) o.kind.clear();
    return o;
}

// ------------------------------------------------------------------ one plan in this process, or in a process of its own
struct Iso {
    int done, viol, step, aborted, steps_run, faults; char kind[64], detail[256]; uint64_t hash, events, foreign, switches, interleaving;
    uint64_t op_runs[OP_COUNT], op_fault[OP_COUNT], probes[PR_COUNT], ff[F_NKINDS]; uint32_t nstates; uint64_t states[128];
};
static void exec_one(const Plan& p, RunResult& r) {
    const World& w = worlds[p.world];
    static const bool force = getenv("SIM_ISOLATE") != nullptr;
    if (!w.isolate && !force) { w.run(p, r); return; }
    static Iso* iso = nullptr;
    if (!iso) iso = static_cast<Iso*>(mmap(nullptr, sizeof(Iso), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    iso->done = 0; iso->viol = 0;
    pid_t pid = fork();
    if (pid == 0) {
        cpu_timer(12);
        COV = Coverage(); memset(S.fault_fired, 0, sizeof S.fault_fired);
        RunResult q; w.run(p, q);
        iso->hash = q.hash; iso->events = q.events; iso->foreign = q.foreign; iso->switches = q.switches; iso->interleaving = q.interleaving; iso->aborted = q.aborted; iso->steps_run = q.steps_run; iso->faults = q.faults;
        memcpy(iso->op_runs, COV.op_runs, sizeof COV.op_runs); memcpy(iso->op_fault, COV.op_fault, sizeof COV.op_fault); memcpy(iso->probes, COV.probes, sizeof iso->probes); memcpy(iso->ff, S.fault_fired, sizeof iso->ff);
        iso->nstates = 0; for (uint64_t h : COV.states) if (iso->nstates < 128) iso->states[iso->nstates++] = h;
        if (!q.viol.empty()) { iso->viol = 1; iso->step = q.viol[0].step; snprintf(iso->kind, sizeof iso->kind, "%s", q.viol[0].kind.c_str()); snprintf(iso->detail, sizeof iso->detail, "%s", q.viol[0].detail.c_str()); }
        iso->done = 1; _exit(0);
    }
    int st = 0; waitpid(pid, &st, 0);
    if (!iso->done) { r.viol.push_back(Violation{"crash", 0, -1, ""}); return; }
    r.hash = iso->hash; r.events = iso->events; r.foreign = iso->foreign; r.switches = iso->switches; r.interleaving = iso->interleaving; r.aborted = iso->aborted; r.steps_run = iso->steps_run; r.faults = iso->faults;
    for (int k = 0; k < OP_COUNT; ++k) { COV.op_runs[k] += iso->op_runs[k]; COV.op_fault[k] += iso->op_fault[k]; }
    for (int k = 0; k < PR_COUNT; ++k) COV.probes[k] += iso->probes[k];
    for (int k = 0; k < F_NKINDS; ++k) S.fault_fired[k] += iso->ff[k];
    for (uint32_t k = 0; k < iso->nstates; ++k) COV.states.insert(iso->states[k]);
    if (iso->viol) r.viol.push_back(Violation{iso->kind, 0, iso->step, iso->detail});
}

// ------------------------------------------------------------------ workers
static void worker(Shared* sh, int w, int W, int prop, uint64_t seed, uint64_t runs, double deadline, const std::string& out) {
    Slot& s = sh->s[w]; quiet_limits();
    for (uint64_t i = uint64_t(w); i < runs; i += uint64_t(W)) {
        if (i >= sh->stop_at) break;
        if ((s.runs & 63) == 0 && now() > deadline) break;
        s.cur = i; s.running = 1; cpu_timer(12);
        Plan p = generate(prop, plan_seed(seed, prop, i));
        RunResult r; exec_one(p, r);
        if ((i / uint64_t(W)) % 64 == 0 && r.viol.empty()) {
            RunResult r2; exec_one(p, r2); ++s.dbl;
            if (r2.hash != r.hash || r2.events != r.events || r2.interleaving != r.interleaving) { s.bad_determinism = 1; }
        }
        ++s.runs; s.events += r.events; s.steps += uint64_t(r.steps_run); s.faults += uint64_t(r.faults); s.aborted += r.aborted; s.foreign += r.foreign; s.clean += r.faults == 0; s.switches += r.switches;
        if (r.interleaving) COV.states.insert(r.interleaving);
        s.running = 0;
        if (!r.viol.empty()) {
            uint64_t o = sh->stop_at; while (i < o && !__sync_bool_compare_and_swap(&sh->stop_at, o, i)) o = sh->stop_at;
            break;
        }
    }
    cpu_timer(0);
    std::ofstream f(out, std::ios::binary);
    auto put = [&](uint64_t v) { f.write(reinterpret_cast<char*>(&v), 8); };
    for (int k = 0; k < F_NKINDS; ++k) put(S.fault_fired[k]);
    for (int k = 0; k < OP_COUNT; ++k) put(COV.op_runs[k]);
    for (int k = 0; k < OP_COUNT; ++k) put(COV.op_fault[k]);
    for (int k = 0; k < PR_COUNT; ++k) put(COV.probes[k]);
    put(COV.states.size()); for (uint64_t h : COV.states) put(h);
    f.close(); _exit(0);
}

static int cmd_run(int prop, uint64_t seed, uint64_t runs, int W, double secs, const std::string& dir) {
    Shared* sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    memset(static_cast<void*>(sh), 0, sizeof *sh); sh->stop_at = ~0ull;
    double t0 = now();
    std::vector<pid_t> pid;
    for (int w = 0; w < W; ++w) {
        fflush(stdout); pid_t p = fork();
        if (p == 0) { if (!freopen("/dev/null", "w", stderr)) {} worker(sh, w, W, prop, seed, runs, t0 + secs, dir + "/cov." + std::to_string(w)); }
        pid.push_back(p);
    }
    bool crashed = false;
    for (int w = 0; w < W; ++w) {
        int st; waitpid(pid[w], &st, 0);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            crashed = true; uint64_t i = sh->s[w].cur, o = sh->stop_at;
            while (i < o && !__sync_bool_compare_and_swap(&sh->stop_at, o, i)) o = sh->stop_at;
        }
    }
    double wall = now() - t0;
    uint64_t ff[F_NKINDS] = {0}, opr[OP_COUNT] = {0}, opf[OP_COUNT] = {0}, pr[PR_COUNT] = {0}; std::unordered_set<uint64_t> st;
    uint64_t tot[9] = {0}; int baddet = 0;
    for (int w = 0; w < W; ++w) {
        Slot& s = sh->s[w]; tot[0] += s.runs; tot[1] += s.events; tot[2] += s.steps; tot[3] += s.faults; tot[4] += s.aborted; tot[5] += s.foreign; tot[6] += s.dbl; tot[7] += s.clean; tot[8] += s.switches; baddet |= s.bad_determinism;
        std::string fn = dir + "/cov." + std::to_string(w);
        std::ifstream f(fn, std::ios::binary); if (!f) continue;
        auto get = [&]() { uint64_t v = 0; f.read(reinterpret_cast<char*>(&v), 8); return v; };
        for (auto& x : ff) x += get(); for (auto& x : opr) x += get(); for (auto& x : opf) x += get(); for (auto& x : pr) x += get();
        uint64_t n = get(); for (uint64_t k = 0; k < n && f; ++k) st.insert(get());
        f.close(); unlink(fn.c_str());
    }
    FILE* j = fopen((dir + "/stats.json").c_str(), "w"); if (!j) { perror("stats"); return 2; }
    fprintf(j, "{\"runs\": %lu, \"events\": %lu, \"steps\": %lu, \"faulty_steps\": %lu, \"aborted\": %lu, \"foreign\": %lu, \"double_runs\": %lu, \"fault_free_runs\": %lu, \"switches\": %lu, \"nondeterministic\": %d, \"wall\": %.3f, \"distinct\": %zu, \"crashed\": %d,\n",
        tot[0], tot[1], tot[2], tot[3], tot[4], tot[5], tot[6], tot[7], tot[8], baddet, wall, st.size(), crashed);
    fprintf(j, "\"faults\": {"); for (int k = 0; k < F_NKINDS; ++k) fprintf(j, "%s\"%s\": %lu", k ? ", " : "", fault_names[k], ff[k]);
    fprintf(j, "},\n\"ops\": {"); for (int k = 0; k < OP_COUNT; ++k) fprintf(j, "%s\"%s\": [%lu, %lu]", k ? ", " : "", op_names[k], opr[k], opf[k]);
    fprintf(j, "},\n\"probes\": {"); for (int k = 0; k < PR_COUNT; ++k) fprintf(j, "%s\"%s\": %lu", k ? ", " : "", probe_names[k], pr[k]);
    fprintf(j, "},\n\"worlds\": ["); bool first = true;
    { std::set<int> used; for (uint64_t i = 0; i < std::min<uint64_t>(runs, 2000); ++i) used.insert(generate(prop, plan_seed(seed, prop, i)).world);
      for (int u : used) { fprintf(j, "%s\"%s\"", first ? "" : ", ", worlds[u].name); first = false; } }
    fprintf(j, "],\n\"found\": %s}\n", sh->stop_at == ~0ull ? "null" : std::to_string(sh->stop_at).c_str());
    fclose(j);
    if (sh->stop_at != ~0ull) { std::ofstream f(dir + "/found.plan"); f << generate(prop, plan_seed(seed, prop, sh->stop_at)).text(); return 1; }
    return 0;
}

static bool load(const char* fn, Plan& p) { std::ifstream f(fn); std::stringstream b; b << f.rdbuf(); return p.parse(b.str()) && size_t(p.world) < worlds.size() && worlds[p.world].run; }

static int cmd_min(const char* in, const char* out, double secs) {
    Plan p; if (!load(in, p)) { fprintf(stderr, "bad plan\n"); return 2; }
    double end = now() + secs; Outcome base = run_forked(p);
    if (!base.viol) { fprintf(stderr, "plan does not violate\n"); return 3; }
    int evals = 0;
    auto still = [&](const Plan& q) { if (now() > end) return false; ++evals; Outcome o = run_forked(q); return o.viol && o.kind == base.kind; };
    if (base.step >= 0 && size_t(base.step) + 1 < p.steps.size()) { Plan q = p; q.steps.resize(size_t(base.step) + 1); if (still(q)) p = q; }
    bool again = true;
    while (again && now() < end) {
        again = false;
        for (size_t chunk = std::max<size_t>(1, p.steps.size() / 2);; chunk /= 2) {
            for (size_t i = 0; i < p.steps.size();) {
                Plan q = p; q.steps.erase(q.steps.begin() + long(i), q.steps.begin() + long(std::min(i + chunk, q.steps.size())));
                if (still(q)) { p = q; again = true; } else i += chunk;
            }
            if (chunk <= 1) break;
        }
        auto attempt = [&](auto f) { Plan q = p; f(q); if (q.text() != p.text() && still(q)) { p = q; again = true; return true; } return false; };
        for (int i = 0; i < 3; ++i) {
            attempt([&](Plan& q) { q.rot[i] = 0; }); attempt([&](Plan& q) { q.mins[i] = 0; }); attempt([&](Plan& q) { q.fill[i] = 0; }); attempt([&](Plan& q) { q.caps[i] = 0; q.fill[i] = 0; });
            attempt([&](Plan& q) { q.rot[i] %= q.caps[i] + 1; }); attempt([&](Plan& q) { q.fill[i] %= q.caps[i] + 1; }); attempt([&](Plan& q) { q.rot[i] /= 2; }); attempt([&](Plan& q) { q.fill[i] /= 2; });
            attempt([&](Plan& q) { q.caps[i] /= 2; }); if (p.caps[i]) attempt([&](Plan& q) { --q.caps[i]; });
        }
        for (size_t s = 0; s < p.steps.size(); ++s) {
            attempt([&](Plan& q) { q.steps[s].mode = 0; q.steps[s].mask = 0; q.steps[s].count = 0; q.steps[s].sticky = 0; });
            attempt([&](Plan& q) { q.steps[s].sticky = 0; });
            if (p.steps[s].mode == M_FAULT) {
                for (int k = 0; k < F_NKINDS; ++k) if (p.steps[s].mask & fbit(k)) attempt([&](Plan& q) { q.steps[s].mask &= ~fbit(k); });
                for (int k = 1; k < p.steps[s].count; ++k) if (attempt([&](Plan& q) { q.steps[s].count = k; })) break;
            }
            for (uint32_t Step::*f : {&Step::x, &Step::y, &Step::z}) {
                uint32_t v = p.steps[s].*f; if (!v) continue;
                for (uint32_t c = 0; c < std::min<uint32_t>(v, 24); ++c) if (attempt([&](Plan& q) { q.steps[s].*f = c; })) break;
                while (p.steps[s].*f > 23 && attempt([&](Plan& q) { q.steps[s].*f /= 2; })) {}
            }
            attempt([&](Plan& q) { q.steps[s].c = q.steps[s].c % 3 ? 0 : q.steps[s].c; });
        }
    }
    std::ofstream f(out); f << p.text(); f.close();
    Outcome o = run_forked(p);
    printf("minimised to %zu steps after %d executions: %s at step %d (%s)\n", p.steps.size(), evals, o.kind.c_str(), o.step, o.detail.c_str());
    return o.viol && o.kind == base.kind ? 0 : 4;
}

int main(int ac, char** av) {
    if (!getenv("SIM_NOASLR")) { setenv("SIM_NOASLR", "1", 1); int old = personality(0xffffffff); if (old != -1 && personality((unsigned long)old | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", av); }
    std::string cmd = ac > 1 ? av[1] : "";
    if (cmd == "run" && ac == 8) return cmd_run(atoi(av[2]), strtoull(av[3], nullptr, 10), strtoull(av[4], nullptr, 10), atoi(av[5]), atof(av[6]), av[7]);
    if (cmd == "min" && ac == 5) return cmd_min(av[2], av[3], atof(av[4]));
    if (cmd == "gen" && ac == 5) { printf("%s", generate(atoi(av[2]), plan_seed(strtoull(av[3], nullptr, 10), atoi(av[2]), strtoull(av[4], nullptr, 10))).text().c_str()); return 0; }
    if (cmd == "replay" && ac >= 3) {
        Plan p; if (!load(av[2], p)) { fprintf(stderr, "bad plan\n"); return 2; }
        bool q = ac > 3; if (!q) printf("world %d: %s\n", p.world, worlds[p.world].name);
        Outcome o = run_forked(p, !q);
        if (o.viol) { printf("violates %s: %s at step %d: %s [hash %016lx]\n", prop_name(p.prop).c_str(), o.kind.c_str(), o.step, o.detail.c_str(), o.hash); return 1; }
        printf("no violation [hash %016lx]\n", o.hash); return 0;
    }
    fprintf(stderr, "usage: simrun run|replay|min|gen ...\n"); return 2;
}

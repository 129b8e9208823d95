#!/usr/bin/env python3
"""Runs one check:  check.py C08 [quick|thorough]     |  check.py setup  |  check.py replay FILE

Builds the simulator from /repo's current headers (cached by content), searches seeded plans, minimises and gates a
violation, writes evidence/<id>.json.  Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.
Any other exit: the check itself failed."""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CB_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
CXX = "g++"
BASE = ["-std=c++17", "-O1", "-g0", "-w", "-I", os.path.join(REPO, "include"), "-I", SIM]
JOBS = min(8, os.cpu_count() or 1)

DBG = ["-DBOOST_CB_ENABLE_DEBUG=1", "-DBOOST_ENABLE_ASSERT_HANDLER"]
DEBUG_ONLY_KINDS = ("assertion-on-valid-use", "misuse-not-reported", "misuse-took-effect", "uninitialized-memory-not-filled")

def release_agrees(plan):
    """Does the build without debug support violate something on the same history? Then the finding is not about debug support."""
    rel, _ = build("simrun"); out = plan + ".release"
    with open(out, "w") as f:
        for l in open(plan):
            w = l.split()
            if w[:1] == ["property"]: l = "property 0\n"
            elif w[:1] == ["world"]: l = "world %d\n" % (int(w[1]) - 40)
            elif w[:1] == ["step"] and ("misuse" in l or "keep iterators" in l): continue
            f.write(l)
    rc, o = sh([rel, "replay", out, "-q"], 120)
    return rc == 1

def worlds_file(name):
    out = []
    for l in open(os.path.join(SIM, name)):
        f = l.split("#")[0].split()
        if f: out.append(f)
    return out

def units(target):
    """(object name, source, extra flags, optional?) of one simulator binary"""
    core = [(n, n + ".cpp", [], False) for n in ("core", "plan", "main", "sched")]
    if target == "simrun":
        return core + [("w" + i, "world_tu.cpp", ["-DWID=" + i, "-DWK=" + k, "-DWSO=" + so, "-DWA=" + a], True) for i, k, so, a in worlds_file("worlds.txt")]
    if target == "simdbg":
        core = [(o, f, DBG, x) for o, f, _, x in core + [("debug_rt", "debug_rt.cpp", [], False)]]
        return core + [("w" + i, "debug_tu.cpp", ["-DWID=" + i, "-DWK=" + k, "-DWSO=" + so, "-DWA=" + a] + DBG, True) for i, k, so, a in worlds_file("worlds_debug.txt")]
    if target == "simconc":
        return core + [("tsan", "tsan_rt.cpp", [], False)] + [("w" + i, "conc_tu.cpp", ["-DWID=" + i, "-DWK=" + k, "-DWSO=" + so, "-DWA=" + a, "-fsanitize=thread", "--param=tsan-instrument-func-entry-exit=0"] + (DBG if dbg else []), True) for i, k, so, a, *dbg in worlds_file("worlds_conc.txt")]
    if target == "simbound":
        return core + [("bound", "bound_tu.cpp", ["-I", os.path.join(SIM, "stub"), "-DCB_EXAMPLE=\"%s/example/circular_buffer_bound_example.cpp\"" % REPO], True),
            ("bound_cmp", "bound_cmp_tu.cpp", ["-I", os.path.join(SIM, "stub"), "-DCB_COMPARISON=\"%s/example/bounded_buffer_comparison.cpp\"" % REPO], True)]
    raise SystemExit(2)
LINK = {"simconc": ["-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=__cxa_guard_acquire,--wrap=__cxa_guard_release,--wrap=__cxa_guard_abort", "-lpthread"], "simbound": ["-lpthread"], "simrun": ["-lpthread"], "simdbg": ["-lpthread"]}

# property -> binary, quick (runs, seconds), thorough (runs, seconds), level
Q, T = (1200000, 200), (40000000, 600)
CHECKS = {"C%02d" % p: ("simrun", Q, T, "exploration") for p in (1, 2, 3, 4, 5, 6, 7, 14, 16, 17)}
CHECKS.update({"C%02d" % p: ("simrun", Q, T, "exploration") for p in (8, 9, 10, 11, 12, 13, 20, 21)})
CHECKS["C15"] = ("simdbg", (400000, 200), (10000000, 600), "exploration")
CHECKS["C18"] = ("simconc", (60000, 200), (2000000, 600), "exploration")
CHECKS["C19"] = ("simbound", (150000, 200), (4000000, 600), "exploration")

REAL = {"simrun": ["boost/circular_buffer.hpp (circular_buffer, circular_buffer_space_optimized, iterators, details): real, uninstrumented code from /repo/include"],
        "simdbg": ["boost/circular_buffer.hpp compiled with BOOST_CB_ENABLE_DEBUG=1 (registry of iterators, assertions): real code from /repo/include"],
        "simconc": ["boost/circular_buffer.hpp: real code from /repo/include, every memory access instrumented by the compiler (-fsanitize=thread) and reported to the simulator; two worlds with BOOST_CB_ENABLE_DEBUG=1"],
        "simbound": ["example/circular_buffer_bound_example.cpp class bounded_buffer, example/bounded_buffer_comparison.cpp classes bounded_buffer and bounded_buffer_space_optimized, and boost/circular_buffer.hpp: real code from /repo"]}
STUB = {"simrun": ["allocators, element types and source iterators: simulator components with numbered fault points on an arena at a fixed address"],
        "simdbg": ["allocators, element types, source iterators: simulator components", "BOOST_ASSERT handler: simulator (records, stops the run)"],
        "simconc": ["threads: real OS threads of which the simulator lets exactly one run; the plan decides every switch", "compiler's race-detector runtime: replaced by the simulator", "allocators, elements: simulator components"],
        "simbound": ["boost::mutex / boost::condition / threads: simulator components (spurious wake-ups, choice of the woken thread)", "element types: simulator components"]}

def file_hash(target):
    h = hashlib.sha256(); h.update(target.encode())
    roots = [os.path.join(REPO, "include"), SIM] + ([os.path.join(REPO, "example")] if target == "simbound" else [])
    for r in roots:
        for d, ds, fs in sorted(os.walk(r)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f); h.update(os.path.relpath(p, r).encode() + b"\0"); h.update(open(p, "rb").read()); h.update(b"\0")
    h.update(open(os.path.abspath(__file__), "rb").read())
    h.update(subprocess.run([CXX, "--version"], capture_output=True).stdout)
    return h.hexdigest()[:16]

def build(target):
    """-> (binary, {world id: compiler message} for worlds that do not compile)"""
    root = os.path.join(HERE, "build"); os.makedirs(root, exist_ok=True)
    key = target + "-" + file_hash(target); d = os.path.join(root, key)
    with open(os.path.join(root, target + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(d, "ok.json")):
            for old in sorted((o for o in os.listdir(root) if o.startswith(target + "-")), key=lambda o: os.path.getmtime(os.path.join(root, o)))[:-2]:
                shutil.rmtree(os.path.join(root, old), ignore_errors=True)
            shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            us = units(target)
            def comp(u):
                o, src, fl, opt = u
                r = subprocess.run([CXX] + BASE + fl + ["-c", os.path.join(SIM, src), "-o", os.path.join(d, o + ".o")], capture_output=True, text=True)
                return u, r.returncode, r.stderr
            bad = {}
            with ThreadPoolExecutor(JOBS) as ex:
                for u, rc, err in ex.map(comp, us):
                    if rc:
                        if not u[3]: sys.stderr.write(err[-3000:]); print("check: the simulator core does not build"); sys.exit(2)
                        bad[u[0]] = err[-4000:]
            objs = [os.path.join(d, u[0] + ".o") for u in us if u[0] not in bad]
            if not any(u[3] and u[0] not in bad for u in us): sys.stderr.write(next(iter(bad.values()))); print("check: no world builds"); sys.exit(2)
            r = subprocess.run([CXX] + objs + LINK.get(target, []) + ["-o", os.path.join(d, target)], capture_output=True, text=True)
            if r.returncode: sys.stderr.write(r.stderr[-3000:]); print("check: link failed"); sys.exit(2)
            for o in objs: os.remove(o)
            json.dump(bad, open(os.path.join(d, "ok.json"), "w"))
    return os.path.join(d, target), json.load(open(os.path.join(d, "ok.json")))

def sh(args, timeout, env=None):
    e = dict(os.environ); e.update(env or {})
    r = subprocess.run(args, capture_output=True, text=True, timeout=timeout, env=e, errors="replace")
    return r.returncode, r.stdout + r.stderr

def replay_line(binary, plan, env=None):
    rc, out = sh([binary, "replay", plan, "-q"], 120, env)
    return rc, out.strip().splitlines()[-1] if out.strip() else ""

def known(prop):
    fn = os.path.join(HERE, "known_findings.txt"); out = []
    if os.path.exists(fn):
        for l in open(fn):
            if l.startswith("known: property=%s " % prop): out.append(l.split(" ", 2)[2].strip())
    return out

def main():
    if len(sys.argv) < 2: print(__doc__); return 2
    if sys.argv[1] == "setup":
        for t in sorted(set(c[0] for c in CHECKS.values())):
            b, bad = build(t); print(t, "built", "(worlds skipped: %s)" % ", ".join(bad) if bad else "")
        return 0
    if sys.argv[1] == "replay":
        txt = open(sys.argv[2]).read()
        if txt.startswith("compile "):
            w, t = txt.split()[1], txt.split()[2]; b, bad = build(t); print(bad.get(w, "compiles")); return 1 if w in bad else 0
        prop = "C%02d" % int([l.split()[1] for l in txt.splitlines() if l.startswith("property ")][0])
        b, _ = build(CHECKS[prop][0]); rc, out = sh([b, "replay", sys.argv[2]], 120, {l.split()[2]: "1" for l in txt.splitlines() if l.startswith("# env ")}); print(out, end=""); return rc
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    target, quick, thorough, level = CHECKS[prop]; n = int(prop[1:])
    runs, secs = thorough if tier == "thorough" else quick
    if "CB_RUNS" in os.environ: runs = int(os.environ["CB_RUNS"])
    t0 = time.time()
    binary, bad = build(target); built = time.time() - t0
    work = os.path.join(HERE, "out", "%s-%d" % (prop, os.getpid())); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    replay = os.path.join(HERE, "out", "%s-seed%d.plan" % (prop, seed))
    if os.path.exists(replay): os.remove(replay)
    verdict, notes, line = 0, [], ""
    skipped = {w: m for w, m in bad.items()}
    try:
        if prop == "C11" and skipped:
            names = {"w" + f[0]: f for f in worlds_file("worlds.txt")}
            for w in skipped:
                if names[w][3] in ("FancyAlloc", "ShmAlloc", "NilAlloc"):
                    open(replay, "w").write("compile %s %s\n%s\n%s\n" % (w, target, " ".join(names[w]), skipped[w])); verdict = 1
                    line = "does not compile with an allocator that meets the requirements: " + " ".join(names[w]); break
        st, env, envs, trouble = {}, {}, [{}, {"SIM_ISOLATE": "1"}], False
        while envs and not verdict:
            env = envs.pop(0)
            rc, out = sh([binary, "run", str(n), str(seed), str(runs if "SIM_ISOLATE" not in env else min(runs, 60000)), str(JOBS), str(secs), work], secs + 120, env)
            if rc not in (0, 1): print(out[-2000:]); print("check: the simulator failed (%d)" % rc); return 2
            st = json.load(open(os.path.join(work, "stats.json"))); trouble = False
            if rc == 0: break
            trouble = True
            fp, mp = os.path.join(work, "found.plan"), os.path.join(work, "min.plan")
            ra = replay_line(binary, fp, env)
            if ra[0] != 1: notes.append("a violation found inside a worker did not reproduce in a fresh process: " + ra[1]); continue
            mrc, mout = sh([binary, "min", fp, mp, "45"], 200, env)
            use = mp if mrc == 0 else fp
            r1, r2 = replay_line(binary, use, env), replay_line(binary, use, env)
            if r1 != r2 or r1[0] != 1:
                use = fp; r1, r2 = replay_line(binary, use, env), replay_line(binary, use, env)
            if r1 != r2 or r1[0] != 1: notes.append("violation is not repeatable: %s / %s" % (r1[1], r2[1])); continue
            line = r1[1]
            if target == "simdbg" and not any(k in line for k in DEBUG_ONLY_KINDS) and release_agrees(use):
                print("note: not about debug support, the release build violates the same history: " + line); line = ""; trouble = False
                if "SIM_DBG_ONLY" not in env: envs = [{"SIM_DBG_ONLY": "1"}, {"SIM_DBG_ONLY": "1", "SIM_ISOLATE": "1"}]
                else: break
                continue
            open(replay, "w").write("# %s  seed %d  run %s  (%s)\n# %s\n# replay: ./check.py replay <this file>\n" % (prop, seed, st.get("found"), mout.strip().splitlines()[-1] if mrc == 0 and mout.strip() else "not minimised", line) + "".join("# env %s\n" % k for k in env) + open(use).read())
            verdict = 1; break
        if not verdict and trouble: print("\n".join(notes)); print("check: no repeatable verdict"); return 2
        if not verdict and st.get("nondeterministic"): print("check: double execution of a plan differed"); return 2
        samples = []
        for i in (0, 1, 2):
            rc, out = sh([binary, "gen", str(n), str(seed), str(i)], 60); samples.append({"run": i, "plan": out[:1800]})
        wall = st.get("wall", 0) or 0.001
        fired = {k: v for k, v in st.get("faults", {}).items()}
        cov = {
            "evaluations": st.get("runs", 0), "distinct_nontrivial": st.get("distinct", 0),
            "rule": RULE[target], "samples": samples,
            "runs_per_hour": int(st.get("runs", 0) / wall * 3600), "seeds_per_hour": int(st.get("runs", 0) / wall * 3600),
            "simulated_time": {"unit": "library events (the simulator's logical clock; the code has no timers)", "events": st.get("events", 0), "operations": st.get("steps", 0), "thread_switches": st.get("switches", 0)},
            "fault_kinds_fired": fired, "operations_with_a_failure": st.get("faulty_steps", 0), "fault_free_runs": st.get("fault_free_runs", 0),
            "operations": {k: {"executed": v[0], "with_failure": v[1]} for k, v in st.get("ops", {}).items() if v[0]},
            "rare_conditions": st.get("probes", {}), "worlds": st.get("worlds", []), "worlds_not_compiling": sorted(skipped),
            "executed_twice_and_compared": st.get("double_runs", 0), "aborted_runs": st.get("aborted", 0), "violations_of_other_properties_ignored": st.get("foreign", 0),
            "real_components": REAL[target], "stub_components": STUB[target], "search_wall_s": wall, "build_wall_s": round(built, 2), "workers": JOBS}
        if line: cov["violation"] = line
        ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
              "assumptions": ["seeded sampling, not enumeration: a clean run is evidence for the explored plans only", "g++ -std=c++17 -O1 build of the headers; other compilers and standards are not simulated"],
              "wall_s": round(time.time() - t0, 2), "violations": verdict}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
        for k in known(prop): print("KNOWN-FINDING: property=%s %s" % (prop, k))
        for w in skipped: print("note: world %s does not compile and was left out" % w)
        print("%s %s seed=%d: %d runs, %d operations, %d distinct execution points, %d faults fired, %.1fs" % (prop, tier, seed, cov["evaluations"], st.get("steps", 0), cov["distinct_nontrivial"], sum(fired.values()), ev["wall_s"]))
        if verdict:
            print(line); print("VIOLATION property=%s replay=%s" % (prop, replay))
        return verdict
    finally:
        shutil.rmtree(work, ignore_errors=True)

RULE = {
    "simrun": "A run is a seeded plan (world, capacities, layout, list of operations with arguments, fault schedule) executed against the real container and the reference model. Distinct = different execution point of an operation: (container type x element kind x allocator, operation, capacity, size and wrap position before, which call failed and at which eligible event, outcome, wrap position and size after). Every point contains an executed operation and a full comparison, so none is trivial.",
    "simdbg": "A run is a seeded plan on the debug build: a valid history (no assertion may fire), optionally ended by one misuse (an assertion must fire first). Distinct = different (world, operation or misuse, capacity, size, wrap position, failing call) points.",
    "simconc": "A run is a seeded plan: programs for 2-3 threads plus the scheduler's decisions, executed alone and then interleaved at single memory accesses. Distinct = different interleavings, counted as the hash of the sequence of (thread, position in its execution) at every switch, plus the execution points of the operations.",
    "simbound": "A run is a seeded plan: producers, consumers, capacity, scheduler decisions, spurious wake-ups and failing item copies on the real bounded_buffer. Distinct = different interleavings, counted as the hash of the sequence of (thread, position) at every switch."}

if __name__ == "__main__":
    try: sys.exit(main())
    except subprocess.TimeoutExpired as e: print("check: timeout", e); sys.exit(2)

#!/usr/bin/env python3
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "simrun": ("deterministic simulation with fault injection: seeded plans (operations, layouts, failing calls) against a reference model",
            "Seeded search, not enumeration. Real container code on a simulated allocator/arena, element types and caller's iterators with numbered fault points; every step is judged against an independent sequence model. Trusts the model, the simulator and g++."),
 "simdbg": ("deterministic simulation with fault injection on the debug build: seeded valid histories with iterators of any lifetime, ended by one misuse",
            "Seeded search. Real debug-mode code; the assertion handler is the simulator's. Misuse kinds are the listed ones."),
 "simconc": ("deterministic simulation: seeded thread scheduler preempting at every memory access, results compared with solo runs, race detection",
            "Seeded search over interleavings under sequential consistency; 2-3 threads. Every memory access of the real code is instrumented by the compiler and seen by the simulator."),
 "simbound": ("deterministic simulation: seeded thread scheduler, spurious wake-ups and failing item copies under the real example bounded buffer",
            "Seeded search over schedules at lock and wait granularity; threads, mutex and conditions are simulated, buffer code is real."),
}
import sys; sys.path.insert(0, H)
import check
checks = []
for p in sorted(check.CHECKS):
    t = check.CHECKS[p][0]
    checks.append({"property": p, "quick_cmd": "./check.py %s quick" % p, "thorough_cmd": "./check.py %s thorough" % p, "evidence_file": "evidence/%s.json" % p,
                   "technique": T[t][0], "level": "exploration", "level_note": T[t][1]})
NA = {"C22": "noexcept-ness, const-correctness and which element types compile are decided when compiling; there is no execution, schedule or fault for a simulator to drive"}
m = {"version": 1, "setup_cmd": "./check.py setup", "checks": checks,
     "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items()) if p not in check.CHECKS],
     "notes": "No hooks in /repo: allocators, element types, source iterators and BOOST_ASSERT are existing seams; memory accesses are observed through compiler instrumentation. Commits in /repo are repairs only (known_findings.txt)."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)

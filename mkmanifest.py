#!/usr/bin/env python3
"""Writes MANIFEST.json from the property list and the harness flags."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
NA = {}
NOTE = {
    "ops": "Bounded model checking of the compiler's SSA of the real packages: every value, operation history and configuration within the stated bounds. Real arithmetic stands for float64 unless the harness says IEEE; the third-party ring buffer is replaced by a sequential model of its documented behaviour in harnesses flagged ring=fifo and executed for real in the ...Real harnesses. Trusted: go/ssa, the interpreter in gosym, z3.",
    "stat": "Bounded model checking of the compiler's SSA; histories of any length are covered through closure of the reachable states up to isomorphism, with the number of stored values bounded. Trusted: go/ssa, the interpreter in gosym, z3.",
    "conc": "Bounded model checking of the compiler's SSA with symbolic inputs and every schedule up to the stated number of preemptions; the race detector is a happens-before analysis of each explored schedule. Trusted: go/ssa, the interpreter and its model of sync, z3.",
}
KIND = {**{f"P{i:02d}": "stat" for i in (8, 9, 10, 11, 12, 13, 14, 15)}, **{f"P{i:02d}": "conc" for i in (21, 22, 23, 30)}}
checks = []
done = set(open(os.path.join(here, "claimed.txt")).read().split())
for line in open(os.path.join(here, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if pid in NA:
        continue
    if pid not in done:
        NA[pid] = "check under construction"
        continue
    checks.append({
        "property": pid,
        "quick_cmd": f"./check.sh {pid}",
        "thorough_cmd": f"./check.sh {pid} thorough",
        "technique": "symbolic execution of the compiled packages (go/ssa) with z3 deciding every branch and assertion; counterexamples replayed natively",
        "level": "model_checking",
        "level_note": NOTE[KIND.get(pid, "ops")],
    })
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())]}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)

#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = open(os.path.join(V, "tools", "claimed.txt")).read().split()
NA = {
 "N01": "Pure functions of their input: no schedule, clock, I/O, fault or interleaving for a simulator to decide.",
 "N02": "Pure function of a callback's type and the argument bytes: no schedule, clock, I/O, fault or interleaving for a simulator to decide.",
}
NOTE = ("Seeded search over simulated executions of the real code (schedules, delays, network faults, client behaviour) with run-time "
        "invariants and history oracles: no violation in what was explored, not a proof. Trusts the simulator (scheduler, clock, network), "
        "the protocol stubs written for the remote peers, and the instrumentation's statement-level preemption granularity.")
RACE = NOTE + " Conflicting accesses are recognised by the Go race detector (happens-before) on the simulated schedules."
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
na = []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i}", "thorough_cmd": f"bash check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": "deterministic simulation with fault injection" + (" (race detector as oracle)" if i == "C13" else ""),
            "level": "exploration", "level_note": RACE if i == "C13" else NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "Not claimed yet: its scenario is still being built.")})
m = {"version": 1, "setup_cmd": "bash build.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: prep/ builds an instrumented copy of /repo's working tree and an overlay of the Go runtime and net packages outside /repo, so the shipped code is unchanged. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")

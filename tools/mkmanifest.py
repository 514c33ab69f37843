#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = open(os.path.join(here, "tools", "claimed.txt")).read().split()
NA = {
 "N01": "Pure, single-threaded function of its call sequence: no concurrency, clock, I/O, randomness or fault can influence it, so there is no schedule or fault for a simulator to decide. (What concurrent readers rely on is claimed in X01.)",
 "N02": "Pure, single-threaded function of its call sequence; nothing nondeterministic for a simulator to control. (Concurrent reads are claimed in X01.)",
 "N03": "Pure, single-threaded linked structures; nothing nondeterministic for a simulator to control. (Concurrent reads are claimed in X01.)",
 "N04": "Pure functions of their arguments; no schedule, time, I/O or fault involved. (Concurrent callers and aliasing are claimed in X01.)",
 "N05": "Pure functions of their arguments; no schedule, time, I/O or fault involved. (Concurrent callers are claimed in X01.)",
 "N06": "Pure functions of their arguments that delegate to the standard library; no schedule, time, I/O or fault involved. (Concurrent callers are claimed in X01.)",
}
NOTE = ("Seeded exploration, not proof: every run executes the real package code compiled from /repo under a controlled scheduler, clock, "
        "random source{disk}; absence of a violation is evidence only for the runs made. Trusts the simulator patch of the Go runtime, "
        "the oracle and, for unsynchronised accesses, the Go race detector run on the same kind of schedules.")
DISK = {"F01", "F02", "F03", "F04"}
checks = []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if i in CLAIMED:
        checks.append({
            "property": i, "quick_cmd": "./check " + i, "thorough_cmd": "VERIF_TIER=thorough ./check " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "deterministic simulation with fault injection (seeded schedule and fault search against an executable model)",
            "level": "exploration",
            "level_note": NOTE.format(disk=", in-memory disk and crash injector" if i in DISK else ""),
        })
    elif i not in NA:
        NA[i] = "Check under construction."
m = {"version": 1, "setup_cmd": "./check build", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
     "notes": "No hooks in /repo: the simulator is inserted with go build -overlay (patched copies of GOROOT/src/runtime, time and syscall files, and statement-level scheduling points generated from /repo's current sources). See DESIGN.md."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")

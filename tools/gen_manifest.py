#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "N01": "timing of one comparison: no schedule, fault or input of a simulation makes it observable, simulated time does not advance inside a library call and real timing is not under the simulator's control",
 "N02": "a computational-hardness claim quantifying over all efficient attackers: a simulated attacker that fails shows nothing about others (what a concrete attacker can do with recorded sessions is part of A02, A05, A06, A11, S02 and R02)",
}
NOT_READY = set(sys.argv[1].split(",")) if len(sys.argv) > 1 else set()
COMMON = "Seeded search: a clean batch is evidence for the executions explored, not a proof. Trusted: the simulator, its independent reference formulas, the wire codecs and the primitive crates. "
NOTE = {
 "A": "Real aucpace client and server code runs unmodified; network, timers, credential store, random source and (in most sessions) the password hasher are simulated.",
 "S": "Real spake2 code runs unmodified; network, timers and the random source (including the operating system's, for the entry points that use it) are simulated.",
 "R": "Real srp client and server code runs unmodified; network, timers, stored session state and ephemeral secrets are simulated.",
 "X": "Real aucpace, spake2 and srp code runs unmodified in one process; network, timers, stores and random sources are simulated.",
}
X03 = "Real aucpace, spake2 and srp code runs unmodified in differently configured builds of one simulated deployment (featsim/); network, timers, process lifetimes, stores, random sources and the password hasher are simulated."
checks, na = [], []
for l in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in NA:
        na.append({"property": p, "reason": NA[p]})
    elif p in NOT_READY:
        na.append({"property": p, "reason": "check under construction"})
    else:
        checks.append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
            "technique": "deterministic simulation with fault injection (seeded schedules, faults and attacker actions; invariants and reference-model checks over the history)",
            "level": "exploration", "level_note": COMMON + (X03 if p == "X03" else NOTE[p[0]])})
m = {"version": 1, "setup_cmd": "./build.sh",
     "hooks": {"guard": "none", "enable": "no hooks: every seam the simulation needs exists in the code already", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Replay a violation with: sim/target/release/pakesim replay replays/<file>.json (prints the minimised schedule and fault trace); for X03: python3 tools/x03.py replay FILE. Known findings are listed in known-findings.txt."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")

#!/usr/bin/env python3
"""Writes MANIFEST.json from propdefs.PROPS, properties.jsonl and the reasons below."""
import json, os, sys, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import propdefs as D
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NA = {
    "J01": "Pure function of its input: text parsing and printing has no concurrency, time, I/O or multi-party behaviour for a simulator to control; only input sampling would remain, which is not this technique.",
    "K01": "Pure integer and bit functions with no scheduling, time, I/O or fault dimension; what they cause inside the tree is covered through T01/T02/T05.",
    "P01": "Command-line parsing is a sequential pure function of argv; nothing for deterministic simulation to vary.",
}
TODO = "No simulation harness decides it yet in this version of the framework."
note = ("Seeded exploration: every simulated run on the current tree satisfied the property; it is a sample of schedules and faults, not a proof. "
        "Trusts the simulator (sequentially consistent interleavings at every instrumented access), its oracle, and gcc's instrumentation.")
checks = []
for p in props:
    if p["id"] in D.PROPS:
        q = D.PROPS[p["id"]]
        checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"], thorough_cmd="VERIF_TIER=thorough python3 check.py %s thorough" % p["id"],
                           evidence_file="evidence/%s.json" % p["id"],
                           technique=q.get("technique", "deterministic simulation: seeded schedules of the real code over simulated threads, history checked against a reference model"),
                           level="exploration", level_note=q.get("note", note)))
m = dict(version=1, setup_cmd="python3 build.py " + " ".join(sorted({r["target"] for q in D.PROPS.values() for r in q["runs"]})),
         hooks=dict(guard="MASSTREE_SIM", enable="build.py compiles the sources from the working tree with -DMASSTREE_SIM=1 (and -fsanitize=thread callbacks into the simulator)",
                    source_commits=[subprocess.run(["git", "-C", "/repo", "log", "--format=%h", "--grep=^Add MASSTREE_SIM"], stdout=subprocess.PIPE, text=True).stdout.split()[-1]]),
         checks=checks,
         not_applicable=[dict(property=p["id"], reason=NA.get(p["id"], TODO)) for p in props if p["id"] not in D.PROPS],
         notes="Replay a violation with: python3 replay.py replays/<file>. VERIF_SECONDS and VERIF_JOBS override the search time and the number of processes.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")

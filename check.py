#!/usr/bin/env python3
"""check.py PROPERTY: decides one property by seeded simulation of the code in the repository's working tree.

Builds the harness from the working tree, runs one search process per core over disjoint seeds, confirms any
violation by replaying its file in a fresh process, and writes evidence/<PROPERTY>.json.
Exit 0: held on everything explored; 1: violation (line on stdout); 2: the check itself failed.
"""
import json, os, subprocess, sys, time, shutil, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B
import propdefs as D

def known_entries(prop):
    """committed known findings of this property: [(class, substring, text)]"""
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                rest = l.split(" ", 2)[2]
                ident, text = rest.split(" :: ", 1)
                cls, sub = ident.split("|", 1)
                out.append((cls, sub, text))
    return out

def fail(msg):
    print("ERROR: " + msg)
    sys.exit(2)

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in sys.argv[2:]:
        if a in ("quick", "thorough"): tier = a
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = D.PROPS[prop]
    t0 = time.time()
    try:
        exes = B.build(sorted({r["target"] for r in P["runs"]}))
    except SystemExit as e:
        fail(str(e))
    build_s = time.time() - t0
    known = known_entries(prop)
    work = os.path.join(B.BUILD, "work.%s.%d" % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    kfile = os.path.join(work, "known")
    with open(kfile, "w") as f:
        for c, s, _ in known: f.write("%s|%s\n" % (c, s))
    ncpu = int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 8
    # distribute the runs over the cores
    total = float(os.environ.get("VERIF_SECONDS", 0)) or P.get(tier + "_s", 45 if tier == "quick" else 700)
    results = []
    violation = err = None
    wsum = sum(r.get("weight", 1) for r in P["runs"])
    for r in P["runs"]:
        secs = total * r.get("weight", 1) / wsum
        procs = []
        for i in range(ncpu):
            out = os.path.join(work, "%s.%s.%d.replay" % (r["target"], r["profile"], i))
            cmd = [exes[r["target"]], "search", "--profile=" + r["profile"], "--seed=%d" % seed, "--stride=%d" % ncpu, "--offset=%d" % i,
                   "--seconds=%.2f" % secs, "--minimise=%d" % (25 if tier == "quick" else 90), "--out=" + out, "--known=" + kfile]
            procs.append((subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                                           start_new_session=True), r, secs, out))
        deadline = time.time() + secs + 200
        pending = list(procs)
        stopping = False
        while pending:
            for x in list(pending):
                if x[0].poll() is not None:
                    pending.remove(x)
                    txt = x[0].stdout.read()
                    js = None
                    for l in reversed(txt.splitlines()):
                        if l.startswith("{"):
                            try: js = json.loads(l); break
                            except ValueError: pass
                    if js is None:
                        if not stopping and not err: err = "search process %s ended with status %s: %s" % (x[3], x[0].returncode, txt[-1500:])
                        continue
                    results.append((x[1], js))
                    if js.get("error") and not err: err = js["error"]
                    if js.get("violation") and not violation: violation = (x[1], js)
            if (violation or err) and not stopping:
                stopping = True
                for x in pending:
                    try: os.killpg(x[0].pid, signal.SIGKILL)
                    except OSError: pass
            if time.time() > deadline and not stopping:
                err = "search processes did not finish in time"; stopping = True
                for x in pending:
                    try: os.killpg(x[0].pid, signal.SIGKILL)
                    except OSError: pass
            time.sleep(0.05)
        if violation or err: break
    rc = 0
    replay_path = None
    if violation:
        r, js = violation
        rdir = os.path.join(HERE, "replays")
        os.makedirs(rdir, exist_ok=True)
        replay_path = os.path.join(rdir, "%s.%s.replay" % (prop, r["target"]))
        shutil.copyfile(js["violation"], replay_path)
        again = subprocess.run([exes[r["target"]], "replay", replay_path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        print(again.stdout.strip()[:1500])
        if again.returncode != 1:
            err = "the replay file %s did not reproduce the violation (status %d)" % (replay_path, again.returncode)
        else:
            print("class: %s" % js["cls"]); print("what: %s" % js["msg"])
            print("replay with: %s replay.py %s" % (sys.executable or "python3", replay_path))
            print("VIOLATION property=%s replay=%s" % (prop, replay_path))
            rc = 1
            err = None
    if err: rc = 2
    # ---------------------------------------------------------------- evidence
    tot = {}
    counters, known_hits, samples, per = {}, {}, [], []
    for r, js in results:
        for k, v in js.items():
            if isinstance(v, (int, float)): tot[k] = tot.get(k, 0) + v
        for k, v in js["counters"].items(): counters[k] = counters.get(k, 0) + v
        for k, v in js["known"].items(): known_hits[k] = known_hits.get(k, 0) + v
        for s in js["samples"]:
            if len(samples) < 4 and sum(1 for x in samples if x["harness"] == r["target"]) < 2: samples.append({"harness": r["target"], "profile": r["profile"], "case": s})
    for r in P["runs"]:
        rs = [js for q, js in results if q is r]
        if rs: per.append({"harness": r["target"], "profile": r["profile"], "runs": sum(j["runs"] for j in rs),
                           "distinct_interleavings": sum(j["distinct_interleavings"] for j in rs), "steps": sum(j["steps"] for j in rs)})
    wall = time.time() - t0
    search_s = max(1e-9, sum(j["wall_s"] for _, j in results) / max(1, ncpu))
    faults = {k[6:]: v for k, v in counters.items() if k.startswith("fault.")}
    faults["thread_suspended_mid_operation"] = int(tot.get("parks", 0))
    faults["preemption_inside_an_operation"] = int(tot.get("preemptions", 0))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2),
        "violations": 1 if rc == 1 else 0,
        "assumptions": P["assumptions"],
        "coverage": {
            "evaluations": int(tot.get("runs", 0)),
            "distinct_nontrivial": int(tot.get("distinct_nontrivial", 0)),
            "rule": P["rule"],
            "samples": samples,
            "simulated_runs_per_hour": int(tot.get("runs", 0) / search_s * 3600),
            "seeds_per_hour": int(tot.get("runs", 0) / search_s * 3600),
            "search_seconds": round(search_s, 2), "build_seconds": round(build_s, 2), "cores": ncpu,
            "simulated_seconds_covered": round(tot.get("simtime_s", 0), 6),
            "scheduler_steps": int(tot.get("steps", 0)),
            "operations": int(tot.get("ops", 0)),
            "context_switches": int(tot.get("switches", 0)),
            "distinct_interleavings": int(tot.get("distinct_interleavings", 0)),
            "interleaving_measure": "hash over the sequence of (thread switched to, program location of the switch) of a run, counted per search process",
            "faults_injected": faults,
            "server_boots": int(tot.get("boots", 0)),
            "counters": {k: v for k, v in sorted(counters.items()) if not k.startswith("fault.")},
            "determinism_rechecks": int(tot.get("determinism_rechecks", 0)),
            "known_finding_hits": known_hits,
            "per_harness": per,
            "real_components": P["real"], "stub_components": P["stub"],
        },
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    shutil.rmtree(work, ignore_errors=True)
    for c, s, text in known: print("KNOWN-FINDING: property=%s %s" % (prop, text))
    print("%s %s: %d runs, %d distinct non-trivial, %d steps, %.0f s" % (prop, tier, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["coverage"]["scheduler_steps"], wall))
    if rc == 2: print("ERROR: " + str(err))
    sys.exit(rc)

if __name__ == "__main__": main()

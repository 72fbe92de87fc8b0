"""Run a check: explore, minimise, write the replay file and the evidence."""

import hashlib
import json
import os
import re
import subprocess
import sys
import time
from collections import Counter

from .. import boot
from . import runner

VERIF = os.path.realpath(os.path.join(os.path.dirname(__file__), "..", ".."))


def known_findings():
    """Lines `known: property=<id> kind=<regex> <what fails>`."""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) kind=/(.*?)/ (.*)", line)
            if m:
                out.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return out


def run_check(prop, world, tier, seed, workers, budget=None, scale=None):
    t0 = time.time()
    counts = world.counts(tier) if scale is None else {
        c: max(1, int(n * scale)) for c, n in world.counts(tier).items()}
    total = sum(counts.values())
    jobs = []
    pos = {c: 0 for c in counts}
    # Interleave configurations, so an early stop has covered all of them.
    for step in range(total):
        c = min((c for c in counts if pos[c] < counts[c]), key=lambda c: (pos[c] + 1) / counts[c])
        jobs.append((c, pos[c]))
        pos[c] += 1
    wall = budget or (240 if tier == "quick" else 3000)
    known = [k for k in known_findings() if k[0] == prop]
    agg = dict(runs=0, configs=Counter(), fired=Counter(), set=Counter(), probes=Counter(),
               ops=Counter(), sim=0.0, restarts=0, nontrivial=set(), states=set(), hashes=set(),
               events=0, harness=[], known=Counter(), samples=[], rss=0)

    def is_new(res):
        return not any(k[1].search(res["kind"]) for k in known)

    def on_result(no, job, res):
        agg["runs"] += 1
        agg["configs"][job[0]] += 1
        if res["status"] == "harness":
            agg["harness"].append((job, res["detail"]))
        c = res.get("carry")
        if c:
            agg["fired"].update(c["faults_fired"])
            agg["set"].update(c["faults_set"])
            agg["probes"].update(c["probes"])
            agg["ops"].update(c["ops"])
            agg["sim"] += c["sim_time"]
            agg["restarts"] += c["restarts"]
            agg["states"] |= c["states"]
            agg["events"] += res.get("events", 0)
            agg["hashes"].add(res["log_hash"])
            agg["rss"] = max(agg["rss"], res.get("rss", 0))
            if c["nontrivial"]:
                agg["nontrivial"].add(res["log_hash"])
                if len(agg["samples"]) < 3 and c["log"]:
                    agg["samples"].append(dict(config=job[0], index=job[1], log_hash=res["log_hash"],
                                               events=[e[:300] for e in c["log"][:40]]))
        if res.get("known"):
            for k in known:
                if k[1].search(res["kind"]):
                    agg["known"][k[2]] += 1

    print(f"swsim: property={prop} tier={tier} seed={seed} runs={total} workers={workers} repo={boot.REPO}", flush=True)
    results = runner.run_many(world, prop, jobs, seed, workers, wall, on_result, want=is_new)
    found = sorted(no for no, r in results.items() if r["status"] == "violation" and not r.get("known"))
    code, replay, kind = 0, None, None
    if found:
        no = found[0]
        res = results[no]
        case = runner.make_case(world, prop, jobs[no][0], seed, jobs[no][1])
        kind = res["kind"]
        print(f"swsim: {kind}\n{res['detail']}\nfound by seed {seed}, {jobs[no][0]}/{jobs[no][1]}; minimising ...", flush=True)
        small, tries = runner.minimise(world, case, kind)
        replay = write_replay(world, small, kind)
        if not confirm(replay):
            replay = write_replay(world, case, kind, suffix="-full")
            if not confirm(replay):
                agg["harness"].append((jobs[no], "violation does not replay in a fresh process: " + kind))
                replay = None
        if replay:
            code = 1
    for text, n in agg["known"].items():
        print(f"KNOWN-FINDING: property={prop} {text}")
    for k in known:
        if k[2] not in agg["known"]:
            print(f"KNOWN-FINDING: property={prop} {k[2]} (not met in this run)")
    wall_s = time.time() - t0
    evidence(prop, world, tier, seed, agg, counts, wall_s, 1 if replay else 0, workers)
    if agg["harness"] and code == 0:
        for job, detail in agg["harness"][:3]:
            print(f"HARNESS-ERROR {job}: {detail}")
        code = 2
    print(f"swsim: {agg['runs']} runs, {len(agg['nontrivial'])} distinct non-trivial, "
          f"{sum(agg['fired'].values())} faults fired, {agg['restarts']} restarts, "
          f"{len(agg['states'])} states, {wall_s:.1f} s")
    print("swsim: probes " + json.dumps(dict(sorted(agg["probes"].items()))))
    print("swsim: faults " + json.dumps({k: f"{agg['fired'].get(k, 0)}/{n}" for k, n in sorted(agg["set"].items())}))
    if agg["runs"] < min(total, 1) or (not found and agg["runs"] == 0):
        code = code or 2
    if code == 1:
        print(f"VIOLATION property={prop} replay={replay}")
    return code


def write_replay(world, case, kind, suffix=""):
    scratch = os.path.join(boot.scratch_root(), "rep")
    res = runner.run_case(world, case, scratch)
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    tag = hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:8]
    path = os.path.join(d, f"{case['property']}-{case['config']}-{case['seed']}-{case['index']}-{tag}{suffix}.json")
    with open(path, "w") as f:
        json.dump(dict(case, violation=dict(kind=res.get("kind"), detail=res.get("detail")),
                       log_hash=runner.log_hash(res), log=res["carry"]["log"]), f, indent=1)
    return path


def confirm(path):
    p = subprocess.run([sys.executable, "-W", "ignore", "-m", "swsim", "replay", path],
                       capture_output=True, text=True, timeout=600)
    return p.returncode == 1


def replay(path, world_of):
    """Re-execute a replay file: 1 reproduced, 0 holds now, 2 differs."""
    d = json.load(open(path))
    world = world_of(d["property"])
    res = runner.run_case(world, d, os.path.join(boot.scratch_root(), "w99"))
    print("\n".join(res["carry"]["log"]) if res.get("carry") else "")
    if res["status"] == "harness":
        print("HARNESS-ERROR", res["detail"])
        return 2
    if res["status"] != "violation":
        print("swsim: no violation: the property holds on this execution now")
        return 0
    print(f"swsim: {res['kind']}\n{res['detail']}")
    same = runner.log_hash(res) == d["log_hash"] and res["kind"] == d["violation"]["kind"]
    print(f"swsim: {'exactly the recorded execution' if same else 'a violation, but not the recorded execution'}")
    print(f"VIOLATION property={d['property']} replay={path}")
    return 1 if same else 3


def evidence(prop, world, tier, seed, agg, counts, wall_s, violations, workers):
    path = os.path.join(VERIF, "evidence", f"{prop}.json")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    cov = dict(
        evaluations=agg["runs"], distinct_nontrivial=len(agg["nontrivial"]),
        rule=world.rule, samples=agg["samples"],
        runs_per_config=dict(agg["configs"]), planned_runs=sum(counts.values()),
        runs_per_hour=int(agg["runs"] / max(wall_s, 1e-9) * 3600), workers=workers,
        simulated_seconds=round(agg["sim"], 3), events=agg["events"],
        distinct_event_logs=len(agg["hashes"]), distinct_states=len(agg["states"]),
        state_measure=world.state_measure, operations=dict(sorted(agg["ops"].items())),
        faults_fired=dict(sorted(agg["fired"].items())), faults_planned=dict(sorted(agg["set"].items())),
        probes=dict(sorted(agg["probes"].items())), restarts=agg["restarts"],
        max_rss_kb=agg["rss"],
        real_code=world.real, stubbed=world.stub, known_findings_met=dict(agg["known"]))
    with open(path, "w") as f:
        json.dump(dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov,
                       wall_s=round(wall_s, 3), violations=violations,
                       assumptions=world.assumptions), f, indent=1)

"""Prove determinism: the same seeds give the same event logs, in separate
processes, at different worker counts and under another PYTHONHASHSEED."""

import os
import subprocess
import sys

from . import registry
from .core import runner


def hashes(prop, runs, seed, workers):
    world = registry.world(prop)
    counts = world.counts("quick")
    jobs = [(c, i) for c in counts for i in range(min(runs, counts[c]))]
    res = runner.run_many(world, prop, jobs, seed, workers, keep_going=True)
    for no, job in enumerate(jobs):
        r = res[no]
        print(job[0], job[1], r["status"], r.get("log_hash"))
    return 0


def main(props, runs):
    bad = 0
    for prop in props:
        outs = {}
        for seed in (1, 2, 3):
            for tag, workers, hs in (("a", 8, "0"), ("b", 3, "0"), ("c", 5, "12345")):
                env = dict(os.environ, PYTHONHASHSEED=hs)
                p = subprocess.run([sys.executable, "-W", "ignore", "-m", "swsim", "hashes", prop,
                                    "--runs", str(runs), "--seed", str(seed), "--workers", str(workers)],
                                   capture_output=True, text=True, env=env)
                outs[seed, tag] = p.stdout
                if p.returncode or not p.stdout:
                    print(prop, seed, tag, "FAILED", p.stderr[-2000:])
                    bad += 1
            a = outs[seed, "a"].splitlines()
            for tag in "bc":
                b = outs[seed, tag].splitlines()
                diff = [(x, y) for x, y in zip(a, b) if x != y]
                if diff or len(a) != len(b):
                    bad += 1
                    print(prop, seed, tag, "DIVERGES", len(diff), "of", len(a), diff[:3])
            print(f"{prop} seed {seed}: {len(a)} runs x 3", flush=True)
    print("determinism:", "FAILED" if bad else "ok")
    return 2 if bad else 0

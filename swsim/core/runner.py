"""Execute cases: fork one process per incarnation, collect, minimise, report.

A *case* is {"property", "config", "index", "seed", "plan"}; the plan is plain
JSON and fixes every operation, tuning knob, fault and user action beforehand.
Execution is a pure function of the plan and the code under test.
"""

import gc
import hashlib
import json
import mmap
import os
import pickle
import resource
import select
import shutil
import signal
import struct
import sys
import time
import traceback
from collections import Counter

from .. import boot
from . import fs as fsmod
from . import randseam
from .ctx import Ctx, HarnessError, SimViolation, case_rng, in_library, short_tb, where

CPU_LIMIT = 40          # seconds of CPU time per incarnation: no progress
WALL_LIMIT = 240        # seconds of wall time per incarnation: harness error


class World:
    """Base class: a world knows how to generate and execute plans."""
    configs = ("plain",)
    uses_fs = False

    def generate(self, rng, config):
        raise NotImplementedError

    def start(self, plan):
        """Model state (picklable), before the first incarnation."""
        return {}

    def execute(self, ctx, plan, model, fs):
        """Run operations from model["i"] on; return "end" or "restart"."""
        raise NotImplementedError

    def shrink(self, plan):
        """World-specific simpler variants of a plan (after ddmin)."""
        return ()

    LISTS = ("ops",)     # lists in the plan which ddmin may shorten


# -- one incarnation -------------------------------------------------------

def _incarnate(world, plan, model, carry, scratch, wfd):
    """Child process: run until end, restart, crash or violation."""
    gc.disable()        # cyclic garbage (and the files it closes) at no arbitrary time
    ctx = Ctx(scratch, carry)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("SWSIM_DEBUG"):
        os.dup2(devnull, 2)
    out = os.fdopen(wfd, "wb", closefd=True)

    def finish(status, **extra):
        fsmod.FS = None
        blob = pickle.dumps(dict(status=status, model=model, carry=ctx.carry(),
                                 rss=resource.getrusage(resource.RUSAGE_SELF).ru_maxrss, **extra))
        out.write(struct.pack(">Q", len(blob)) + blob)
        out.flush()
        os._exit(0)

    def die(kind):
        ctx.ev("died", kind)
        finish("died")

    def stuck(signum, frame):
        spot = "?"
        f = frame
        while f is not None:
            if f.f_code.co_filename.startswith(boot.PKG):
                spot = f"{os.path.basename(f.f_code.co_filename)}:{f.f_code.co_name}"
                break
            f = f.f_back
        finish("violation", kind="no-progress", detail=f"more than {CPU_LIMIT} s of CPU time in {spot}")
    signal.signal(signal.SIGPROF, stuck)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    try:
        sim = None
        os.chdir(scratch)
        if world.uses_fs:
            sim = fsmod.SimFS(scratch, ctx, die)
            fsmod.activate(sim)
        end = world.execute(ctx, plan, model, sim)
        finish(end or "end")
    except SimViolation as v:
        finish("violation", kind=v.kind, detail=v.detail)
    except HarnessError as e:
        finish("harness", detail=repr(e) + "\n" + traceback.format_exc())
    except BaseException as e:
        if in_library(e.__traceback__) and not isinstance(e, (KeyboardInterrupt, SystemExit)):
            finish("violation", kind=f"escaped {type(e).__name__}", detail=where(e) + "\n" + short_tb(e))
        finish("harness", detail=traceback.format_exc())


def run_case(world, case, scratch):
    """Run one case to its end; returns a result dict."""
    plan = case["plan"]
    model = world.start(plan)
    model.setdefault("i", 0)
    carry = None
    if os.path.isdir(scratch):
        shutil.rmtree(scratch)
    os.makedirs(scratch)
    t0 = time.time()
    incarnations = 0
    try:
        while True:
            incarnations += 1
            if incarnations > 400:
                return dict(status="harness", detail="too many incarnations", carry=carry)
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    _incarnate(world, plan, model, carry, scratch, w)
                finally:
                    os._exit(3)
            os.close(w)
            res = _receive(r, pid)
            if res is None:
                return dict(status="harness", carry=carry, wall=time.time() - t0,
                            detail=f"run process of {case['property']}/{case['config']}/{case['index']} "
                                   "ended without a result (killed, out of memory or wall limit)")
            model, carry = res["model"], res["carry"]
            if res["status"] in ("died", "restart"):
                carry["restarts"] += 1
                continue
            res["incarnations"] = incarnations
            res["wall"] = time.time() - t0
            return res
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _receive(r, pid):
    buf = b""
    deadline = time.time() + WALL_LIMIT
    try:
        while True:
            left = deadline - time.time()
            if left <= 0:
                os.kill(pid, signal.SIGKILL)
                break
            ready, _, _ = select.select([r], [], [], left)
            if not ready:
                continue
            chunk = os.read(r, 1 << 20)
            if not chunk:
                break
            buf += chunk
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    if len(buf) < 8 or len(buf) < 8 + struct.unpack(">Q", buf[:8])[0]:
        return None
    return pickle.loads(buf[8:])


def log_hash(res):
    return hashlib.sha256("\n".join(res["carry"]["log"]).encode()).hexdigest()


def make_case(world, prop, config, seed, index):
    rng = case_rng(seed, prop, config, index)

    def late(signum, frame):
        raise HarnessError(f"generating {prop}/{config}/{index} does not end")
    old = signal.signal(signal.SIGALRM, late)
    signal.alarm(60)
    try:
        plan = world.generate(rng, config)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    plan = json.loads(json.dumps(plan))
    return dict(property=prop, config=config, index=index, seed=seed, plan=plan)


# -- pool ------------------------------------------------------------------

def run_many(world, prop, jobs, seed, workers=8, stop_wall=None, on_result=None,
             keep_going=False, want=None):
    """Run `jobs` [(config, index), ...] striped over forked workers.

    Calls on_result(job_no, job, result) in arrival order.  After a violation
    only jobs before it are still run, so the violation with the lowest job
    number is the one reported.
    """
    gc.collect()
    gc.freeze()
    stop = mmap.mmap(-1, 8)
    stop[:8] = struct.pack(">q", len(jobs))
    t0 = time.time()
    pipes, pids = {}, []
    for k in range(workers):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                for rr in pipes:
                    os.close(rr)
                os.close(r)
                scratch = os.path.join(boot.scratch_root(), f"w{k:02d}")
                for no in range(k, len(jobs), workers):
                    if no >= struct.unpack(">q", stop[:8])[0]:
                        break
                    if stop_wall and time.time() - t0 > stop_wall:
                        break
                    config, index = jobs[no]
                    try:
                        case = make_case(world, prop, config, seed, index)
                        res = run_case(world, case, scratch)
                        res["log_hash"] = log_hash(res) if res.get("carry") else None
                    except BaseException:
                        res = dict(status="harness", detail=traceback.format_exc(), carry=None)
                    if res["status"] == "violation" and want and not want(res):
                        res["known"] = True
                    elif res["status"] == "violation" and not keep_going:
                        cur = struct.unpack(">q", stop[:8])[0]
                        if no < cur:
                            stop[:8] = struct.pack(">q", no)
                    res.pop("model", None)
                    if res.get("carry"):
                        n = len(res["carry"]["log"])
                        res["events"] = n
                        if res["status"] == "end" and not (on_result and getattr(on_result, "logs", False)):
                            res["carry"]["log"] = res["carry"]["log"][:40] if no < 3 * workers else []
                    blob = pickle.dumps((no, res))
                    _write_all(w, struct.pack(">Q", len(blob)) + blob)
            finally:
                os._exit(0)
        os.close(w)
        pipes[r] = b""
        pids.append(pid)
    results = {}
    while pipes:
        ready, _, _ = select.select(list(pipes), [], [], 1.0)
        for r in ready:
            chunk = os.read(r, 1 << 20)
            if not chunk:
                os.close(r)
                del pipes[r]
                continue
            buf = pipes[r] + chunk
            while len(buf) >= 8:
                n = struct.unpack(">Q", buf[:8])[0]
                if len(buf) < 8 + n:
                    break
                no, res = pickle.loads(buf[8:8 + n])
                buf = buf[8 + n:]
                results[no] = res
                if on_result:
                    on_result(no, jobs[no], res)
            pipes[r] = buf
    for pid in pids:
        os.waitpid(pid, 0)
    gc.unfreeze()
    return results


def _write_all(fd, data):
    view = memoryview(data)
    while view:
        n = os.write(fd, view)
        view = view[n:]


# -- minimisation ----------------------------------------------------------

def minimise(world, case, kind, budget=240, wall=120):
    """Shorten the plan's operations and faults, same violation kind."""
    scratch = os.path.join(boot.scratch_root(), "min")
    t0, tries = time.time(), [0]

    def fails(plan):
        if tries[0] >= budget or time.time() - t0 > wall:
            return False
        tries[0] += 1
        try:
            res = run_case(world, dict(case, plan=plan), scratch)
        except Exception:
            return False
        return res["status"] == "violation" and res["kind"] == kind

    plan = case["plan"]

    def ddmin(plan, path):
        def get(p):
            for k in path:
                p = p[k]
            return p

        def put(p, items):
            p = json.loads(json.dumps(p))
            q = p
            for k in path[:-1]:
                q = q[k]
            q[path[-1]] = items
            return p
        items = get(plan)
        n = 2
        while len(items) >= 1 and tries[0] < budget:
            size = max(1, len(items) // n)
            for i in range(0, len(items), size):
                rest = items[:i] + items[i + size:]
                cand = put(plan, rest)
                if fails(cand):
                    plan, items = cand, rest
                    n = max(2, n - 1)
                    break
            else:
                if size == 1:
                    break
                n = min(len(items), n * 2)
        return plan

    for key in world.LISTS:
        if plan.get(key):
            plan = ddmin(plan, [key])
    for key in world.LISTS:
        for i in range(len(plan.get(key) or [])):
            if isinstance(plan[key][i], dict) and plan[key][i].get("faults"):
                plan = ddmin(plan, [key, i, "faults"])
    changed = True
    while changed and tries[0] < budget and time.time() - t0 < wall:
        changed = False
        for cand in world.shrink(plan):
            cand = json.loads(json.dumps(cand))
            if cand != plan and fails(cand):
                plan, changed = cand, True
                break
    return dict(case, plan=plan), tries[0]

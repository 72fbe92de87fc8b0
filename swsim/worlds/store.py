"""Saved dispersion data under crashes, faults, restarts and long histories.

One world, three workloads: C01 (faults inside saves), C02 (histories of saves,
appends, loads, merges and damaged files), C03 (rejections and persistence).
The reference model is a dict of files, each an ordered list of MPeaks.
"""

import os
import pathlib

from ..core import fs as fsmod
from ..core.ctx import where
from ..core.runner import World
from . import common as c

FILES = ["a.json", "b.json", "sub/c.json", "d e.json"]
BENIGN = ("short", "read-short")


class StoreBase(World):
    uses_fs = True
    tidy = False            # a failed save leaves no other file behind
    real = ["swprocess.peaks", "swprocess.peakssuite", "swprocess.fileio", "json", "numpy", "io buffering"]
    stub = ["operating-system file calls (numbered, failing, torn or cut short as the plan says)",
            "power supply and process lifetime (each lifetime is a forked process; only the directory survives)"]
    state_measure = "distinct (file contents as ids/attributes/rejected peaks, objects in memory, outcome) tuples"
    assumptions = ["one process writes to a file at a time",
                   "an fsync makes the file's data and all earlier metadata operations durable; metadata operations reach the disk in order"]

    # -- generation --------------------------------------------------------
    def gen_spec(self, rng, ident):
        return c.gen_peaks(rng, ident, big=rng.random() < 0.3, weird=rng.random() < 0.3)

    def extra_op(self, rng, op, slots, suites):
        """Complete an operation only a subclass knows; False to drop it."""
        return True

    members = (1, 2, 2, 3, 4)
    initial = (1, 4)

    def weights(self, config):
        raise NotImplementedError

    def generate(self, rng, config):
        w = self.weights(config)
        n = rng.randint(*w["len"])
        ids = c.gen_ids(rng, rng.randint(4, 12) + self.initial[1] - 4)
        unused = list(ids)
        tuning = {"buffer": rng.choice([16, 64, 256, 1024, 8192])}
        files = rng.sample(FILES, rng.randint(1, 3))
        ops, slots, suites, shadow = [], {}, {}, {}

        def new_obj():
            slot = "p%d" % len(slots)
            ident = unused.pop() if unused and rng.random() < 0.8 else rng.choice(ids)
            spec = self.gen_spec(rng, ident)
            slots[slot] = c.MPeaks.from_spec(spec)
            ops.append({"op": "make", "slot": slot, "spec": spec})

        for _ in range(rng.randint(*self.initial)):
            new_obj()
        kinds = [k for k in w["ops"]]
        while len(ops) < n:
            k = rng.choices(kinds, [w["ops"][x] for x in kinds])[0]
            op = {"op": k}
            if k == "make":
                new_obj()
                continue
            if k in ("save", "append", "reject"):
                pool = list(slots) + (list(suites) if k == "reject" else [])
                op["slot"] = rng.choice(pool) if rng.random() < 0.6 else pool[-1]
            if k == "reject":
                target = suites[op["slot"]] if op["slot"] in suites else [slots[op["slot"]]]
                op["reject"] = c.gen_reject(rng, target)
                for m in target:
                    m.valid &= ~c.reject_mask(m, op["reject"])
            if k in ("save", "append", "save_suite", "load1", "damage"):
                op["file"] = rng.choice(files)
                op["path"] = rng.choice(["abs", "rel", "rel"])
            if k == "append" and op["file"] not in shadow and rng.random() < 0.9:
                op["op"] = k = "save"
            if k in ("save", "append", "save_suite"):
                shadow[op["file"]] = 1
            if k == "suite":
                slot = "s%d" % len(suites)
                op["slot"] = slot
                if rng.random() < 0.8:
                    op["members"] = rng.sample(list(slots), min(len(slots), rng.choice(self.members)))
                else:
                    op["members"] = [rng.choice(list(slots)) for _ in range(rng.choice(self.members))]
                op["how"] = rng.choice(["append", "from_peaks", "from_dict"])
                suites[slot] = [slots[m].copy() for m in op["members"]]
            if k == "save_suite":
                if not suites:
                    continue
                op["slot"] = rng.choice(list(suites))
            if k in ("load", "load1"):
                if not shadow:
                    continue
                slot = "%s%d" % ("s" if k == "load" else "p", len(suites if k == "load" else slots))
                op["slot"] = slot
                if k == "load":
                    op["files"] = rng.sample(sorted(shadow), min(len(shadow), rng.choice([1, 1, 2, 2, 3])))
                    op["as"] = rng.choice(["str", "list", "path", "tuple"])
                    op["path"] = rng.choice(["abs", "rel"])
            if k == "merge":
                if not suites:
                    continue
                op["from"] = rng.sample(list(suites), min(len(suites), rng.choice([1, 2, 2, 3])))
                op["slot"] = "s%d" % len(suites)
            if k == "dictcopy":
                op["slot"] = rng.choice(list(slots))
            if k == "damage":
                op["cut"] = rng.random()
            if k in w["faulty"] and rng.random() < w["rate"]:
                if rng.random() < w.get("line", 0):
                    op["line"] = {"at": rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 10, 12, 15, 20, 30]),
                                  "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}
                else:
                    kinds_w = w["kinds"] if k not in ("load", "load1") else [x for x in w["kinds"] if x.startswith("read-")]
                    if kinds_w:
                        op["faults"] = [fsmod.rand_fault(rng, kinds_w) for _ in range(rng.choice([1, 1, 1, 2]))]
            if k == "damage" and op["file"] not in shadow:
                continue
            if not self.extra_op(rng, op, slots, suites):
                continue
            ops.append(op)
        if w.get("retry"):
            # after every faulty save, try again without faults, now or later
            out = []
            for op in ops:
                out.append(op)
                if op.get("faults") or op.get("line"):
                    again = {k: v for k, v in op.items() if k not in ("faults", "line")}
                    if rng.random() < 0.6 and op["op"] in ("save", "append", "save_suite"):
                        out.append(again)
            ops = out
        return {"ops": ops, "tuning": tuning, "files": files,
                "foreign": rng.choice([{}, {"notes.txt": "keep me"}, {"z.json": "{\"q\": 1}", "sub/keep.bin": "x" * 50}])}

    # -- execution ---------------------------------------------------------
    def start(self, plan):
        return {"i": 0, "files": {}, "bytes": {}, "pending": None, "init": False, "final": False}

    def execute(self, ctx, plan, model, fs):
        self.plan, self.fs = plan, fs
        if not model["init"]:
            with fsmod.quiet():
                os.makedirs(os.path.join(ctx.scratch, "sub"), exist_ok=True)
                for name, text in plan["foreign"].items():
                    os.makedirs(os.path.dirname(os.path.join(ctx.scratch, name)), exist_ok=True)
                    with open(os.path.join(ctx.scratch, name), "w") as f:
                        f.write(text)
            model["init"] = True
        self.objs, self.models = {}, {}         # memory of this process
        if model["pending"]:
            self.settle(ctx, model, crashed=True)
            self.verify_files(ctx, model, "after restart")
        ops = plan["ops"]
        while model["i"] < len(ops):
            op = ops[model["i"]]
            model["i"] += 1
            ctx.ops[op["op"]] += 1
            fs.begin(plan["tuning"], op.get("faults", ()))
            if op["op"] == "restart":
                ctx.ev("restart")
                return "restart"
            getattr(self, "op_" + op["op"])(ctx, model, op)
            fs.end()
            ctx.state((sorted((n, tuple(m.key() for m in e)) for n, e in model["files"].items()),
                       sorted((s, tuple(m.key() for m in v)) for s, v in self.models.items())))
        if not model["final"]:
            model["final"] = True
            ctx.ev("final restart")
            return "restart"
        fs.begin(plan["tuning"], ())
        self.verify_files(ctx, model, "in a later process")
        return "end"

    # -- helpers -----------------------------------------------------------
    def path(self, ctx, op, name=None):
        name = name or op["file"]
        return os.path.join(ctx.scratch, name) if op.get("path") == "abs" else name

    def read_bytes(self, ctx, name):
        with fsmod.quiet():
            try:
                with open(os.path.join(ctx.scratch, name), "rb") as f:
                    return f.read()
            except FileNotFoundError:
                return None

    def others_unchanged(self, ctx, model, target):
        """No file other than the target has changed."""
        for name in set(model["bytes"]) | set(self.plan["foreign"]):
            if name == target:
                continue
            want = model["bytes"].get(name)
            if want is None:
                want = self.plan["foreign"][name].encode()
            got = self.read_bytes(ctx, name)
            ctx.check(got == want, "another file was changed",
                      f"{name} after writing {target}: {got!r:.200} != {want!r:.200}")

    def load_suite(self, ctx, name, what):
        import swprocess
        fs = self.fs
        saved = fs.faults
        fs.faults = []
        try:
            return ctx.must(swprocess.PeaksSuite.from_json, os.path.join(ctx.scratch, name), what=what)
        finally:
            fs.faults = saved

    def match(self, ctx, name, entries, what):
        """File `name` loads as exactly `entries`, or description of why not."""
        import swprocess
        saved, self.fs.faults = self.fs.faults, []
        out = ctx.call(swprocess.PeaksSuite.from_json, os.path.join(ctx.scratch, name))
        self.fs.faults = saved
        if not out.ok:
            return f"{what}: cannot be loaded: {where(out.exc)}: {out.exc}"
        return ctx.observe(lambda: self.diff_suite(out.value, entries), what)

    def diff_suite(self, suite, entries):
        if len(suite) != len(entries):
            return f"{len(suite)} sets of peaks instead of {len(entries)}: {[p.identifier for p in suite.peaks]}"
        for p, m in zip(suite.peaks, entries):
            d = c.diff_peaks(p, m)
            if d:
                return d
        if list(suite.ids) != [m.id for m in entries]:
            return f"ids {suite.ids}"
        return None

    def settle(self, ctx, model, crashed, raised=False):
        """Decide whether a save that did not return normally took effect."""
        p = model["pending"]
        model["pending"] = None
        name = p["file"]
        now = self.read_bytes(ctx, name)
        old = model["bytes"].get(name)
        ctx.nontrivial = True
        if now == old:
            ctx.ev("settled", name, "old")
            ctx.probe("save lost" if crashed else "save failed, old content kept")
        else:
            how = "crashed" if crashed else "failed"
            ctx.check(now is not None, f"{how} save deleted the file", name)
            d = self.match(ctx, name, p["new"], f"{name} after {how} save") if p["new"] is not None else "no save was due"
            ctx.check(d is None, f"{how} save left neither old nor new content",
                      lambda: f"{name}: {d}\nnow {now[:200]!r} ({len(now)} bytes)\nold {None if old is None else old[:200]!r}")
            model["files"][name] = [m.copy() for m in p["new"]]
            model["bytes"][name] = now
            ctx.ev("settled", name, "new")
            ctx.probe("save took effect though " + how)
        self.others_unchanged(ctx, model, name)

    def verify_files(self, ctx, model, what):
        for name in sorted(model["files"]):
            ctx.check(self.read_bytes(ctx, name) == model["bytes"][name], f"file changed {what}", name)
            d = self.match(ctx, name, model["files"][name], name)
            ctx.check(d is None, f"saved data differ {what}", lambda: f"{name}: {d}")

    def same_in_memory(self, ctx, slots=None):
        for s in (slots or list(self.objs)):
            if s in self.objs and s in self.models:
                o = self.objs[s]
                d = ctx.observe(lambda: self.diff_suite(o, self.models[s]) if s[0] == "s"
                                else c.diff_peaks(o, self.models[s][0]), "looking at " + s)
                ctx.check(d is None, "object in memory changed", lambda: f"{s}: {d}")

    # -- operations --------------------------------------------------------
    def op_make(self, ctx, model, op):
        self.objs[op["slot"]] = ctx.must(c.build, op["spec"], what="Peaks()")
        self.models[op["slot"]] = [c.MPeaks.from_spec(op["spec"])]
        self.same_in_memory(ctx, [op["slot"]])

    def need(self, model, ctx, slot):
        """Objects lost by a restart are rebuilt by replaying their creation."""
        if slot in self.objs:
            return True
        for op in self.plan["ops"][:model["i"]]:
            if op["op"] == "make" and op["slot"] == slot:
                self.op_make(ctx, model, op)
                return True
        return False

    def op_suite(self, ctx, model, op):
        import swprocess
        if not all(self.need(model, ctx, m) for m in op["members"]):
            return
        members = [self.objs[m] for m in op["members"]]
        wants = [self.models[m][0] for m in op["members"]]
        ids = [m.id for m in wants]
        PS = swprocess.PeaksSuite
        if op["how"] == "from_dict":
            dicts, seen = [], set()
            for m in wants:
                d = {k: v.tolist() for k, v in m.arrays.items()}
                d["valid"] = m.valid.tolist()
                dicts.append({m.id: d})
            before = repr(dicts)
            out = ctx.call(PS.from_dict, dicts)
            ctx.check(self.prop != "C02" or repr(dicts) == before, "building from a dictionary changed the dictionary")
        elif op["how"] == "from_peaks":
            copies = [self.rebuild(ctx, m) for m in wants]
            out = ctx.call(PS.from_peaks, copies)
        else:
            copies = [self.rebuild(ctx, m) for m in wants]
            suite = ctx.must(PS, copies[0], what="PeaksSuite()")
            done = [wants[0].copy()]
            for p, m in zip(copies[1:], wants[1:]):
                out = ctx.call(suite.append, p)
                dup = m.id in [x.id for x in done]
                ctx.check(out.ok != dup, "append to suite: duplicate identifier not refused" if dup
                          else "append to suite refused", f"{m.id!r} {out.name()}")
                if not dup:
                    done.append(m.copy())
                d = ctx.observe(lambda: self.diff_suite(suite, done), "suite")
                ctx.check(d is None, "suite wrong after append", lambda: d)
            self.objs[op["slot"]], self.models[op["slot"]] = suite, done
            return
        dup = len(set(ids)) != len(ids)
        ctx.check(out.ok != dup, "suite: duplicate identifier not refused" if dup else "suite refused",
                  lambda: f"{op['how']} {ids} {out.name()} {out.exc}")
        ctx.ev("suite", op["how"], ids, out.name())
        if out.ok:
            self.objs[op["slot"]], self.models[op["slot"]] = out.value, [m.copy() for m in wants]
            self.same_in_memory(ctx, [op["slot"]])

    def rebuild(self, ctx, m):
        """A new library object in the state of model `m`."""
        import numpy as np
        if (m.valid | np.isnan(m.arrays["velocity"])).all():
            extra = {k: v.tolist() for k, v in m.arrays.items() if k not in ("frequency", "velocity")}
            return ctx.must(c.build, {"id": m.id, "frequency": m.arrays["frequency"].tolist(),
                                      "velocity": m.arrays["velocity"].tolist(), "extra": extra}, what="Peaks()")
        import swprocess
        d = {k: v.tolist() for k, v in m.arrays.items()}
        d["valid"] = m.valid.tolist()
        return ctx.must(swprocess.Peaks.from_dict, d, identifier=m.id, what="from_dict")

    def op_reject(self, ctx, model, op):
        s = op["slot"]
        if not self.need(model, ctx, s):
            return
        targets = self.models[s]
        masks = [c.reject_mask(m, op["reject"]) for m in targets]
        out = ctx.call(c.do_reject, self.objs[s], op["reject"], line_fault=op.get("line"))
        ctx.ev("reject", s, out.name(), [int(k.sum()) for k in masks])
        if out.ok:
            for m, k in zip(targets, masks):
                m.valid &= ~k
                ctx.probe("peaks rejected", int(k.sum()))
                if k.any():
                    ctx.nontrivial = True
        else:
            ctx.check(op.get("line") and isinstance(out.exc, (KeyboardInterrupt, MemoryError)),
                      f"rejection raised {out.name()}", lambda: f"{where(out.exc)}: {out.exc}")
            peaks = self.objs[s].peaks if s[0] == "s" else [self.objs[s]]
            for p, m, k in zip(peaks, targets, masks):
                v = getattr(p, "_valid", None)
                if v is None:
                    del self.objs[s], self.models[s]
                    return
                ctx.check(not (v & ~m.valid).any(), "interrupted rejection restored peaks", m.id)
                ctx.check(not (m.valid & ~k & ~v).any(), "interrupted rejection removed other peaks", m.id)
                m.valid = v.copy()
            ctx.probe("rejection interrupted")
        self.same_in_memory(ctx)

    def writer(self, ctx, model, op, fn, new, refuse=False, missing=False):
        """Common part of all saves."""
        name = op["file"]
        model["pending"] = {"file": name, "new": None if refuse or missing else [m.copy() for m in new]}
        fired0 = {k: v for k, v in ctx.faults_fired.items()}
        with fsmod.quiet():
            there = set(self.fs.snapshot())
        out = ctx.call(fn, line_fault=op.get("line"))
        if out.ok:
            self.fs.returned()
        hits = [f.get("hit") for f in self.fs.faults if f.get("seen")]
        fired = {k for k, v in ctx.faults_fired.items() if v > fired0.get(k, 0)} - set(BENIGN)
        ctx.ev(op["op"], name, out.name(), sorted(fired))
        self.fs.faults = []
        if out.ok:
            ctx.check(not refuse, "duplicate identifier was not refused", name)
            ctx.check(not missing, "append to a missing file was accepted", name)
            now = self.read_bytes(ctx, name)
            ctx.check(now is not None, "save returned but there is no file", name)
            d = self.match(ctx, name, new, name)
            ctx.check(d is None, "save returned but the file has other content", lambda: f"{name}: {d}")
            model["files"][name] = [m.copy() for m in new]
            model["bytes"][name] = now
            model["pending"] = None
            self.others_unchanged(ctx, model, name)
            ctx.probe("save ok" + (" despite fault" if fired else ""))
            if op["op"] == "append":
                ctx.probe("append ok")
            ctx.nontrivial = True
        else:
            if not fired:
                ctx.check(refuse or missing, f"save raised {out.name()} without a fault",
                          lambda: f"{where(out.exc)}: {out.exc}")
                if refuse:
                    ctx.check(isinstance(out.exc, KeyError), "duplicate identifier: wrong error", out.name())
                    ctx.probe("duplicate refused")
            if self.tidy and len(hits) == 1 and hits[0] in ("create", "write", "close", "fsync", "replace") and not op.get("line"):
                with fsmod.quiet():
                    left = set(self.fs.snapshot()) - there - {name}
                ctx.check(not left, "a failed save left other files behind", lambda: f"{sorted(left)}")
                ctx.probe("failed save left nothing behind")
            self.settle(ctx, model, crashed=False)
            if refuse or missing:
                now = self.read_bytes(ctx, name)
                ctx.check(now == model["bytes"].get(name), "refused save changed the file", name)
        self.same_in_memory(ctx)

    def op_save(self, ctx, model, op):
        if not self.need(model, ctx, op["slot"]):
            return
        self.writer(ctx, model, op, lambda: self.objs[op["slot"]].to_json(self.path(ctx, op)),
                    self.models[op["slot"]])

    def op_append(self, ctx, model, op):
        if not self.need(model, ctx, op["slot"]):
            return
        old = model["files"].get(op["file"])
        m = self.models[op["slot"]][0]
        self.writer(ctx, model, op, lambda: self.objs[op["slot"]].to_json(self.path(ctx, op), append=True),
                    (old or []) + [m], refuse=old is not None and m.id in [x.id for x in old],
                    missing=old is None)

    def op_save_suite(self, ctx, model, op):
        s = op["slot"]
        if s not in self.objs:
            return
        self.writer(ctx, model, op, lambda: self.objs[s].to_json(self.path(ctx, op)), self.models[s])

    def reader(self, ctx, op, fn, want, refuse=False):
        fired0 = dict(ctx.faults_fired)
        out = ctx.call(fn, line_fault=op.get("line"))
        fired = {k for k, v in ctx.faults_fired.items() if v > fired0.get(k, 0)} - set(BENIGN)
        self.fs.faults = []
        ctx.ev(op["op"], out.name(), sorted(fired))
        if not out.ok:
            ctx.check(fired or refuse, f"load raised {out.name()} without a fault",
                      lambda: f"{where(out.exc)}: {out.exc}")
            if refuse and not fired:
                ctx.probe("duplicate on load refused")
            return None
        ctx.check(not refuse, "duplicate identifiers were not refused on load")
        d = ctx.observe(lambda: self.diff_suite(out.value, want) if op["op"] != "load1"
                        else c.diff_peaks(out.value, want[0]), "loaded data")
        ctx.check(d is None, "loaded data differ from saved data", lambda: d)
        ctx.nontrivial = True
        return out

    def op_load(self, ctx, model, op):
        import swprocess
        names = [n for n in op["files"] if n in model["files"]]
        if not names:
            return
        paths = [self.path(ctx, op, n) for n in names]
        how = op["as"]
        arg = paths[0] if how == "str" and len(paths) == 1 else tuple(paths) if how == "tuple" \
            else [pathlib.Path(p) for p in paths] if how == "path" else list(paths)
        want = [m.copy() for n in names for m in model["files"][n]]
        ids = [m.id for m in want]
        keep = list(arg) if not isinstance(arg, str) else arg
        out = self.reader(ctx, op, lambda: swprocess.PeaksSuite.from_json(arg), want,
                          refuse=len(set(ids)) != len(ids))
        ctx.check((list(arg) if not isinstance(arg, str) else arg) == keep, "list of files was changed")
        for n in names:
            ctx.check(self.read_bytes(ctx, n) == model["bytes"][n], "loading changed the file", n)
        if out:
            self.objs[op["slot"]], self.models[op["slot"]] = out.value, want
            if len(names) > 1:
                ctx.probe("several files merged")

    def op_load1(self, ctx, model, op):
        import swprocess
        if op["file"] not in model["files"]:
            return
        want = [model["files"][op["file"]][0].copy()]
        out = self.reader(ctx, op, lambda: swprocess.Peaks.from_json(self.path(ctx, op)), want)
        ctx.check(self.read_bytes(ctx, op["file"]) == model["bytes"][op["file"]], "loading changed the file", op["file"])
        if out:
            if len(model["files"][op["file"]]) > 1:
                ctx.probe("first of several loaded")
            self.objs[op["slot"]], self.models[op["slot"]] = out.value, want

    def op_merge(self, ctx, model, op):
        import swprocess
        srcs = [s for s in op["from"] if s in self.objs]
        if not srcs:
            return
        want = [m.copy() for s in srcs for m in self.models[s]]
        ids = [m.id for m in want]
        dup = len(set(ids)) != len(ids)
        out = ctx.call(swprocess.PeaksSuite.from_peakssuite, [self.objs[s] for s in srcs])
        ctx.ev("merge", srcs, out.name())
        ctx.check(out.ok != dup, "merge: duplicate identifiers not refused" if dup else "merge refused",
                  lambda: f"{ids} {out.name()} {out.exc}")
        if out.ok:
            d = ctx.observe(lambda: self.diff_suite(out.value, want), "merged suite")
            ctx.check(d is None, "merged suite differs", lambda: d)
            ctx.probe("suites merged")
        self.same_in_memory(ctx)

    def op_dictcopy(self, ctx, model, op):
        """Build from a dictionary twice: the dictionary is left alone."""
        import swprocess
        if not self.need(model, ctx, op["slot"]):
            return
        m = self.models[op["slot"]][0]
        d = {k: v.tolist() for k, v in m.arrays.items()}
        d["valid"] = m.valid.tolist()
        before = repr(d)
        for _ in range(2):
            p = ctx.must(swprocess.Peaks.from_dict, d, identifier=m.id, what="from_dict")
            x = ctx.observe(lambda: c.diff_peaks(p, m), "from_dict")
            ctx.check(x is None, "peaks built from a dictionary differ", lambda: x)
            ctx.check(repr(d) == before, "building from a dictionary changed the dictionary")

    def op_damage(self, ctx, model, op):
        """A truncated file raises, whatever the cut; then it is restored."""
        import swprocess
        name = op["file"]
        data = model["bytes"].get(name)
        if not data or len(data) < 2:
            return
        body = data.rstrip()
        n = min(len(body) - 1, int(op["cut"] * len(body)))
        with fsmod.quiet():
            with open(os.path.join(ctx.scratch, name), "wb") as f:
                f.write(data[:n])
        for fn in (swprocess.Peaks.from_json, swprocess.PeaksSuite.from_json):
            out = ctx.call(fn, self.path(ctx, op))
            ctx.check(not out.ok, "a truncated file was loaded", f"{name} cut to {n} of {len(data)} bytes")
        slot = next((s for s in self.objs if s[0] == "p"), None)
        if slot:
            out = ctx.call(self.objs[slot].to_json, self.path(ctx, op), append=True)
            ctx.check(not out.ok, "append to a truncated file was accepted", name)
            ctx.check(self.read_bytes(ctx, name) == data[:n], "failed append changed the file", name)
        with fsmod.quiet():
            with open(os.path.join(ctx.scratch, name), "wb") as f:
                f.write(data)
        ctx.probe("truncated file refused")
        ctx.nontrivial = True

    # -- shrinking ---------------------------------------------------------
    def shrink(self, plan):
        import copy
        for i, op in enumerate(plan["ops"]):
            if op["op"] == "make":
                s = op["spec"]
                if s["extra"]:
                    q = copy.deepcopy(plan)
                    q["ops"][i]["spec"]["extra"] = {}
                    yield q
                f = s["frequency"]
                if f and not isinstance(f[0], list) and len(f) > 1:
                    q = copy.deepcopy(plan)
                    t = q["ops"][i]["spec"]
                    h = max(1, len(f) // 2)
                    t["frequency"], t["velocity"] = f[:h], s["velocity"][:h]
                    t["extra"] = {k: v[:h] for k, v in s["extra"].items()}
                    yield q
        if plan["foreign"]:
            yield dict(plan, foreign={})
        if plan["tuning"]["buffer"] != 8192:
            yield dict(plan, tuning={"buffer": 8192})


class CrashWorld(StoreBase):
    """C01."""
    rule = ("a case is a history of saves (new, overwrite, append, suite) over several files with faults placed in the "
            "file calls or library lines of each save; non-trivial if at least one save completed or was resolved to "
            "old or new after a fault; distinct by event log (every file call, fault and outcome)")

    def counts(self, tier):
        q = {"healthy": 150, "crash": 700, "power": 700, "diskfault": 700, "interrupt": 500, "mixed": 500}
        return q if tier == "quick" else {k: v * 14 for k, v in q.items()}

    def weights(self, config):
        kinds = {"healthy": [], "crash": ["crash"], "power": ["power"],
                 "diskfault": ["enospc", "eio", "emfile", "eacces", "erofs", "short", "read-eio"],
                 "interrupt": ["kbi", "memory"],
                 "mixed": list(fsmod.WRITE_FAULTS) + ["read-eio", "read-short", "read-emfile"]}[config]
        return {"len": (3, 9), "kinds": kinds, "rate": 0.0 if config == "healthy" else 0.6, "retry": True,
                "line": {"interrupt": 0.6, "mixed": 0.2}.get(config, 0),
                "faulty": ("save", "append", "save_suite"),
                "ops": {"make": 1, "save": 3, "append": 4, "suite": 1.5, "save_suite": 3, "reject": 0.5,
                        "load": 0.7, "load1": 0.5, "restart": 0.5}}


class HistoryWorld(StoreBase):
    """C02."""
    rule = ("a case is a history of create/reject/save/append/load/merge/restart/damage operations over several files "
            "and objects; non-trivial if data were saved or loaded; distinct by event log")

    def counts(self, tier):
        q = {"history": 1500, "readfault": 700, "crashy": 400}
        return q if tier == "quick" else {k: v * 18 for k, v in q.items()}

    def weights(self, config):
        return {"len": (5, 16), "rate": {"history": 0, "readfault": 0.4, "crashy": 0.15}[config],
                "kinds": ["crash", "power"] if config == "crashy" else list(fsmod.READ_FAULTS),
                "faulty": ("save", "append", "save_suite", "load", "load1"),
                "line": 0.3 if config == "readfault" else 0,
                "ops": {"make": 2, "save": 2, "append": 4, "suite": 3, "save_suite": 3, "reject": 3, "load": 4,
                        "load1": 2, "merge": 3, "dictcopy": 1, "restart": 1.5, "damage": 1.5}}


class RejectWorld(StoreBase):
    """C03."""
    rule = ("a case is a history of rejections (limits, boxes; single and suite) interleaved with saves, crashes, "
            "loads and restarts; non-trivial if at least one peak was rejected; distinct by event log")

    def counts(self, tier):
        q = {"history": 1800, "crashy": 500, "interrupted": 400}
        return q if tier == "quick" else {k: v * 18 for k, v in q.items()}

    def weights(self, config):
        w = {"len": (6, 18), "rate": {"history": 0, "crashy": 0.3, "interrupted": 0.4}[config],
             "kinds": ["crash", "power", "enospc", "eio"],
             "faulty": ("save", "append", "save_suite"), "line": 0,
             "ops": {"make": 2, "save": 1.5, "append": 1.5, "suite": 3, "save_suite": 2, "reject": 10, "load": 2,
                     "load1": 1, "restart": 0.7, "merge": 0.5}}
        if config == "interrupted":
            w.update(faulty=("reject",), line=1.0)
        return w


class StatsWorld(StoreBase):
    """C13."""
    rule = ("a case is a history of rejections, saves, crashes, loads, merges and restarts with statistics and tables "
            "computed in between; non-trivial if statistics of at least three members were compared; distinct by event log")
    real = StoreBase.real + ["scipy.interpolate"]
    members = (2, 3, 4, 5, 6, 7)
    initial = (4, 8)

    def counts(self, tier):
        q = {"history": 1800, "crashy": 600, "many": 500}
        return q if tier == "quick" else {k: v * 18 for k, v in q.items()}

    def weights(self, config):
        return {"len": (14, 26) if config != "many" else (24, 44), "rate": 0.3 if config == "crashy" else 0,
                "kinds": ["crash", "power"], "faulty": ("save", "append", "save_suite"), "line": 0,
                "ops": {"make": 2, "save": 0.7, "append": 0.7, "suite": 3, "save_suite": 2, "reject": 4, "load": 2,
                        "restart": 0.5, "merge": 0.5, "stats": 7, "table": 4}}

    def gen_spec(self, rng, ident):
        s = c.gen_peaks(rng, ident, big=rng.random() < 0.3, dims=rng.choice([1, 2]),
                        extras=rng.choice([[], ["power"], ["azimuth", "power"], ["noise"]]))
        power = s["extra"].get("power")
        if power is not None and isinstance(power[0], list) and rng.random() < 0.5:
            # unknown, equal and extreme powers
            odd = rng.choice([["nan"], ["nan", "nan", 1.0], [1.0], ["-inf", 0.0, "nan"], [0.0, -0.0]])
            share = rng.choice([0.1, 0.4, 1.0])
            for row in power:
                for k in range(len(row)):
                    if rng.random() < share:
                        row[k] = rng.choice(odd)
        return s

    def extra_op(self, rng, op, slots, suites):
        if op["op"] not in ("stats", "table"):
            return True
        if not suites:
            return False
        op["slot"] = rng.choice(list(suites)) if rng.random() < 0.4 else list(suites)[-1]
        op["xtype"] = rng.choice(["frequency", "frequency", "wavelength"])
        op["ytype"] = rng.choice(["velocity", "velocity", "slowness"])
        lo, hi = (1, 80) if op["xtype"] == "frequency" else (2, 200)
        n = rng.choice([1, 3, 8, 20, 50])
        hi = rng.choice([hi, hi / 2])
        xx = sorted(rng.uniform(lo, hi) for _ in range(n))
        vals = [float(x) for m in suites[op["slot"]] for x in m.arrays["frequency"].ravel() if x == x]
        if op["xtype"] == "frequency" and vals and rng.random() < 0.5:
            xx += [rng.choice(vals) for _ in range(3)]
        if op["xtype"] == "frequency" and rng.random() < 0.05:      # very many positions, a member at few of them
            m = rng.choice(suites[op["slot"]])
            f = sorted(float(x) for x in m.arrays["frequency"][m.valid].ravel())
            lo, hi = (f[0], f[-1]) if f else (1, 80)
            out = [(1e-3 + x * (lo - 2e-3)) if rng.random() < 0.5 else hi + 1e-3 + x * 40
                   for x in (rng.random() for _ in range(rng.choice([101, 120, 205, 450])))]
            inside = [lo + (hi - lo) * rng.random() for _ in range(rng.choice([1, 1, 2]))]
            xx = sorted(out) + inside
        if rng.random() < 0.3:
            rng.shuffle(xx)
        op["xx"] = xx
        op["as"] = rng.choice(["list", "tuple", "array"])
        if op["op"] == "stats":
            op["count"] = rng.choice([None, None, 1, 2, 3, 4, 5])
            op["corr"] = rng.random() < 0.3
            op["mean_substitution"] = rng.random() < 0.2
        return True

    def curve(self, m, xtype, ytype):
        """Remaining x and y of one member, sorted; None if ambiguous."""
        import numpy as np
        x, y = m.attr(xtype), m.attr(ytype)
        if x.ndim == 1:
            x, y = x[m.valid], y[m.valid]
        else:
            xs, ys = [], []
            power = m.arrays.get("power")
            for k in range(x.shape[1]):
                rows = [r for r in range(x.shape[0]) if m.valid[r, k]]
                if rows:
                    r = rows[0] if power is None else max(
                        rows, key=lambda r: (-np.inf if np.isnan(power[r, k]) else power[r, k], -r))
                    xs.append(x[r, k])
                    ys.append(y[r, k])
            x, y = np.array(xs), np.array(ys)
        o = np.argsort(x, kind="stable")
        x, y = x[o], y[o]
        if len(x) > 1 and np.min(np.diff(x) / x[1:]) < 1e-6:
            return None
        return x, y

    def table(self, members, xtype, ytype, xx):
        """Model of the table, and where it is ambiguous."""
        import numpy as np
        rows, vague = [], []
        for m in members:
            xy = self.curve(m, xtype, ytype)
            if xy is None:
                return None, None
            x, y = xy
            v = np.zeros(len(xx), dtype=bool)
            if len(x) == 0:
                rows.append(np.full(len(xx), np.nan))
                vague.append(v)
                continue
            rows.append(np.interp(xx, x, y, left=np.nan, right=np.nan))
            for end in (x[0], x[-1]):       # rounding decides; or one point only
                near = np.abs(xx - end) <= 1e-9 * end
                v |= near & ((xx != end) | (xtype != "frequency") | (len(x) == 1))
            vague.append(v)
        return np.array(rows), np.array(vague)

    def inputs(self, op):
        import numpy as np
        return {"list": list, "tuple": tuple, "array": np.array}[op["as"]](op["xx"])

    def op_table(self, ctx, model, op):
        import numpy as np
        s = op["slot"]
        if s not in self.objs:
            return
        want, vague = self.table(self.models[s], op["xtype"], op["ytype"], np.array(op["xx"]))
        given = self.inputs(op)
        xx, got = ctx.must(self.objs[s].to_array, op["xtype"], op["ytype"], given, what="to_array")
        ctx.ev("table", s, got)
        self.same_in_memory(ctx)
        ctx.check(list(given) == op["xx"] and list(xx) == op["xx"], "sampling positions changed")
        if want is None:
            return
        ok = vague | np.isclose(got, want, rtol=1e-8, atol=0, equal_nan=True)
        ctx.check(got.shape == want.shape and ok.all(), "table differs from the remaining peaks",
                  lambda: f"{s} {op['xtype']}/{op['ytype']} member, column {np.argwhere(~ok)[0]}: "
                          f"{got[~ok][0]} != {want[~ok][0]}")
        ctx.probe("table compared")
        given2 = self.inputs(op)
        if isinstance(given2, np.ndarray):      # the table shares nothing with the input
            got[:] = 0
            xx[:] = 0
            self.same_in_memory(ctx)

    def op_stats(self, ctx, model, op):
        import numpy as np
        s = op["slot"]
        if s not in self.objs:
            return
        members = self.models[s]
        kw = {} if op["count"] is None else {"drop_sample_if_fewer_count": op["count"]}
        if op["corr"]:
            kw["ignore_corr"] = False
        if op["mean_substitution"]:
            kw["mean_substitution"] = True
        given = self.inputs(op)
        out = ctx.call(self.objs[s].statistics, op["xtype"], op["ytype"], given, **kw)
        ctx.ev("stats", s, out.name(), list(out.value) if out.ok else None)
        self.same_in_memory(ctx)
        ctx.check(list(given) == op["xx"], "sampling positions changed")
        if len(members) < 3:
            ctx.check(isinstance(out.exc, ValueError), "statistics of fewer than three members not refused", out.name())
            ctx.probe("too few members refused")
            return
        xs = np.array(op["xx"])
        want, vague = self.table(members, op["xtype"], op["ytype"], xs)
        ctx.check(out.ok, f"statistics raised {out.name()}", lambda: f"{where(out.exc)}: {out.exc}")
        if want is None or vague.any():
            ctx.probe("ambiguous sampling skipped")
            return
        xx, mean, std, corr = out.value
        n = np.sum(~np.isnan(want), axis=0)
        keep = n >= max(1, 3 if op["count"] is None else op["count"])
        ctx.check(list(xx) == list(xs[keep]), "positions with enough values",
                  lambda: f"{list(xx)} != {list(xs[keep])}; values {n.tolist()}")
        if not keep.any():
            ctx.probe("no position left")
            return
        w = want[:, keep]
        with np.errstate(all="ignore"):
            wm = np.array([np.mean(col[~np.isnan(col)]) for col in w.T])
            ws = np.array([np.std(col[~np.isnan(col)], ddof=1) if k > 1 else np.nan for col, k in zip(w.T, n[keep])])
        ctx.check(np.shape(mean) == wm.shape and np.allclose(mean, wm, rtol=1e-8, atol=0), "mean differs",
                  lambda: f"{c.short(mean)} != {c.short(wm)}")
        ctx.check(np.shape(std) == ws.shape and np.allclose(std, ws, rtol=1e-6, atol=1e-8 * np.max(np.abs(wm)), equal_nan=True),
                  "standard deviation differs", lambda: f"{c.short(std)} != {c.short(ws)}")
        ctx.check((corr is None) == (not op["corr"]), "correlations not as requested")
        if corr is not None and not np.isnan(w).any() and keep.sum() > 1 and np.min(ws) > 1e-6 * np.max(wm):
            ctx.check(np.allclose(corr, np.corrcoef(w.T), rtol=1e-6, atol=1e-6), "correlations differ")
            ctx.probe("correlations compared")
        ctx.probe("statistics compared")
        if (n < len(members)).any():
            ctx.probe("with missing values")
        if any(not m.valid.all() for m in members):
            ctx.probe("with rejected peaks")
        ctx.nontrivial = True

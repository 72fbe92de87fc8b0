"""Independence of MASW runs: histories of runs, and runs in several threads (C10)."""

import copy
import os
import pickle
import struct
import sys
import warnings

import numpy as np

from ..core import fs as fsmod
from ..core import sched, ui
from ..core.ctx import LineFault, SimViolation, where
from .opsworld import OpsWorld
from .shotfiles import MAPY
from .workflows import MAPS, WorkflowWorld, arguments, gen_base, gen_mute_script, gen_settings, write_shot


class Watch:
    """A user who follows a script, whatever the figure shows."""

    def __init__(self):
        self._fig = None

    figure = property(lambda self: self._fig)

    def panels(self, fig):
        return list(fig.axes)

    def begin(self, user, fig, name, n, timeout):
        self._fig = fig

    def event(self, *args):
        pass

    end = prompt = event

    def idle(self, user):
        return [{"do": "interrupt", "wait": 1.0}]


def result_of(t):
    """Everything a run reports, as plain data."""
    arr = t.array
    return {"frequencies": np.array(t.frequencies), "velocities": np.array(t.velocities), "power": np.array(t.power),
            "snr": None if t.snr is None else np.array(t.snr),
            "snr frequencies": None if t.snr_frequencies is None else np.array(t.snr_frequencies), "n": t.n,
            "positions": np.array(arr.position()), "delay": np.array([s.delay for s in arr.sensors]),
            "samples": np.array([s.amplitude for s in arr.sensors])}


def differs(a, b):
    for k in b:
        x, y = a[k], b[k]
        if x is None or y is None or not isinstance(y, np.ndarray):
            if (x is None) != (y is None) or not isinstance(y, np.ndarray) and x != y:
                return f"{k}: {x} instead of {y}"
            continue
        if x.shape != y.shape:
            return f"{k}: shape {x.shape} instead of {y.shape}"
        with np.errstate(all="ignore"):
            scale = np.max(np.abs(y[np.isfinite(y)]), initial=0.0)
            same = (np.abs(x - y) <= 1e-9 * scale) | (x == y) | (np.isnan(x) & np.isnan(y))
        if not same.all():
            return f"{k}: {x[~same][:3]} instead of {y[~same][:3]}"
    return None


def surroundings():
    """State of the process which a run has no business changing."""
    import logging
    import random
    import matplotlib as mpl
    st = np.random.get_state()
    log = logging.getLogger("swprocess")
    return {"warning filters": list(warnings.filters), "showwarning": warnings.showwarning, "numpy error handling": np.geterr(),
            "working directory": os.getcwd(), "environment": dict(os.environ), "numpy random state": (st[1].tobytes(), st[2:]),
            "random state": random.getstate(), "matplotlib parameters": dict(mpl.rcParams), "import path": list(sys.path),
            "logging": (logging.root.level, logging.root.disabled, logging.root.manager.disable, list(logging.root.handlers), log.level, list(log.handlers)),
            "print options": {k: v for k, v in np.get_printoptions().items()}, "streams": (sys.stdout, sys.stderr),
            "trace": sys.gettrace()}


class Pristine:
    """A process forked before any run, doing single runs in fresh forks."""

    def __init__(self, serve):
        self.serve = serve
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                self._zygote(os.fdopen(r1, "rb"), w2)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, os.fdopen(r2, "rb")

    def _zygote(self, inp, out):
        while True:
            head = inp.read(8)
            if len(head) < 8:
                return
            req = pickle.loads(inp.read(struct.unpack(">Q", head)[0]))
            pid = os.fork()
            if pid == 0:
                try:
                    try:
                        res = self.serve(req)
                    except BaseException as e:
                        res = ("broken", repr(e))
                    blob = pickle.dumps(res)
                    data = struct.pack(">Q", len(blob)) + blob
                    while data:
                        data = data[os.write(out, data):]
                finally:
                    os._exit(0)
            os.waitpid(pid, 0)

    def ask(self, req):
        blob = pickle.dumps(req)
        data = struct.pack(">Q", len(blob)) + blob
        while data:
            data = data[os.write(self.w, data):]
        head = self.r.read(8)
        if len(head) < 8:
            from ..core.ctx import HarnessError
            raise HarnessError("the pristine process is gone")
        return pickle.loads(self.r.read(struct.unpack(">Q", head)[0]))

    def close(self):
        os.close(self.w)
        os.waitpid(self.pid, 0)


class RunsWorld(OpsWorld):
    """C10."""
    real = ["swprocess.masw", "swprocess.maswworkflows", "swprocess.array1d", "swprocess.snr", "swprocess.wavefieldtransforms",
            "swprocess.register", "threads (real, one at a time)", "obspy readers", "sigpropy", "numpy", "scipy"]
    stub = ["thread scheduling (seeded switches between lines or instructions of the library)", "locks created by the library",
            "disk (faults of open and read)", "user (scripted events on a virtual clock)", "rendering",
            "interrupts and failing allocations (at chosen lines of the library)", "shot recorder (independent writers)"]
    rule = ("a case is a history of MASW runs (successful, refused, interrupted, with read faults) sharing settings and file lists, of files "
            "being replaced, results and settings being altered by their owner, and possibly of two to four runs in threads; each result is "
            "compared with that of the same run in a process which has done nothing else; non-trivial if a result was compared; distinct by event log")
    state_measure = "distinct sequences of thread switches (who, to whom, where), and distinct histories of outcomes"
    uses_fs = True
    LISTS = ("ops", "switches")
    assumptions = ["one person at a time uses figures", "threads switch between lines or bytecode instructions of swprocess; numpy, scipy and obspy calls are not divided"]

    def counts(self, tier):
        q = {"history": 500, "faulty": 450, "threads": 600, "threads-faulty": 350}
        return q if tier == "quick" else {k: v * 25 for k, v in q.items()}

    # -- generation --------------------------------------------------------
    def generate(self, rng, config):
        ww = WorkflowWorld()
        base = gen_base(rng, rng.random() < 0.2)
        base["n"] = min(base["n"], 200)
        ext = {"SU": "su", "SEGY": "sgy", "SEG2": "dat"}[base["fmt"]]
        names = [f"{k + 1}.{ext}" for k in range(rng.choice([1, 2, 3]))]
        sources = [f"s{k + 1}.{ext}" for k in range(rng.choice([1, 2]))] if base["n"] >= 170 else []
        chans = 2
        ops = []

        def shot(**change):
            return dict(base, aseed=rng.randrange(10**6), stack=rng.choice([1, 1, 2, 3]), **change)

        def put(name):
            if name in sources:
                ops.append({"op": "write", "file": name, "spec": dict(ww.source_spec(rng, base, chans), aseed=rng.randrange(10**6))})
            else:
                s = shot()
                if rng.random() < 0.12:
                    s = ww.unlike(rng, base, s)
                ops.append({"op": "write", "file": name, "spec": s})
        for name in names + sources:
            put(name)
        settings = []

        def run(mute=None):
            wf = rng.choice(["single", "time-domain", "frequency-domain"] + ["time-domain-xcorr"] * 2 * bool(sources))
            if mute is None:
                mute = rng.random() < 0.12
            kw = None
            if settings and rng.random() < 0.45:
                slot, kw = rng.choice(settings)
                if rng.random() < 0.25:     # the owner changes some settings
                    kw = dict(kw, **rng.choice([{"fmin": 7.2}, {"vmin": 120}, {"nvel": 4}, {"transform": "fk"}, {"vspace": "log"},
                                                {"weighting": "sqrt"}, {"steering": "plane"}, {"pad": not kw.get("pad", False)}]))
                if bool(kw.get("mute")) != mute:
                    kw = None
            if kw is None:
                slot = len(settings)
                kw = gen_settings(rng, base, mute, workflow=wf)
                kw["fmin"] = max(5.1, kw["fmin"])
                kw["nvel"] = rng.choice([2, 3])
                for drop in ("weighting", "steering", "vspace", "transform"):
                    if rng.random() < 0.2:
                        kw.pop(drop)
            settings.append((slot, kw))
            op = {"op": "run", "slot": slot, "kw": kw, "how": rng.choice(["list", "list", "tuple", "one", "paths"]),
                  "files": rng.sample(names, rng.randint(1, len(names))), "mapx": rng.choice(["id", "id", "shift"]), "mapy": "id"}
            if rng.random() < 0.2:
                op["bare"] = rng.choice([[["processing", "fdbf-specific"]], [["mute", "window_kwargs"]]])
            if kw["workflow"] == "time-domain-xcorr":
                op.update(sources=rng.sample(sources, rng.randint(1, len(sources))), chan=rng.randrange(chans))
            if mute:
                op["script"] = gen_mute_script(rng, False)
            if rng.random() < 0.1:
                op["kw"] = dict(kw)
                ww.spoil(rng, op, base)
                if op["kw"].get("mute") and "script" not in op:
                    op["script"] = []
            return op

        def fault(op):
            r = rng.random()
            if r < 0.65:
                op["line"] = {"at": rng.choice([rng.randrange(30), rng.randrange(150), rng.randrange(400), rng.randrange(1200)]),
                              "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}
            elif op.get("script") and r < 0.8:
                op["script"].insert(rng.randint(0, len(op["script"])), {"do": "interrupt", "wait": 0.1})
            else:
                f = fsmod.rand_fault(rng, fsmod.READ_FAULTS)
                f["at"] = rng.choice([0, 1, 2, 3, 5, 8, 10, 14, 20, 30])
                f["path"] = rng.choice(op["files"] + op.get("sources", []))
                op["faults"] = [f]
        threads = config.startswith("threads")
        for _ in range(rng.choice([1, 2, 2]) if threads else rng.choice([2, 3, 4])):
            r = rng.random()
            if r < 0.2:
                put(rng.choice(names + sources))
            elif r < 0.35:
                ops.append({"op": "disturb", "what": rng.choice(["power", "frequencies", "normalize", "array", "settings", "plot", "defaults"])})
            elif r < 0.42:
                ops.append({"op": "defaults"})
            op = run()
            if config == "faulty" and rng.random() < 0.6 or config == "threads-faulty" and rng.random() < 0.3:
                fault(op)
            ops.append(op)
        plan = {"ops": ops, "switches": [], "opcodes": False, "tuning": {"buffer": rng.choice([32, 256, 8192])}}
        if threads:
            runs = [run(mute=False) for _ in range(rng.choice([2, 2, 3, 4]))]
            if rng.random() < 0.15:
                runs[0] = run(mute=True)
            if rng.random() < 0.3:
                runs[1] = copy.deepcopy(dict(runs[0], **({} if "script" not in runs[0] else {"script": []})))
                if "script" in runs[0]:
                    runs[1] = run(mute=False)
            op = {"op": "concurrent", "runs": runs, "lines": {}}
            if config == "threads-faulty":
                for k in range(len(runs)):
                    if rng.random() < 0.5:
                        op["lines"][str(k)] = {"at": rng.choice([rng.randrange(30), rng.randrange(150), rng.randrange(400), rng.randrange(1200)]),
                                               "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}
                if rng.random() < 0.3:
                    f = fsmod.rand_fault(rng, ["read-eio", "read-eacces", "read-emfile"])
                    f["at"] = rng.choice([0, 1, 2, 5, 9, 14])
                    f["path"] = rng.choice(names)
                    op["faults"] = [f]
            ops.append(op)
            mean = rng.choice([1, 2, 5, 15, 60, 200])
            plan["switches"] = [[1 + int(rng.expovariate(1 / mean)), rng.randrange(3)] for _ in range(rng.choice([1, 3, 20, 150, 400]))]
            plan["opcodes"] = config == "threads" and rng.random() < 0.3   # CPython 3.12 crashes when opcode tracing meets injected exceptions
            if rng.random() < 0.6:
                ops.append(run())
        return plan

    # -- execution ---------------------------------------------------------
    def setup(self, ctx, plan, fs):
        self.bytes, self.slots, self.lists, self.results = {}, {}, {}, []
        self.history = []
        self.ctx = ctx
        self.pristine = Pristine(self.alone)

    def finish(self, ctx, plan):
        import matplotlib.pyplot as plt
        plt.close("all")
        self.pristine.close()
        ctx.state(tuple(self.history))

    def op_write(self, ctx, op):
        path = os.path.join(ctx.scratch, op["file"])
        write_shot(ctx, path, op["spec"])
        with fsmod.quiet(), open(path, "rb") as f:
            self.bytes[op["file"]] = f.read()

    def files_unchanged(self, ctx):
        with fsmod.quiet():
            now = sorted(os.listdir(ctx.scratch))
            ctx.check(now == sorted(self.bytes), "a run created or removed files", lambda: f"{now}")
            for name, data in self.bytes.items():
                with open(os.path.join(ctx.scratch, name), "rb") as f:
                    ctx.check(f.read() == data, "a run changed an input file", name)

    # one run
    def make_settings(self, op):
        from swprocess.masw import Masw
        settings = Masw.create_settings_dict(**copy.deepcopy(op["kw"]))
        for part, name in op.get("bare", ()):       # entries which may be left out
            part = settings["processing"] if part == "processing" else settings["pre-processing"]["mute"]
            part.pop(name, None)
        return settings

    def starter(self, ctx, op, settings, files, sources):
        from swprocess.masw import Masw, MaswXcorr
        args = dict(map_x=MAPS(op["mapx"]), map_y=MAPY[op["mapy"]])
        if op["kw"]["workflow"] == "time-domain-xcorr":
            return lambda: MaswXcorr.run(files, sources, op["chan"], settings, **args)
        return lambda: Masw.run(files, settings, **args)

    def alone(self, op):
        """The same run, in a process which has done nothing else."""
        settings = self.make_settings(op)
        files, _ = arguments(op["how"], op["files"], self.ctx.scratch)
        sources = [os.path.join(self.ctx.scratch, s) for s in op.get("sources", [])]
        fn = self.starter(self.ctx, op, settings, files, sources)
        script = [a for a in op.get("script", []) if a["do"] != "interrupt"]
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with ui.User(self.ctx, script, Watch()):
                    t = fn()
        except Exception as e:
            return ("error", type(e).__name__, str(e))
        except KeyboardInterrupt:
            return ("error", "KeyboardInterrupt", "")
        return ("ok", result_of(t))

    def prepare(self, ctx, op):
        """Settings and file lists: possibly objects used before."""
        fresh = ctx.must(self.make_settings, op, what="create_settings_dict")
        slot = op["slot"]
        if slot in self.slots:
            overwrite(self.slots[slot], fresh)
        else:
            self.slots[slot] = fresh
        settings = self.slots[slot]
        key = (op["how"], tuple(op["files"]))
        if key not in self.lists:
            self.lists[key] = arguments(op["how"], op["files"], ctx.scratch)[0]
        files = self.lists[key]
        sources = [os.path.join(ctx.scratch, s) for s in op.get("sources", [])]
        return settings, files, sources, copy.deepcopy((settings, files, sources))

    def unchanged(self, ctx, args):
        settings, files, sources, before = args
        ctx.check(settings == before[0], "a run changed its settings", lambda: f"{settings} instead of {before[0]}")
        ctx.check(type(files) is type(before[1]) and files == before[1] and sources == before[2], "a run changed its list of files",
                  lambda: f"{files} instead of {before[1]}")

    def judge(self, ctx, what, want, value, exc, hit):
        """Compare the outcome with that of the run alone; `hit`: a fault fired."""
        if want[0] == "broken":
            from ..core.ctx import HarnessError
            raise HarnessError(f"pristine run: {want[1]}")
        if exc is not None:
            self.history.append((what, type(exc).__name__))
            if hit:
                ctx.probe("run failed by a fault")
                return
            ctx.check(want[0] == "error", f"{what}: failed though it succeeds on its own: {type(exc).__name__}",
                      lambda: f"{where(exc)}: {exc}")
            ctx.check(want[1] == type(exc).__name__, f"{what}: fails otherwise than on its own",
                      lambda: f"{type(exc).__name__}: {exc} instead of {want[1]}: {want[2]}")
            ctx.probe("refused as on its own")
            return
        if want[0] == "error" and want[1] == "KeyboardInterrupt":
            return
        ctx.check(want[0] == "ok", f"{what}: succeeds though it fails on its own", lambda: f"{want[1]}: {want[2]}")
        got = ctx.observe(lambda: result_of(value), "looking at a result")
        d = differs(got, want[1])
        ctx.check(d is None, f"{what}: result is not that of the run on its own", d)
        ctx.nontrivial = True
        ctx.probe("results compared")
        self.history.append((what, "ok"))
        self.results.append((value, want[1]))

    def around(self, ctx, before):
        now = surroundings()
        for k in before:
            ctx.check(now[k] == before[k], f"a run changed the {k} of the program", lambda: f"{str(now[k])[:300]} instead of {str(before[k])[:300]}")

    def op_run(self, ctx, op):
        want = self.pristine.ask({k: v for k, v in op.items() if k not in ("line", "faults")})
        args = self.prepare(ctx, op)
        fn = self.starter(ctx, op, *args[:3])
        fired = sum(n for k, n in ctx.faults_fired.items() if k != "read-short")
        value = exc = None
        with warnings.catch_warnings():
            warnings.simplefilter("always")
            warnings.showwarning = lambda *a, **k: None
            before = surroundings()
            try:
                with ui.User(ctx, op.get("script", []), Watch()):
                    if op.get("line"):
                        with LineFault(ctx, op["line"]):
                            value = fn()
                    else:
                        value = fn()
            except SimViolation:
                raise
            except BaseException as e:
                exc = e
            self.around(ctx, before)
        hit = sum(n for k, n in ctx.faults_fired.items() if k != "read-short") > fired
        self.fs.faults = []
        ctx.ev("run", type(exc).__name__, where(exc) if exc else None)
        self.unchanged(ctx, args)
        self.files_unchanged(ctx)
        self.judge(ctx, "run", want, value, exc, hit)

    def op_concurrent(self, ctx, op):
        runs = op["runs"]
        wants = [self.pristine.ask(r) for r in runs]
        args = [self.prepare(ctx, r) for r in runs]
        # Runs which share settings or lists must agree on them.
        seen = {}
        for r, a in zip(runs, args):
            seen[r["slot"]] = a
        todo = [k for k, r in enumerate(runs) if args[k][3][0] == args[k][0]]
        fns = [self.starter(ctx, runs[k], *args[k][:3]) for k in todo]
        script = next((runs[k]["script"] for k in todo if runs[k].get("script")), [])
        faults = {i: op["lines"][str(k)] for i, k in enumerate(todo) if str(k) in op["lines"]}
        fired = sum(n for k, n in ctx.faults_fired.items() if k.startswith("read-") and k != "read-short")
        s = sched.Scheduler(ctx, self.plan["switches"], self.plan["opcodes"])
        with warnings.catch_warnings():
            warnings.simplefilter("always")
            warnings.showwarning = lambda *a, **k: None
            before = surroundings()
            with ui.User(ctx, script, Watch()):
                results = s.run(fns, faults)
            self.around(ctx, before)
        disk = sum(n for k, n in ctx.faults_fired.items() if k.startswith("read-") and k != "read-short") > fired
        self.fs.faults = []
        ctx.faults_set["thread switch"] += len(self.plan["switches"])
        ctx.faults_fired["thread switch"] += s.done_switches
        if s.done_switches:
            ctx.probe("runs interleaved")
        ctx.state(tuple(s.order))
        ctx.ev("switches", s.done_switches, s.steps, [type(e).__name__ for _, e in results])
        for i, k in enumerate(todo):
            hit = disk or s.faults.get(i, {}).get("fired", False)
            self.unchanged(ctx, args[k])
            self.judge(ctx, "run in a thread", wants[k], *results[i], hit)
        self.files_unchanged(ctx)

    def op_disturb(self, ctx, op):
        """The owner of results and settings uses them."""
        import matplotlib.pyplot as plt
        if not self.results:
            return
        value, want = self.results[-1]
        w = op["what"]
        if w == "power":
            value.power[...] = 0
        elif w == "frequencies":
            value.frequencies[...] *= 2
            value.velocities[...] = 1
        elif w == "normalize":
            ctx.call(value.normalize, by="absolute-maximum")
        elif w == "array":
            value.array.sensors.reverse()
            ctx.call(value.array.sensors[0].detrend)
        elif w == "settings":
            for s in self.slots.values():
                s["processing"]["fmin"] = s["processing"]["fmax"]
                s["processing"].pop("fdbf-specific", None)
                s["pre-processing"]["offsets"]["max"] = -1
        elif w == "plot":
            ctx.call(value.plot)
            plt.close("all")
        elif w == "defaults":
            from swprocess.masw import Masw
            spoil_all(ctx.must(Masw.create_settings_dict, what="create_settings_dict"))
        self.results.pop()
        # Results reported earlier stay as they were.
        for v, wnt in self.results:
            if not any(v is value for v in ()):
                d = ctx.observe(lambda: differs(result_of(v), wnt), "looking at an earlier result")
                ctx.check(d is None, "using one result changed another", d)

    def op_defaults(self, ctx, op):
        from swprocess.masw import Masw
        a = ctx.must(Masw.create_settings_dict, what="create_settings_dict")
        b = ctx.must(Masw.create_settings_dict, what="create_settings_dict")
        ctx.check(a == b, "default settings differ", lambda: f"{a} {b}")
        shared = {id(d) for d in mutable(a)} & {id(d) for d in mutable(b)}
        ctx.check(not shared, "default settings are shared")
        keep = copy.deepcopy(b)
        spoil_all(a)
        ctx.check(b == keep, "default settings are shared")
        c = ctx.must(Masw.create_settings_dict, what="create_settings_dict")
        ctx.check(c == keep, "default settings changed", lambda: f"{c} instead of {keep}")
        ctx.probe("default settings compared")


def mutable(d):
    out = []
    if isinstance(d, dict):
        out.append(d)
        for v in d.values():
            out += mutable(v)
    elif isinstance(d, (list, set)):
        out.append(d)
    return out


def spoil_all(d):
    for k in list(d):
        if isinstance(d[k], dict):
            spoil_all(d[k])
            if not d[k]:
                d[k]["extra"] = 1
        elif isinstance(d[k], (int, float)):
            d[k] = 12345
        else:
            d[k] = "spoiled"


def overwrite(old, new):
    """Give a dictionary new contents, in place."""
    for k in list(old):
        if k not in new:
            del old[k]
    for k, v in new.items():
        if isinstance(v, dict) and isinstance(old.get(k), dict):
            overwrite(old[k], v)
        else:
            old[k] = v

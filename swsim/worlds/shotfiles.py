"""Shot files: ingesting and stacking them (C07), exporting arrays to SU (C08)."""

import os
import pathlib
import struct

import numpy as np

from ..core import fs as fsmod
from ..core.ctx import where
from . import shots
from .common import mostly
from .opsworld import OpsWorld
from .records import amp_of
from .store import BENIGN, StoreBase


class MShot:
    """Reference model of an array of sensors."""

    def __init__(self, rows, dt, delay, nstacks, src):
        self.rows = sorted(rows, key=lambda r: r[0])        # (x, y, float64 amplitudes)
        self.dt, self.delay, self.nstacks = dt, delay, nstacks
        self.src = src

    def copy(self):
        return MShot([(x, y, a.copy()) for x, y, a in self.rows], self.dt, self.delay, self.nstacks, self.src)

    @property
    def n(self):
        return len(self.rows[0][2])

    def key(self):
        return ([(x, y, a.tobytes()) for x, y, a in self.rows], self.dt, self.delay, self.nstacks, self.src)

    def diff(self, arr, rtol=0.0, atol_x=1e-9, atol_t=1e-12):
        """None, or how the library's array differs."""
        if len(arr.sensors) != len(self.rows) or arr.nchannels != len(self.rows):
            return f"{len(arr.sensors)} sensors instead of {len(self.rows)}"
        scale = max([float(np.max(np.abs(a))) for _, _, a in self.rows] + [1e-30])
        for k, (x, y, amp) in enumerate(self.rows):
            s = arr.sensors[k]
            if abs(s.x - x) > atol_x or abs(s.y - y) > atol_x or abs(s.z) > atol_x:
                return f"sensor {k} at {(s.x, s.y, s.z)} instead of {(x, y, 0)}"
            if abs(s.dt - self.dt) > 1e-9 * self.dt:
                return f"sensor {k} dt {s.dt} instead of {self.dt}"
            if abs(s.delay - self.delay) > atol_t:
                return f"sensor {k} delay {s.delay} instead of {self.delay}"
            if s.nstacks != self.nstacks:
                return f"sensor {k} nstacks {s.nstacks} instead of {self.nstacks}"
            got = np.asarray(s.amplitude, dtype=float)
            if got.shape != amp.shape or s.nsamples != len(amp):
                return f"sensor {k} has {got.shape} samples instead of {amp.shape}"
            e = np.abs(got - amp)
            if not np.all(e <= rtol * scale):
                j = int(np.argmax(np.where(np.isnan(e), np.inf, e)))
                return f"sensor {k} (x={x}) sample {j}: {got[j]} instead of {amp[j]}"
            t = np.asarray(s.time)
            if t.shape != amp.shape or abs(t[0] - self.delay) > 1e-6 * self.dt + atol_t \
                    or abs(t[-1] - self.delay - (len(amp) - 1) * self.dt) > 1e-6 * self.dt + atol_t:
                return f"sensor {k} time {t[0]}..{t[-1]}"
        sx, sy = self.src
        if abs(arr.source.x - sx) > atol_x or abs(arr.source.y - sy) > atol_x:
            return f"source at {(arr.source.x, arr.source.y)} instead of {self.src}"
        return None


# -- C07 ---------------------------------------------------------------------

MAPX = {"id": lambda x: x, "shift": lambda x: x + 5.5, "flip": lambda x: -x, "feet": lambda x: 0.3048 * x,
        "far": lambda x: 1000 - 2 * x}
MAPY = {"id": lambda y: y, "shift": lambda y: y - 3.0, "flip": lambda y: -2 * y}


def gen_geometry(rng, fmt):
    """A line of receivers and a source, in units of `res` metres."""
    res = rng.choice([1, 1, 0.1, 0.01, 0.001, 10, 100]) if fmt != "SEG2" else rng.choice([1, 0.5, 0.001, 2.25])
    n = mostly(rng, [1, 2, 3, 4, 5, 8, 12], [24, 48, 96])
    start = rng.choice([0, 0, -7, 3, 40, 512])
    xs = [start]
    for _ in range(n - 1):
        xs.append(xs[-1] + (rng.choice([1, 2, 2, 5, 13]) if rng.random() < 0.5 else 2))
    ys = [rng.choice([0, 0, 3, -4])] * n if rng.random() < 0.6 else [rng.choice([0, 1, -2, 7]) for _ in range(n)]
    src = [rng.choice([xs[0] - 5, xs[-1] + 7, xs[0] + 1]), rng.choice([0, 0, 2])]
    return {"res": res, "xs": xs, "ys": ys, "src": src}


def scal_for(rng, res):
    """A coordinate scalar able to hold multiples of `res` exactly."""
    opts = {1: [1, 0, -10, -100, -1000], 0.1: [-10, -100, -1000], 0.01: [-100, -1000], 0.001: [-1000, -10000],
            10: [10, 1, -10], 100: [100, 10, 1, 0]}[res]
    return rng.choice(opts)


def header_int(k, res, scal):
    s = scal or 1
    m = round(k * res * 1000)         # exact: everything is a multiple of 1 mm
    return m * -s // 1000 if s < 0 else m // 1000 // s


def gen_shot(rng, fmt, geo=None, base=None):
    geo = geo or gen_geometry(rng, fmt)
    n = len(geo["xs"])
    order = list(range(n))
    r = rng.random()
    if r < 0.3:
        rng.shuffle(order)
    elif r < 0.5:
        order.reverse()
    s = {"fmt": fmt, "geo": geo, "order": order,
         "dt_us": rng.choice([1000, 500, 250, 2000, 125, 4000]), "n": mostly(rng, [5, 8, 20, 33, 64], [257, 1000, 4000]),
         "delay_ms": -rng.choice([0, 0, 0, 1, 10, 250, 500]),
         "stack": rng.choice([1, 1, 2, 3, 5, 10, 0 if fmt != "SEG2" else 1, rng.choice([64, 128, 250, 1000])]),
         "units": rng.choice([1, 1, 1, 0]), "aseed": rng.randrange(10**6), "kind": rng.choice(["int", "float", "pulse", "ramp"])}
    if fmt == "SU" and rng.random() < 0.1:      # exported after trimming
        s["delay_ms"] = rng.choice([1, 40, 500])
    s["scal"] = scal_for(rng, geo["res"]) if fmt != "SEG2" else 1
    if base:
        for k in ("dt_us", "n", "delay_ms", "kind"):
            s[k] = base[k]
    return s


def gather_of(s):
    """Arguments for the independent writer, and the meaning of the file."""
    geo, o, fmt = s["geo"], s["order"], s["fmt"]
    n = len(geo["xs"])
    amps = [amp_of({"aseed": s["aseed"] + 7919 * k, "n": s["n"], "kind": s["kind"]}).astype(np.float32)
            for k in range(n)]
    res = geo["res"]
    if fmt == "SEG2":
        xs = [round(geo["xs"][k] * res, 3) for k in o]
        src = (round(geo["src"][0] * res, 3), 0)
        ys, real_x, real_y, real_src = [0] * len(o), xs, [0.0] * len(o), (src[0], 0.0)
    else:
        xs = [header_int(geo["xs"][k], res, s["scal"]) for k in o]
        ys = [header_int(geo["ys"][k], res, s["scal"]) for k in o]
        src = tuple(header_int(v, res, s["scal"]) for v in geo["src"])
        real_x = [shots.scaled(v, s["scal"]) for v in xs]
        real_y = [shots.scaled(v, s["scal"]) for v in ys]
        real_src = tuple(shots.scaled(v, s["scal"]) for v in src)
    g = {"dt": s["dt_us"] * 1e-6, "n": s["n"], "delay": s["delay_ms"] / 1000, "stacks": [s["stack"]] * len(o),
         "scal": s["scal"], "src": src, "xs": xs, "ys": ys, "amps": [amps[k] for k in o], "units": s["units"]}
    rows = [(x, y, amps[k].astype(float)) for x, y, k in zip(real_x, real_y, o)]
    model = MShot(rows, g["dt"], g["delay"], max(1, s["stack"]), real_src)
    # One of the traces (not the first) recorded another source.
    other = (src[0] + 1, src[1]) if fmt == "SEG2" or len(o) % 2 else (src[0], src[1] - 1)
    g["srcs"] = {i: other for i, k in enumerate(o) if i and k == s.get("mixed")}
    model.mixed = bool(g["srcs"])
    if s.get("uneven"):
        g["stacks"][s["uneven"] % len(o)] += 1
    return g, model


TRACE = {"SU": 0, "SEGY": 3600}


class IngestWorld(OpsWorld):
    """C07."""
    rule = ("a case is a history of shot files appearing, being replaced or damaged, and of single and stacked reads of "
            "them with read faults; non-trivial if an array was read; distinct by event log")
    real = ["Array1D.from_files", "swprocess.sensor1c", "swprocess.activetimeseries", "obspy SU/SEGY/SEG2 readers"]
    stub = ["disk (faults of open and read)", "shot recorder (independent writers of SU, SEGY and SEG2 files)"]
    state_measure = "distinct (file contents, list of files, mappings) read"
    uses_fs = True
    assumptions = ["SU and SEGY files cut at the end of a trace are files with fewer traces"]

    def counts(self, tier):
        return {"quick": {"single": 700, "stack": 1200, "faulty": 700},
                "thorough": {"single": 9000, "stack": 20000, "faulty": 12000}}[tier]

    def generate(self, rng, config):
        fmt = rng.choice(["SU", "SU", "SEGY", "SEG2"])
        ops, specs = [], {}
        ext = {"SU": "su", "SEGY": "sgy", "SEG2": "dat"}[fmt]

        def put(name, s):
            specs[name] = s
            ops.append({"op": "write", "file": name, "spec": s})
        base = gen_shot(rng, fmt)
        names = [f"{k + 1}.{ext}" for k in range({"single": 2, "stack": mostly(rng, [2, 3, 4], [6, 11]), "faulty": 3}[config])]
        for k, name in enumerate(names):
            if k == 0:
                s = base
            elif config == "single":
                s = gen_shot(rng, fmt)
            else:
                s = gen_shot(rng, fmt, base["geo"], base)
            if rng.random() < 0.04:
                s["uneven"] = rng.randrange(1, 9)
            if rng.random() < 0.03:
                s["mixed"] = rng.choice(s["order"])
            put(name, s)
        for _ in range(rng.choice([2, 3, 5])):
            r = rng.random()
            if r < 0.3 and config != "single" or r < 0.15:      # replace by something else, or the right thing again
                name = rng.choice(names)
                put(name, self.variant(rng, fmt, base))
            if rng.random() < 0.25:
                ops.append({"op": "damage", "file": rng.choice(names),
                            "kind": rng.choice(["cut", "cut", "trace", "header", "garbage", "zeros", "missing", "empty"]),
                            "frac": rng.random()})
            m = 1 if config == "single" else mostly(rng, [1, 2, 2, 3, 4], [6, 11])
            files = [rng.choice(names) for _ in range(m)] if rng.random() < 0.3 else rng.sample(names, min(m, len(names)))
            if rng.random() < 0.03:
                files[rng.randrange(len(files))] = "absent.dat"
            op = {"op": "read", "files": files, "how": rng.choice(["list", "tuple", "one", "paths"]),
                  "mapx": rng.choice(["id", "id", "id", "shift", "flip", "feet", "far"]),
                  "mapy": rng.choice(["id", "id", "shift", "flip"])}
            if rng.random() < 0.15:
                op["options"] = rng.choice([{}, {"format": fmt}, {"format": fmt, "headonly": False}])
            if config == "faulty" and rng.random() < 0.8:
                f = fsmod.rand_fault(rng, fsmod.READ_FAULTS)
                f["at"] = rng.choice([0, 1, 2, 3, 5, 8, 9, 10, 12, 14, 16, 20, 25, 30, 40])
                f["path"] = rng.choice(files)
                op["faults"] = [f]
            ops.append(op)
            if op.get("faults") or rng.random() < 0.15:
                ops.append({k: v for k, v in op.items() if k != "faults"})
        return {"ops": ops, "tuning": {"buffer": rng.choice([32, 256, 8192])}}

    def variant(self, rng, fmt, base):
        """A file which differs from the others in one respect (or none)."""
        s = gen_shot(rng, fmt, base["geo"], base)
        g = {k: (list(v) if isinstance(v, list) else v) for k, v in base["geo"].items()}
        n = len(g["xs"])
        k = rng.choice(["none", "source", "sourcey", "moved", "movedy", "fewer", "more", "n", "dt", "delay", "samex", "order"])
        if k == "source":
            g["src"][0] += rng.choice([-1, 1])
        elif k == "sourcey" and fmt != "SEG2":
            g["src"][1] += 1
        elif k == "moved":
            j = rng.randrange(n)
            g["xs"][j] = max(g["xs"]) + 3 if rng.random() < 0.4 else g["xs"][j] + 1
        elif k == "movedy" and fmt != "SEG2":
            g["ys"][rng.randrange(n)] += 1
        elif k == "fewer" and n > 1:
            del s["order"][rng.randrange(n)]
        elif k == "more":
            g["xs"].append(max(g["xs"]) + 2)
            g["ys"].append(g["ys"][0])
            s["order"].insert(rng.randrange(n + 1), n)
        elif k == "n":
            s["n"] += rng.choice([-1, 1])
        elif k == "dt":
            s["dt_us"] *= 2
        elif k == "delay":
            s["delay_ms"] -= rng.choice([1, 5])
        elif k == "samex" and n > 1:
            s["order"].append(s["order"][0])
        s["geo"] = g
        return s

    def setup(self, ctx, plan, fs):
        self.files = {}             # name -> (bytes, MShot or None: must be refused, format)

    def put(self, ctx, name, data):
        with fsmod.quiet():
            p = os.path.join(ctx.scratch, name)
            if data is None:
                if os.path.exists(p):
                    os.unlink(p)
                return
            with open(p, "wb") as f:
                f.write(data)

    def op_write(self, ctx, op):
        g, model = gather_of(op["spec"])
        data = shots.gather_bytes(op["spec"]["fmt"], g)
        self.put(ctx, op["file"], data)
        model.doubt = op["spec"].get("uneven") is not None
        xs = [r[0] for r in model.rows]
        model.doubt |= len(set(xs)) != len(xs)
        self.files[op["file"]] = (data, model, op["spec"], g)
        return len(data)

    def op_damage(self, ctx, op):
        if op["file"] not in self.files:
            return "none"
        data, model, spec, g = self.files[op["file"]]
        if not isinstance(model, MShot) or data is None:
            return "none"
        if len(data) != len(shots.gather_bytes(spec["fmt"], g)):
            return "damaged already"
        fmt, kind = spec["fmt"], op["kind"]
        ntr = len(spec["order"])
        size = 240 + 4 * spec["n"]
        new, meaning = data, None
        if kind == "trace" and fmt != "SEG2" and ntr > 1:
            keep = 1 + int(op["frac"] * (ntr - 1))
            new = data[:TRACE[fmt] + keep * size]
            part = dict(spec, order=spec["order"][:keep])
            meaning = gather_of(part)[1]
            meaning.doubt = model.doubt
        elif kind == "header" and fmt != "SEG2" and ntr > 1:
            keep = 1 + int(op["frac"] * (ntr - 1))
            new = data[:TRACE[fmt] + keep * size + 1 + int(op["frac"] * 238)]
            meaning = "header"
        elif kind == "garbage":
            k = min(len(data) - 1, int(op["frac"] * 60))
            new = bytes((b ^ 0xA5) for b in data[:200 + k])
        elif kind == "zeros":
            new = bytes(len(data) // 2)
        elif kind == "missing":
            new = None
        elif kind == "empty":
            new = b""
        else:
            new = data[:int(op["frac"] * len(data))]
            if fmt != "SEG2" and len(new) > TRACE[fmt] and (len(new) - TRACE[fmt]) % size < 241:
                if (len(new) - TRACE[fmt]) % size in (0, 240):
                    new = new[:-100]
                if 0 < (len(new) - TRACE[fmt]) % size < 240 and len(new) - TRACE[fmt] > size:
                    meaning = "header"
            if fmt == "SEG2" and ntr == 1 and len(new) < len(data):
                meaning = "samples"
        self.put(ctx, op["file"], new)
        self.files[op["file"]] = (new, meaning, spec, g)
        return kind

    def op_read(self, ctx, op):
        import swprocess
        fx, fy = MAPX[op["mapx"]], MAPY[op["mapy"]]
        known = [self.files.get(f) for f in op["files"]]
        paths = [os.path.join(ctx.scratch, f) for f in op["files"]]
        how = op["how"]
        if len(paths) == 1 and how in ("one", "paths"):
            arg = paths[0] if how == "one" else pathlib.Path(paths[0])
        else:
            arg = [pathlib.Path(p) for p in paths] if how == "paths" else tuple(paths) if how == "tuple" else list(paths)
        before = sum(n for k, n in ctx.faults_fired.items() if k != "read-short")
        options = {} if op.get("options") is None else {"obspy_read_kwargs": dict(op["options"])}
        out = ctx.call(swprocess.Array1D.from_files, arg, map_x=fx, map_y=fy, **options)
        ctx.check(options.get("obspy_read_kwargs") == op.get("options"), "the options passed were changed", lambda: f"{options}")
        fired = sum(n for k, n in ctx.faults_fired.items() if k != "read-short") > before
        self.fs.faults = []
        for f, k in zip(op["files"], known):
            if k and k[0] is not None:
                with fsmod.quiet(), open(os.path.join(ctx.scratch, f), "rb") as h:
                    ctx.check(h.read() == k[0], "reading changed the file", f)
        if any(k is None or k[1] is None for k in known):
            ctx.check(not out.ok, "damaged or missing file accepted",
                      lambda: f"{op['files']}: {[k and k[2]['fmt'] for k in known]}")
            ctx.probe("damaged file refused")
            return out.name()
        if any(k[1] == "header" for k in known):
            fmt = known[0][2]["fmt"]
            ctx.check(not out.ok, f"{fmt} file cut inside a trace header accepted", lambda: f"{op['files']}")
            ctx.probe("damaged file refused")
            return out.name()
        if any(k[1] == "samples" for k in known):
            ctx.check(not out.ok, "truncated SEG2 file of one trace accepted", lambda: f"{op['files']}")
            ctx.probe("damaged file refused")
            return out.name()
        want, refuse = self.stacked(known, fx, fy)
        if any(k[1].mixed for k in known):
            refuse = "sources of the traces"
        doubt = any(k[1].doubt for k in known)
        if not out.ok:
            if not (fired or refuse or doubt):
                ctx.violation(f"readable files refused: {type(out.exc).__name__}", f"{op}: {where(out.exc)}: {out.exc}")
            ctx.probe("read fault raised" if fired else "mismatch refused" if refuse else "uneven file refused")
            return out.name()
        ctx.check(refuse is None, "files which do not match were stacked", lambda: f"{op['files']}: {refuse}")
        if doubt and want is None:
            return "doubt"
        d = ctx.observe(lambda: want.diff(out.value, rtol=0 if len(known) == 1 else 2e-6), "array")
        ctx.check(d is None, "array differs from the recorded " + ("shot" if len(known) == 1 else "shots"),
                  lambda: f"{op['files']} map {op['mapx']}/{op['mapy']}: {d}")
        ctx.nontrivial = True
        ctx.probe("read ok despite fault" if fired else "single read" if len(known) == 1 else "stacked read")
        ctx.state((op["mapx"], op["mapy"], [k[1].key() for k in known]))
        return want.nstacks

    def stacked(self, known, fx, fy):
        """Model of the result, and why it must be refused instead (or None)."""
        def mapped(m):
            return MShot([(fx(x), fy(y), a) for x, y, a in m.rows], m.dt, m.delay, m.nstacks,
                         (fx(m.src[0]), fy(m.src[1])))
        ms = [mapped(k[1]) for k in known]
        a = ms[0]
        if any(k[1].doubt for k in known):
            return None, None
        acc = [amp * a.nstacks for _, _, amp in a.rows]
        total = a.nstacks
        for m in ms[1:]:
            if m.src != a.src:
                return None, "source"
            if len(m.rows) != len(a.rows):
                return None, "number of sensors"
            if [r[:2] for r in m.rows] != [r[:2] for r in a.rows]:
                return None, "positions"
            if (m.n, m.dt, m.delay) != (a.n, a.dt, a.delay):
                return None, "samples, time step or delay"
            acc = [s + r[2] * m.nstacks for s, r in zip(acc, m.rows)]
            total += m.nstacks
        rows = [(x, y, s / total) for (x, y, _), s in zip(a.rows, acc)]
        if len(ms) == 1:
            rows = a.rows
        return MShot(rows, a.dt, a.delay, total, a.src), None

    def shrink(self, plan):
        import copy
        for i, op in enumerate(plan["ops"]):
            if op["op"] == "read" and (op["mapx"], op["mapy"]) != ("id", "id"):
                q = copy.deepcopy(plan)
                q["ops"][i].update(mapx="id", mapy="id")
                yield q
            if op["op"] == "read" and len(op["files"]) > 1:
                q = copy.deepcopy(plan)
                q["ops"][i]["files"].pop()
                yield q


# -- C08 ---------------------------------------------------------------------

class ExportWorld(StoreBase):
    """C08: arrays exported to SU under faults, restarts and re-export."""
    tidy = True
    real = ["Array1D.to_file", "Array1D.from_files", "swprocess.fileio", "swprocess.sensor1c", "obspy SU writer and reader",
            "io buffering"]
    rule = ("a case is a history of making, editing, exporting, reading back and re-exporting arrays over several files and "
            "process lifetimes with faults placed in the file calls or library lines of each export; non-trivial if an "
            "export completed or was resolved to old or new after a fault; distinct by event log")
    state_measure = "distinct (file contents as models, arrays in memory) tuples"

    def counts(self, tier):
        q = {"healthy": 500, "crash": 500, "power": 500, "diskfault": 500, "interrupt": 400}
        return q if tier == "quick" else {k: v * 15 for k, v in q.items()}

    def generate(self, rng, config):
        kinds = {"healthy": [], "crash": ["crash"], "power": ["power"],
                 "diskfault": ["enospc", "eio", "emfile", "eacces", "erofs", "short"],
                 "interrupt": ["kbi", "memory"]}[config]
        files = rng.sample(["a.su", "b.su", "sub/c.su", "d e.su"], rng.choice([1, 2, 2, 3]))
        ops, slots, written = [], [], []

        def make():
            n = mostly(rng, [1, 2, 3, 5, 9], [24, 48])
            step = rng.choice([0.5, 1, 2, 0.125, 3.3])
            x0 = rng.choice([0, 0, -12.5, 5.0004, 1234.5678, 0.3])
            xs = [x0 + step * k for k in range(n)]
            if rng.random() < 0.3:
                xs = [x + rng.uniform(0, 0.4) * step for x in xs]
            order = list(range(n))
            if rng.random() < 0.4:
                rng.shuffle(order)
            nsamp = mostly(rng, [5, 12, 40, 200], [257, 1000, 5000])
            dt_us = mostly(rng, [1000, 500, 250, 2000, 125, 200], [62.4, 1e6 / 3000, 333.25, 251])
            if rng.random() < 0.008:        # beyond what the reader recognises by itself
                n, xs, order = 1, xs[:1], [0]
                if rng.random() < 0.5:
                    nsamp = rng.choice([32767, 32768, 40000])
                else:
                    dt_us = rng.choice([32767, 32768, 40000])
            slot = "p%d" % len(slots)
            slots.append(slot)
            ops.append({"op": "make", "slot": slot, "xs": [xs[k] for k in order],
                        "ys": [rng.choice([0, 0, 0.25, -3.1]) for _ in xs], "n": nsamp, "dt_us": dt_us,
                        "delay": -rng.choice([0, 0, 0.01, 0.25, 0.0005, 0.5, 0.1234]), "nstacks": rng.choice([1, 1, 2, 3, 10, 100]),
                        "src": [rng.choice([x0 - 5, x0 + 100, x0 - 0.6251, -5.5]), rng.choice([0, 0, 1.5])],
                        "aseed": rng.randrange(10**6), "kind": rng.choice(["int", "float", "pulse", "ramp"])})
        for _ in range(rng.choice([1, 1, 2])):
            make()
        n = rng.randint(3, 9)
        while len(ops) < n:
            k = rng.choices(["make", "export", "read", "edit", "restart"], [0.7, 5, 2.5, 2, 0.6])[0]
            if k == "make":
                make()
                continue
            op = {"op": k, "path": rng.choice(["abs", "rel"])}
            if k == "export":
                op.update(slot=rng.choice(slots) if rng.random() < 0.5 else slots[-1], file=rng.choice(files))
                written.append(op["file"])
                if kinds and rng.random() < 0.6:
                    if rng.random() < (0.6 if config == "interrupt" else 0):
                        op["line"] = {"at": rng.choice([0, 1, 2, 3, 5, 8, 12, 20, 40, 70]), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}
                    else:
                        op["faults"] = [fsmod.rand_fault(rng, kinds) for _ in range(rng.choice([1, 1, 2]))]
            elif k == "read":
                if not written:
                    continue
                op["file"] = rng.choice(written)
                op["slot"] = "p%d" % len(slots)
                slots.append(op["slot"])
            elif k == "edit":
                op["slot"] = rng.choice(slots)
                op["how"] = rng.choice(["trim", "detrend", "stack", "pad", "offsets", "mute"])
                op["a"], op["b"] = sorted([rng.random(), rng.random()])
            ops.append(op)
            if k == "export" and (op.get("faults") or op.get("line")) and rng.random() < 0.6:
                ops.append({a: b for a, b in op.items() if a not in ("faults", "line")})
        return {"ops": ops, "tuning": {"buffer": rng.choice([64, 256, 1024, 8192])}, "files": files,
                "foreign": rng.choice([{}, {"notes.txt": "keep me"}, {"z.su": "x" * 77, "sub/keep.bin": "x" * 50}])}

    # -- the array in memory, observed exactly ------------------------------
    @staticmethod
    def snap(a):
        return ([(s.x, s.y, s.z, s.dt, s.delay, s.nstacks, s.nsamples, s.df, np.array(s.amplitude).tobytes())
                 for s in a.sensors], (a.source.x, a.source.y, a.source.z))

    def same_in_memory(self, ctx, slots=None):
        for s, a in self.objs.items():
            now = ctx.observe(lambda: self.snap(a), "array")
            ctx.check(now == self.models[s][0], "array in memory changed", s)

    def meaning(self, a):
        """What the format keeps of an array."""
        def mm(v):
            return round(v * 1000) / 1000
        rows = [(s.x, s.y, np.asarray(s.amplitude, dtype=np.float32).astype(float)) for s in a.sensors]
        s = a.sensors[0]
        return MShot(rows, round(s.dt * 1e6) / 1e6, s.delay, s.nstacks, (a.source.x, a.source.y))

    def load(self, ctx, name):
        import swprocess
        saved, self.fs.faults = self.fs.faults, []
        path = os.path.join(ctx.scratch, name)
        out = ctx.call(swprocess.Array1D.from_files, path)
        self.unrecognised = False
        if not out.ok:
            head = (self.read_bytes(ctx, name) or b"")[:240]
            if len(head) == 240 and max(struct.unpack_from(">HH", head, 114)) > 32767:
                again = ctx.call(swprocess.Array1D.from_files, path, obspy_read_kwargs={"format": "SU", "byteorder": ">"})
                if again.ok:
                    self.unrecognised, out = True, again
        self.fs.faults = saved
        return out

    def match(self, ctx, name, entries, what):
        out = self.load(ctx, name)
        if not out.ok:
            return f"{what}: cannot be read: {where(out.exc)}: {out.exc}"
        return ctx.observe(lambda: entries[0].diff(out.value, atol_x=0.000501, atol_t=0.000501), what)

    # -- operations ---------------------------------------------------------
    def op_make(self, ctx, model, op):
        import swprocess

        def build():
            sensors = [swprocess.Sensor1C(amp_of({"aseed": op["aseed"] + 31 * k, "n": op["n"], "kind": op["kind"]}),
                                          op["dt_us"] * 1e-6, x, y, 0, nstacks=op["nstacks"], delay=op["delay"])
                       for k, (x, y) in enumerate(zip(op["xs"], op["ys"]))]
            return swprocess.Array1D(sensors, swprocess.Source(op["src"][0], op["src"][1], 0))
        self.objs[op["slot"]] = a = ctx.must(build, what="Array1D()")
        self.models[op["slot"]] = [Snap(self.snap(a))]

    def need(self, model, ctx, slot):
        if slot in self.objs:
            return True
        for op in self.plan["ops"][:model["i"]]:
            if op.get("slot") == slot and op["op"] == "make":
                self.op_make(ctx, model, op)
                return True
        return False

    def op_edit(self, ctx, model, op):
        """Ordinary edits between exports (their own effects are C12's)."""
        import swprocess
        if not self.need(model, ctx, op["slot"]):
            return
        a = self.objs[op["slot"]]
        t = np.asarray(a.sensors[0].time)
        i, j = int(op["a"] * len(t)), int(op["b"] * (len(t) - 1))
        if op["how"] == "trim":
            if j <= i + 2:
                return
            ctx.call(a.trim, float(t[i]), float(t[j]))
        elif op["how"] == "detrend":
            for s in a.sensors:
                ctx.call(s.detrend)
        elif op["how"] == "stack":
            other = swprocess.Array1D.from_array1d(a)
            for s, o in zip(a.sensors, other.sensors):
                ctx.call(s.stack_append, o)
        elif op["how"] == "pad":
            ctx.call(a.zero_pad, 1 / (a.sensors[0].dt * (len(t) + 1 + int(op["a"] * 20))))
        elif op["how"] == "offsets":
            ctx.call(a.trim_offsets, op["a"] * 5, 5 + op["b"] * 200)
        elif op["how"] == "mute":
            x = a.position()
            ctx.call(a.mute, signal_start=((x[0], float(t[i])), (x[-1] + 1, float(t[i]))))
        self.models[op["slot"]] = [Snap(self.snap(a))]
        ctx.probe("edit " + op["how"])

    def op_export(self, ctx, model, op):
        if not self.need(model, ctx, op["slot"]):
            return
        a = self.objs[op["slot"]]
        if len({round(s.x * 1000) for s in a.sensors}) != len(a.sensors):
            return
        self.writer(ctx, model, op, lambda: a.to_file(self.path(ctx, op)), [self.meaning(a)])

    def op_read(self, ctx, model, op):
        """Read back; the copy may be edited and exported again."""
        if op["file"] not in model["files"]:
            return
        out = self.load(ctx, op["file"])
        ctx.check(out.ok, "exported file cannot be read", lambda: f"{op['file']}: {out.exc!r}")
        want = model["files"][op["file"]][0]
        d = ctx.observe(lambda: want.diff(out.value, atol_x=0.000501, atol_t=0.000501), "array")
        ctx.check(d is None, "read back another array", lambda: f"{op['file']}: {d}")
        ctx.check(not self.unrecognised, "exported file of more than 32767 samples (or microseconds between them) not recognised",
                  lambda: f"{op['file']}: {want.n} samples of {want.dt} s")
        self.objs[op["slot"]] = out.value
        self.models[op["slot"]] = [Snap(self.snap(out.value))]
        # Exporting what was read back changes nothing further.
        copy = "again.su"
        with fsmod.quiet():
            ctx.must(out.value.to_file, os.path.join(ctx.scratch, copy), what="re-export")
            b = self.load(ctx, copy)
            ctx.check(b.ok, "re-exported file cannot be read", lambda: repr(b.exc))
            ctx.check(self.snap(b.value) == self.snap(out.value), "re-exporting changes the array",
                      lambda: f"{op['file']}")
            os.unlink(os.path.join(ctx.scratch, copy))
        ctx.probe("read back and re-exported")

    def shrink(self, plan):
        import copy
        for i, op in enumerate(plan["ops"]):
            if op["op"] == "make" and len(op["xs"]) > 1:
                q = copy.deepcopy(plan)
                q["ops"][i]["xs"] = op["xs"][:1]
                q["ops"][i]["ys"] = op["ys"][:1]
                yield q
        if plan["foreign"]:
            yield dict(plan, foreign={})


class Snap(tuple):
    """An array as observed; the file models have key(), so do these."""

    def __new__(cls, t):
        return super().__new__(cls, t)

    def key(self):
        return tuple(self)

    def __eq__(self, other):
        return tuple(self) == tuple(other)

    __hash__ = None

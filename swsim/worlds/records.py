"""Histories of edits of time records and arrays of them (C12)."""

import numpy as np

from .common import mostly
from .opsworld import OpsWorld


def amp_of(spec):
    """Amplitudes from their JSON description."""
    r = np.random.RandomState(spec["aseed"])
    n, kind = spec["n"], spec["kind"]
    if kind == "int":
        a = r.randint(-9, 10, n).astype(float)
    elif kind == "ramp":
        a = np.arange(n) * 0.5 + r.randn(n)
    elif kind == "pulse":
        a = np.zeros(n)
        a[r.randint(0, n)] = 3.0
    else:
        a = r.randn(n) * 10.0 ** r.randint(-6, 7)
    return a


class MRec:
    def __init__(self, amp, dt, delay=0.0, nstacks=1, pos=None):
        self.amp = np.array(amp, dtype=float)
        self.dt, self.delay, self.nstacks, self.pos = dt, float(delay), nstacks, pos
        self.multiple = 1           # None: not specified any more
        self.scale = max(1e-300, float(np.max(np.abs(self.amp))))

    def copy(self):
        m = MRec(self.amp, self.dt, self.delay, self.nstacks, self.pos)
        m.multiple, m.scale = self.multiple, self.scale
        return m

    @property
    def n(self):
        return len(self.amp)

    def time(self):
        return np.arange(self.n) * self.dt + self.delay

    def similar(self, o):
        return (self.dt, self.delay, self.n) == (o.dt, o.delay, o.n)

    def trim(self, i, j, t):
        self.amp = self.amp[i:j + 1].copy()
        self.delay = float(t)
        if self.multiple != 1:
            self.multiple = None

    def detrend(self):
        x = np.arange(self.n) - (self.n - 1) / 2
        slope = np.sum(x * self.amp) / np.sum(x * x)
        self.amp = self.amp - np.mean(self.amp) - slope * x

    def pad(self, want):
        if want >= self.n:
            extra, self.multiple = want - self.n, 1
        else:
            self.multiple = -(-self.n // want)
            extra = self.multiple * want - self.n
        self.amp = np.concatenate([self.amp, np.zeros(extra)])

    def stack(self, o):
        a, b = self.nstacks, o.nstacks
        self.amp = (self.amp * a + o.amp * b) / (a + b)
        self.nstacks = a + b
        self.scale = max(self.scale, o.scale)

    def diff(self, r):
        """None if library record `r` is as modelled, or what differs."""
        if r.dt != self.dt:
            return f"dt {r.dt} != {self.dt}"
        if r.nsamples != self.n or np.shape(r.amplitude) != (self.n,):
            return f"{r.nsamples} samples, amplitudes {np.shape(r.amplitude)}, expected {self.n}"
        if r.nstacks != self.nstacks:
            return f"nstacks {r.nstacks} != {self.nstacks}"
        if abs(r.delay - self.delay) > 1e-9 * self.dt:
            return f"delay {r.delay} != {self.delay}"
        t = np.asarray(r.time)
        if t.shape != (self.n,) or np.max(np.abs(t - self.time())) > 1e-6 * self.dt:
            return f"time vector {t[:3]}...{t[-2:]} != {self.time()[:3]}...{self.time()[-2:]}"
        e = np.abs(np.asarray(r.amplitude) - self.amp)
        if not np.all(e <= 1e-9 * self.scale):
            k = int(np.argmax(np.where(np.isnan(e), np.inf, e)))
            return f"sample {k} at {t[k]}: {r.amplitude[k]} != {self.amp[k]}"
        if self.multiple is not None:
            df = self.multiple / (self.n * self.dt)
            if abs(r.df - df) > 1e-9 * df:
                return f"frequency step {r.df} != {df}"
        if self.pos is not None and (r.x, r.y, r.z) != tuple(self.pos):
            return f"position {(r.x, r.y, r.z)} != {self.pos}"
        return None


def gen_delay(rng, rec):
    """A pre-trigger delay; some are no exact multiple of the time step in floating point."""
    k = rng.choice([0, 1, 2, 3, 5, 7, rng.randrange(rec["n"]), rng.choice([43, 51, 59, 71, 86])])
    if k >= rec["n"]:
        k = 3
    return -rng.choice([k * rec["dt"], round(k * rec["dt"], 9)])


def mute_model(sensors, start, stop, alpha):
    """Zero outside the window between two lines; None if ambiguous."""
    def index(line, m):
        (x1, t1), (x2, t2) = line
        t = t1 + (t2 - t1) / (x2 - x1) * (m.pos[0] - x1)
        k = (t - m.delay) / m.dt
        if abs(k - round(k)) < 1e-6:
            raise ArithmeticError
        return int(np.floor(k)) if k >= 0 else 0
    out = []
    try:
        for m in sensors:
            a = index(start, m) if start else 0
            b = index(stop, m) if stop else m.n - 1
            a = min(max(a, 0), m.n)
            b = min(max(b, a), m.n)
            out.append((a, b))
    except ArithmeticError:
        return None
    return out


def apply_mute(m, a, b, alpha):
    from scipy.signal.windows import tukey
    w = np.zeros(m.n)
    if b > a:
        w[a:b] = tukey(b - a, alpha)
    m.amp = m.amp * w


class MArr:
    def __init__(self, sensors, src):
        self.sensors = sorted(sensors, key=lambda m: m.pos[0])
        self.src = tuple(float(v) for v in src)

    def copy(self):
        return MArr([m.copy() for m in self.sensors], self.src)

    def diff(self, a):
        if len(a.sensors) != len(self.sensors) or a.nchannels != len(self.sensors):
            return f"{len(a.sensors)} sensors != {len(self.sensors)}"
        for k, m in enumerate(self.sensors):
            d = m.diff(a[k])
            if d:
                return f"sensor {k}: {d}"
        if (a.source.x, a.source.y, a.source.z) != self.src:
            return f"source {a.source} != {self.src}"
        xs = [m.pos[0] for m in self.sensors]
        if list(a.position()) != xs:
            return f"positions {a.position()}"
        if list(a.position(normalize=True)) != [x - xs[0] for x in xs]:
            return f"normalized positions {a.position(normalize=True)}"
        if list(a.offsets) != [abs(self.src[0] - x) for x in xs]:
            return f"offsets {a.offsets}"
        return None


class RecordWorld(OpsWorld):
    """C12."""
    real = ["swprocess.activetimeseries", "swprocess.sensor1c", "swprocess.array1d", "sigpropy", "numpy", "scipy"]
    stub = ["interrupts (raised at chosen lines of the library)"]
    rule = ("a case is a history of edits (trim, detrend, pad, stack, cross-correlation stack, mute, offset selection, copy, "
            "compare, refused and interrupted edits) over several records and arrays; non-trivial if an edit changed a "
            "record; distinct by event log")
    state_measure = "distinct digests of all records (samples, delay, stacks, padding) after each operation"
    assumptions = ["times given to trim are not halfway between samples", "interrupted edits are only required to leave other objects unchanged"]

    def counts(self, tier):
        q = {"records": 1500, "arrays": 1500, "mixed": 1500, "interrupted": 700}
        return q if tier == "quick" else {k: v * 20 for k, v in q.items()}

    # -- generation --------------------------------------------------------
    def gen_rec(self, rng, base=None):
        if base is not None and rng.random() < 0.8:
            s = dict(base, aseed=rng.randrange(10**6), nstacks=rng.choice([1, 1, 2, 3, 5]))
            if rng.random() < 0.15:
                s["n"] += rng.choice([-1, 1, 3])
            if rng.random() < 0.1:
                s["delay"] = gen_delay(rng, s)
            return s
        n = mostly(rng, [6, 7, 12, 16, 25, 40, 60], [200, 1000])
        dt = rng.choice([0.001, 0.002, 0.0005, 0.01, 0.5, 1 / 3, 0.004])
        s = {"n": n, "dt": dt, "delay": 0.0, "nstacks": rng.choice([1, 1, 2, 3, 7]),
             "aseed": rng.randrange(10**6), "kind": rng.choice(["int", "ramp", "pulse", "float"])}
        s["delay"] = rng.choice([0.0, gen_delay(rng, s)])
        return s

    def gen_arr(self, rng, base=None):
        rec = self.gen_rec(rng, base and base["rec"])
        nch = len(base["xs"]) if base and rng.random() < 0.8 else mostly(rng, [1, 2, 3, 4, 6, 9], [24, 48])
        if base and rng.random() < 0.8 and nch == len(base["xs"]):
            xs = list(base["xs"])
        else:
            step = rng.choice([1, 2, 0.5, 1.5])
            xs = [round(rng.choice([0, 0, 10, -7]) + step * k + (rng.choice([0, 0.1]) if k else 0), 3) for k in range(nch)]
            xs = sorted(set(xs))
            if rng.random() < 0.5:
                rng.shuffle(xs)
        src = base["src"] if base and rng.random() < 0.8 else \
            rng.choice([min(xs) - rng.choice([1, 5.5, 20]), max(xs) + rng.choice([1, 5.5, 20]), rng.uniform(min(xs), max(xs))])
        return {"rec": rec, "xs": xs, "src": src}

    def generate(self, rng, config):
        ops, recs, arrs = [], [], []
        base, abase = self.gen_rec(rng), None

        def rec():
            slot = "r%d" % len(recs)
            nonlocal base
            spec = self.gen_rec(rng, base)
            recs.append(slot)
            ops.append({"op": "rec", "slot": slot, "spec": spec,
                        "pos": [rng.choice([0, 1, 2.5]), 0, 0] if rng.random() < 0.4 else None})

        def arr():
            nonlocal abase
            slot = "a%d" % len(arrs)
            spec = self.gen_arr(rng, abase)
            abase = abase or spec
            arrs.append(slot)
            ops.append({"op": "arr", "slot": slot, "spec": spec})
        if config != "arrays":
            for _ in range(rng.randint(1, 3)):
                rec()
        if config != "records":
            for _ in range(rng.randint(1, 2)):
                arr()
        n = rng.randint(6, 22)
        while len(ops) < n:
            k = rng.choices(["rec", "arr", "trim", "trim_bad", "detrend", "pad", "pad_bad", "stack", "copy", "mute",
                             "mute_bad", "offsets", "eq", "xstack", "matrix", "bad_make"],
                            [1, 1, 5, 2, 2, 4, 1.5, 4, 4, 4, 1, 3, 2, 2, 1, 1])[0]
            if k == "rec":
                rec() if config != "arrays" else None
                continue
            if k == "arr":
                arr() if config != "records" else None
                continue
            op = {"op": k}
            pool = arrs if k in ("mute", "mute_bad", "offsets", "matrix") else recs + arrs
            if k in ("stack", "xstack") and not recs:
                op["slot"], op["other"] = rng.choice(arrs), rng.choice(arrs)
                op["k"], op["k2"] = rng.randrange(9), rng.randrange(9)
            elif k == "bad_make":
                op.update(what=rng.choice(["delay", "nstacks", "similar", "samex", "bool"]))
            elif not pool:
                continue
            else:
                op["slot"] = rng.choice(pool)
            if k == "stack" and "other" not in op:
                op["slot"] = rng.choice(recs + arrs)
                op["other"] = rng.choice(recs + arrs)
                op["k"] = op["k2"] = rng.randrange(9)
                if rng.random() < 0.2:
                    op["k2"] = rng.randrange(9)
            if k == "xstack" and "other" not in op:
                op["other"] = rng.choice(recs + arrs)
                op["slot"] = rng.choice(recs + arrs)
                op["k"], op["k2"] = rng.randrange(9), rng.randrange(9)
            if k == "xstack":
                op["new"] = "r%d" % len(recs)
                recs.append(op["new"])
            if k == "eq":
                op["other"] = rng.choice(recs + arrs)
            if k == "copy":
                if op["slot"][0] == "a" and rng.random() < 0.7:
                    op["new"] = "a%d" % len(arrs)
                    arrs.append(op["new"])
                else:
                    op["new"] = "r%d" % len(recs)
                    recs.append(op["new"])
                    op["how"] = rng.choice(["same", "same", "ats", "sensor"])
                    op["k"] = rng.randrange(9)
                    op["pos"] = [rng.choice([0, 3.5]), 1, 2]
            if k == "trim":
                a, b = sorted([rng.random(), rng.random()])
                if rng.random() < 0.3:
                    a = 0.0
                if rng.random() < 0.3:
                    b = 0.999999
                op.update(a=a, b=b)
                if rng.random() < 0.3:      # between two samples
                    op["off"] = [rng.choice([0, rng.uniform(-0.45, 0.45)]), rng.choice([0, rng.uniform(-0.45, 0.45)])]
            if k == "trim_bad":
                op["how"] = rng.choice(["early", "late", "swapped", "same", "both"])
            if k == "pad":
                op.update(how=rng.choice(["more", "more", "less", "same", "divide", "multiple"]), by=rng.randint(1, 30))
            if k == "pad_bad":
                op["df"] = rng.choice(["zero", "negative", "huge", "text"])
            if k in ("mute",):
                where = rng.choice(["before", "after", "both", "both"])
                op["where"] = where
                op["lines"] = [[rng.uniform(-0.3, 1.2), rng.uniform(-0.3, 1.2)] for _ in range(2)]
                if rng.random() < 0.6:
                    op["lines"] = [[rng.uniform(0, 0.4), rng.uniform(0, 0.4)], [rng.uniform(0.6, 1.0), rng.uniform(0.6, 1.0)]]
                op["alpha"] = rng.choice([None, None, 0.0, 0.5, 1.0])
                op["xs"] = [rng.uniform(-2, 3), rng.uniform(4, 12)]
                if rng.random() < 0.3:
                    op["xs"].reverse()
            if k == "offsets":
                op.update(lo=rng.choice([0, 0, 1, 3, -1]) + rng.choice([0, 0.25]), hi=rng.choice([2, 5, 9, 30, 100, 0.1]),
                          tie=rng.random() < 0.3, k=rng.randrange(9))
            if k == "matrix":
                op.update(detrend=rng.random() < 0.4, normalize=rng.choice(["none", "each", "all"]))
            if config == "interrupted" and k in ("trim", "detrend", "pad", "stack", "copy", "mute", "offsets", "eq", "xstack") \
                    and rng.random() < 0.4:
                op["line"] = {"at": rng.choice([0, 1, 2, 3, 5, 8, 12, 20, 40]), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}
            ops.append(op)
        return {"ops": ops}

    # -- execution ---------------------------------------------------------
    def setup(self, ctx, plan, fs):
        self.obj, self.mod = {}, {}

    def after(self, ctx, op):
        key = []
        for slot, m in self.mod.items():
            d = ctx.observe(lambda: m.diff(self.obj[slot]), "looking at a record")
            ctx.check(d is None, f"record differs after {op['op']}", lambda: f"{slot}: {d}")
            for r in (m.sensors if slot[0] == "a" else [m]):
                key.append((slot, r.amp.tobytes(), r.delay, r.nstacks, r.multiple))
        ctx.state(key)

    def run(self, ctx, op, fn, *args, touches=(), **kwargs):
        """Call; after an interrupt forget the objects being edited."""
        out = ctx.call(fn, *args, line_fault=op.get("line"), **kwargs)
        if op.get("line") and isinstance(out.exc, (KeyboardInterrupt, MemoryError)):
            for t in touches:
                self.obj.pop(t, None)
                self.mod.pop(t, None)
            ctx.probe("edit interrupted")
            return None
        return out

    def judge(self, ctx, out, ok, kinds, what):
        if out is None:
            return False
        if ok:
            ctx.check(out.ok, f"{what}: unexpected {out.name()}", lambda: repr(out.exc))
            ctx.nontrivial = True
            return True
        ctx.check(not out.ok, f"{what}: not refused")
        ctx.check(isinstance(out.exc, kinds), f"{what}: refused with {out.name()}", lambda: repr(out.exc))
        ctx.probe(what + " refused")
        return False

    def sensors(self, slot):
        m = self.mod[slot]
        return m.sensors if slot[0] == "a" else [m]

    def op_rec(self, ctx, op):
        import swprocess as sw
        s = op["spec"]
        amp = amp_of(s)
        if op["pos"] is None:
            o = ctx.must(sw.ActiveTimeSeries, amp, s["dt"], s["nstacks"], s["delay"], what="ActiveTimeSeries()")
        else:
            o = ctx.must(sw.Sensor1C, amp, s["dt"], *op["pos"], nstacks=s["nstacks"], delay=s["delay"], what="Sensor1C()")
        self.mod[op["slot"]] = MRec(amp, s["dt"], s["delay"], s["nstacks"], op["pos"])
        self.obj[op["slot"]] = o
        amp[:] = 77                 # the record is not a view of its input

    def op_arr(self, ctx, op):
        import swprocess as sw
        s = op["spec"]
        rec = s["rec"]
        sens, mods = [], []
        for k, x in enumerate(s["xs"]):
            amp = amp_of(dict(rec, aseed=rec["aseed"] + k))
            sens.append(ctx.must(sw.Sensor1C, amp, rec["dt"], x, 0, 0, nstacks=rec["nstacks"], delay=rec["delay"], what="Sensor1C()"))
            mods.append(MRec(amp, rec["dt"], rec["delay"], rec["nstacks"], (x, 0, 0)))
        given = list(sens)
        src = sw.Source(s["src"], 0, 0)
        self.obj[op["slot"]] = ctx.must(sw.Array1D, sens, src, what="Array1D()")
        ctx.check(len(sens) == len(given) and all(a is b for a, b in zip(sens, given)), "Array1D() changed the list of sensors")
        self.mod[op["slot"]] = MArr(mods, (s["src"], 0, 0))

    def op_bad_make(self, ctx, op):
        import swprocess as sw
        w = op["what"]
        if w == "delay":
            out = ctx.call(sw.ActiveTimeSeries, [1, 2, 3], 0.1, 1, 0.1)
        elif w == "nstacks":
            out = ctx.call(sw.ActiveTimeSeries, [1, 2, 3], 0.1, 0, 0)
        else:
            a = sw.Sensor1C([1, 2, 3], 0.1, 0, 0, 0)
            b = sw.Sensor1C([1, 2, 3] if w == "samex" else [1, 2, 3, 4], 0.1, 0 if w == "samex" else 1, 0, 0)
            if w == "bool":
                b = sw.ActiveTimeSeries([1, 2, 3], 0.1)
            out = ctx.call(sw.Array1D, [a, b], sw.Source(-1, 0, 0))
        self.judge(ctx, out, False, (ValueError, TypeError), "construction with " + w)

    def op_trim(self, ctx, op):
        s = op["slot"]
        if s not in self.obj:
            return
        o, ms = self.obj[s], self.sensors(s)
        n = ms[0].n
        if n < 4:
            return
        i = int(op["a"] * (n - 2))
        j = max(i + 2, int(op["b"] * n))
        if j > n - 1:
            j = n - 1
        t = (o[0] if s[0] == "a" else o).time
        t0, t1 = float(t[i]), float(t[j])
        first = t0
        if "off" in op:
            t0 = max(float(t[0]), t0 + op["off"][0] * ms[0].dt)
            t1 = min(float(t[-1]), t1 + op["off"][1] * ms[0].dt)
            ctx.probe("trimmed between samples")
        out = self.run(ctx, op, o.trim, t0, t1, touches=[s])
        if self.judge(ctx, out, True, (), "trim"):
            for m in ms:
                m.trim(i, j, first)
            ctx.probe("trimmed")
        return [i, j]

    def op_trim_bad(self, ctx, op):
        s = op["slot"]
        if s not in self.obj:
            return
        m = self.sensors(s)[0]
        t = m.time()
        a, b, dt = float(t[0]), float(t[-1]), m.dt
        args = {"early": (a - 2 * dt, b), "late": (a, b + 2 * dt), "swapped": (b, a), "same": (a, a),
                "both": (a - dt, b + dt)}[op["how"]]
        out = ctx.call(self.obj[s].trim, *args)
        self.judge(ctx, out, False, (IndexError, ValueError), "illogical trim")

    def op_detrend(self, ctx, op):
        s = op["slot"]
        if s not in self.obj:
            return
        o, ms = self.obj[s], self.sensors(s)
        if ms[0].n < 3:
            return
        if s[0] == "a":
            def all_of():
                for x in o.sensors:
                    x.detrend()
            out = self.run(ctx, op, all_of, touches=[s])
        else:
            out = self.run(ctx, op, o.detrend, touches=[s])
        if self.judge(ctx, out, True, (), "detrend"):
            for m in ms:
                m.detrend()

    def op_pad(self, ctx, op):
        s = op["slot"]
        if s not in self.obj:
            return
        ms = self.sensors(s)
        n = ms[0].n
        if n > 400:
            return
        how, by = op["how"], op["by"]
        want = {"more": n + by, "same": n, "multiple": n * (1 + by % 3), "less": max(1, n - by)}.get(how)
        if how == "divide":
            divs = [d for d in range(1, n + 1) if n % d == 0]
            want = divs[by % len(divs)]
        df = 1 / (want * ms[0].dt)
        out = self.run(ctx, op, self.obj[s].zero_pad, df, touches=[s])
        if self.judge(ctx, out, True, (), "zero_pad"):
            for m in ms:
                m.pad(want)
            ctx.probe("padded" if want > n else "padded to a multiple" if want < n else "padding not needed")
        return want

    def op_pad_bad(self, ctx, op):
        s = op["slot"]
        if s not in self.obj:
            return
        dt = self.sensors(s)[0].dt
        df = {"zero": 0, "negative": -3.0, "huge": 5 / dt, "text": "x"}[op["df"]]
        out = ctx.call(self.obj[s].zero_pad, df)
        self.judge(ctx, out, False, (ValueError, ArithmeticError, TypeError), "zero_pad")

    def one(self, slot, k):
        """Record `k` of a slot: (library object, model)."""
        if slot[0] == "a":
            ms = self.mod[slot].sensors
            return self.obj[slot][k % len(ms)], ms[k % len(ms)]
        return self.obj[slot], self.mod[slot]

    def op_stack(self, ctx, op):
        if op["slot"] not in self.obj or op["other"] not in self.obj:
            return
        (a, ma), (b, mb) = self.one(op["slot"], op["k"]), self.one(op["other"], op["k2"])
        ok = ma.similar(mb)
        if ma.pos is not None:
            ok = ok and mb.pos is not None and tuple(ma.pos) == tuple(mb.pos)
        if op["slot"][0] == "a":        # keep the array consistent: stack onto copies only
            a, ma = ctx.must(type(a).from_sensor1c, a, what="copy"), ma.copy()
            self.obj["tmp"], self.mod["tmp"] = a, ma
        touches = ["tmp" if op["slot"][0] == "a" else op["slot"]]
        out = self.run(ctx, op, a.stack_append, b, touches=touches)
        if self.judge(ctx, out, ok, ValueError, "stacking"):
            ma.stack(mb)
            ctx.probe("stacked")

    def op_copy(self, ctx, op):
        import swprocess as sw
        s = op["slot"]
        if s not in self.obj:
            return
        if op["new"][0] == "a":
            out = self.run(ctx, op, sw.Array1D.from_array1d, self.obj[s])
            m = self.mod[s].copy()
        else:
            o, m = self.one(s, op["k"])
            m = m.copy()
            how = op["how"]
            if how == "sensor":
                out = self.run(ctx, op, sw.Sensor1C.from_activetimeseries, o, *op["pos"])
                m.pos = tuple(op["pos"])
            elif how == "ats" or m.pos is None:
                out = self.run(ctx, op, sw.ActiveTimeSeries.from_activetimeseries, o)
                m.pos = None
            else:
                out = self.run(ctx, op, sw.Sensor1C.from_sensor1c, o)
        if self.judge(ctx, out, True, (), "copy"):
            self.obj[op["new"]], self.mod[op["new"]] = out.value, m
            if op["new"][0] == s[0] and op.get("how", "same") == "same" and s[0] == "a":
                eq = ctx.must(lambda: out.value == self.obj[s], what="comparison")
                ctx.check(eq, "a copy does not equal its original", s)
            ctx.probe("copied")

    def op_eq(self, ctx, op):
        a, b = op["slot"], op["other"]
        if a not in self.obj or b not in self.obj:
            return
        out = self.run(ctx, op, lambda: self.obj[a] == self.obj[b])
        if not self.judge(ctx, out, True, (), "comparison"):
            return
        if a[0] != b[0]:
            ctx.check(not out.value, "an array equals a record")
            return
        ma, mb = self.sensors(a), self.sensors(b)
        sa, sb = self.mod[a], self.mod[b]
        if a[0] == "a":
            if sa.src != sb.src or len(ma) != len(mb):
                ctx.check(not out.value, "different arrays compare equal")
                return
        elif (ma[0].pos is None) != (mb[0].pos is None):
            return
        want = True
        for x, y in zip(ma, mb):
            if not x.similar(y) or x.nstacks != y.nstacks or x.pos != y.pos and tuple(x.pos or ()) != tuple(y.pos or ()):
                want = False
            elif not np.array_equal(x.amp, y.amp):
                if np.max(np.abs(x.amp - y.amp)) > 1e-3 * max(1, x.scale, y.scale):
                    want = False
                else:
                    want = None if want else want
        if want is not None:
            ctx.check(bool(out.value) == want, "comparison says " + ("equal" if out.value else "different"), lambda: f"{a} {b}")
            ctx.probe("compared equal" if want else "compared different")

    def op_xstack(self, ctx, op):
        import swprocess as sw
        if op["slot"] not in self.obj or op["other"] not in self.obj:
            return
        (a, ma), (b, mb) = self.one(op["slot"], op["k"]), self.one(op["other"], op["k2"])
        if ma.pos is not None or mb.pos is not None:
            a = ctx.must(sw.ActiveTimeSeries.from_activetimeseries, a, what="copy")
            b = ctx.must(sw.ActiveTimeSeries.from_activetimeseries, b, what="copy")
        ok = ma.similar(mb)
        out = self.run(ctx, op, sw.ActiveTimeSeries.from_cross_stack, a, b)
        if ma.n != mb.n and ma.dt == mb.dt and ma.delay == mb.delay:
            return              # shifting records of different lengths is not specified
        if not self.judge(ctx, out, ok, ValueError, "cross-correlation stacking"):
            return
        n = ma.n
        corr = np.array([sum(ma.amp[i] * mb.amp[i - s] for i in range(max(0, s), min(n, n + s))) for s in range(-n + 1, n)])
        tol = 1e-9 * n * ma.scale * mb.scale
        cands = [int(k) - n + 1 for k in np.flatnonzero(corr >= corr.max() - tol)]
        for s in cands:
            m = ma.copy()
            m.pos = None
            sh = mb.copy()
            sh.amp = np.zeros(n)
            if s >= 0:
                sh.amp[s:] = mb.amp[:n - s]
            else:
                sh.amp[:s] = mb.amp[-s:]
            m.stack(sh)
            if m.diff(out.value) is None:
                self.obj[op["new"]], self.mod[op["new"]] = out.value, m
                ctx.probe("cross-correlation stacked")
                return s
        ctx.violation("cross-correlation stack is not the stack of the shifted record", m.diff(out.value))

    def op_mute(self, ctx, op):
        s = op["slot"]
        if s not in self.obj:
            return
        ms = self.mod[s].sensors
        t = ms[0].time()
        T = t[-1] - t[0]
        x1, x2 = op["xs"]
        lines = [((x1, float(t[0] + a * T)), (x2, float(t[0] + b * T))) for a, b in op["lines"]]
        start = lines[0] if op["where"] in ("before", "both") else None
        stop = lines[1] if op["where"] in ("after", "both") else None
        alpha = 0.2 if op["alpha"] is None else op["alpha"]
        spans = mute_model(ms, start, stop, alpha)
        if spans is None:
            return
        kw = None if op["alpha"] is None else {"alpha": op["alpha"]}
        out = self.run(ctx, op, self.obj[s].mute, signal_start=start, signal_end=stop, window_kwargs=kw, touches=[s])
        if self.judge(ctx, out, True, (), "mute"):
            ctx.check(kw is None or kw == {"alpha": op["alpha"]}, "mute changed its options")
            for m, (a, b) in zip(ms, spans):
                apply_mute(m, a, b, alpha)
            ctx.probe("muted")
            if any(a == b for a, b in spans):
                ctx.probe("a trace muted entirely")

    def op_mute_bad(self, ctx, op):
        s = op["slot"]
        if s not in self.obj:
            return
        ms = self.mod[s].sensors
        t = ms[0].time()
        line = ((0.0, float(t[0])), (1.0, float(t[-1])))
        out = ctx.call(self.obj[s].mute, signal_start=line, window_kwargs={"alpa": 0.3})
        self.judge(ctx, out, False, (TypeError, ValueError), "mute with unknown option")
        x = np.float64(ms[0].pos[0] + op.get("by", 0.5))
        line = ((x, float(t[0])), (x, float(t[-1])))
        out = ctx.call(self.obj[s].mute, **{op.get("side", "signal_start"): line})
        self.judge(ctx, out, False, (ValueError, ArithmeticError), "mute by a line at a single distance")

    def op_offsets(self, ctx, op):
        s = op["slot"]
        if s not in self.obj:
            return
        m = self.mod[s]
        off = [abs(m.src[0] - x.pos[0]) for x in m.sensors]
        lo, hi = op["lo"], op["hi"]
        if op["tie"]:
            lo = off[op["k"] % len(off)]
            hi = max(hi, lo + 3)
        keep = [x for x, o in zip(m.sensors, off) if lo < o < hi]
        out = self.run(ctx, op, self.obj[s].trim_offsets, lo, hi, touches=[s])
        if self.judge(ctx, out, bool(keep), ValueError, "offset selection"):
            m.sensors = keep
            ctx.probe("offsets selected")

    def op_matrix(self, ctx, op):
        s = op["slot"]
        if s not in self.obj:
            return
        ms = self.mod[s].sensors
        rows = []
        for m in ms:
            c = m.copy()
            if op["detrend"]:
                c.detrend()
            a = c.amp
            if op["normalize"] == "each":
                if np.max(np.abs(a)) < 1e-6 * m.scale:
                    return
                a = a / np.max(np.abs(a))
            rows.append(a)
        want = np.array(rows)
        if op["normalize"] == "all":
            if np.max(np.abs(want)) < 1e-6 * max(m.scale for m in ms):
                return
            want = want / np.max(np.abs(want))
        got = ctx.must(self.obj[s].timeseriesmatrix, detrend=op["detrend"], normalize=op["normalize"], what="timeseriesmatrix")
        scale = max(m.scale for m in ms) if op["normalize"] == "none" else 1
        ctx.check(got.shape == want.shape and np.all(np.abs(got - want) <= 1e-6 * scale), "timeseriesmatrix differs from the records")
        got[:] = 55         # a view of the records would show

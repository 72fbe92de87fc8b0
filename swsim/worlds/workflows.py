"""MASW workflows against their documented steps done by hand (C11)."""

import os

import numpy as np

from ..core import fs as fsmod
from ..core import ui
from ..core.ctx import where
from . import shots
from .common import mostly
from .opsworld import OpsWorld
from .people import PickWatch, PickWorld, noise
from .records import MArr, MRec, apply_mute, mute_model
from .shotfiles import MAPX, MAPY, gather_of

WORKFLOWS = ("single", "time-domain", "frequency-domain", "time-domain-xcorr")


class Refuse(Exception):
    """The documented steps cannot be done: the run must be refused."""


class Unspecified(Exception):
    """The documented steps leave open what happens."""


# -- the transforms, written down independently --------------------------------

def near(a, value):
    """Index of the entry nearest to `value`."""
    d = np.abs(a - value)
    k = int(np.argmin(d))
    two = np.sort(d)[:2]
    if len(two) == 2 and two[1] - two[0] < 1e-9 * max(1.0, abs(value)):
        raise Unspecified("two frequencies equally near")
    return k


def keep(n, dt, multiple, fmin, fmax):
    f = np.arange(n) / (n * dt)
    ids = np.arange(near(f, fmin), near(f, fmax) + 1, multiple)
    return ids, f[ids]


def velocities(proc):
    if proc["vspace"] in ("lin", "linear"):
        return np.linspace(proc["vmin"], proc["vmax"], proc["nvel"])
    return np.geomspace(proc["vmin"], proc["vmax"], proc["nvel"])


def transform(arr, proc):
    """Frequencies, velocities and the acceptable powers with a mask of well conditioned frequencies."""
    from scipy.special import j0, y0
    kind, m0 = proc["transform"], arr.sensors[0]
    if len({(m.n, m.dt, m.multiple) for m in arr.sensors}) != 1 or m0.multiple is None:
        raise Unspecified("padding of padded records")
    n, dt = m0.n, m0.dt
    xs = np.array([m.pos[0] for m in arr.sensors], float)
    off = np.abs(xs - arr.src[0])
    order = np.argsort(off, kind="stable")
    x, amp = off[order], np.array([m.amp for m in arr.sensors])[order]
    ids, f = keep(n, dt, m0.multiple, proc["fmin"], proc["fmax"])
    vel = velocities(proc)
    if kind == "slantstack":
        p = x - x[0]
        far = p[-1] / dt / np.min(vel)
        alternatives = {int(far)}
        if abs(far - round(far)) < 1e-6:
            alternatives |= {int(round(far)), int(round(far)) - 1}
        out = []
        for last in sorted(alternatives):
            nt = n - last - 1
            if nt < 1 or last < 0:
                raise Unspecified("record too short for a slant stack")
            st = np.empty((len(vel), nt))
            for i, v in enumerate(vel):
                rows = []
                for k in range(len(p)):
                    d = p[k] / dt / v
                    lo = min(int(d), n - nt)
                    rows.append(np.interp(np.arange(nt) + d, np.arange(n), amp[k]))
                rows = np.array(rows)
                st[i] = np.sum(0.5 * np.diff(p)[:, None] * (rows[1:] + rows[:-1]), axis=0)
            out.append(np.fft.fft(st, n=n)[:, ids])
        return f, vel, out, np.ones(len(f), bool)
    F = np.fft.fft(amp)
    most = np.abs(F).max()
    F = F[:, ids]
    mag = np.abs(F)
    good = mag.min(axis=0) > 1e-7 * most
    out = np.empty((len(vel), len(f)), dtype=complex)
    if kind == "phaseshift":
        with np.errstate(all="ignore"):
            U = F / mag
            for i, v in enumerate(vel):
                t = np.exp(2j * np.pi * f[None, :] / v * x[:, None]) * U
                out[i] = np.abs(np.sum(0.5 * np.diff(x)[:, None] * (t[1:] + t[:-1]), axis=0))
        return f, vel, [out.real], good
    spec = proc.get("fdbf-specific", {}) if kind == "fdbf" else {"weighting": "none", "steering": "plane"}
    weighting, steering = spec.get("weighting"), spec.get("steering")
    if weighting != "invamp":
        good = np.ones(len(f), bool)
    with np.errstate(all="ignore"):
        if weighting == "invamp":
            F = F / mag
        w = x if weighting == "sqrt" else np.ones_like(x)
        for i, v in enumerate(vel):
            kx = 2 * np.pi * f[None, :] / v * x[:, None]
            steer = np.exp(-1j * (np.angle(j0(kx) + 1j * y0(kx)) if steering == "cylindrical" else kx))
            # steer^H (w w^T . F F^H) steer, one frequency per column
            out[i] = np.abs(np.sum(np.conj(steer) * (w[:, None] * F), axis=0)) ** 2
    return f, vel, [out], good


# -- the steps -------------------------------------------------------------------

def arrays_alike(a, b):
    return [m.pos for m in a.sensors] == [m.pos for m in b.sensors]


def stack_by_hand(models):
    """Average of shots, weighted by their stacks, sensor by sensor."""
    a = models[0]
    for m in models[1:]:
        if m.src != a.src or [r[:2] for r in m.rows] != [r[:2] for r in a.rows] or (m.n, m.dt, m.delay) != (a.n, a.dt, a.delay):
            raise Refuse("shots which cannot be combined")
    total = sum(m.nstacks for m in models)
    recs = []
    for k, (x, y, _) in enumerate(a.rows):
        amp = sum(m.rows[k][2] * m.nstacks for m in models) / total
        recs.append(MRec(amp, a.dt, a.delay, total, (x, y, 0)))
        recs[-1].scale = max(float(np.max(np.abs(m.rows[k][2]))) for m in models)
    return MArr(recs, (a.src[0], a.src[1], 0))


def mapped(m, fx, fy):
    c = m.copy()
    c.rows = sorted([(fx(x), fy(y), a) for x, y, a in m.rows], key=lambda r: r[0])
    c.src = (fx(m.src[0]), fy(m.src[1]))
    return c


def trim(arr, begin, end):
    for m in arr.sensors:
        t = m.time()
        eps = 1e-6 * m.dt
        if begin < t[0] - eps or begin >= end or end > t[-1] + eps:
            raise Refuse("times outside of the record")
        i, j = int(round((begin - m.delay) / m.dt)), int(round((end - m.delay) / m.dt))
        if abs(m.delay + i * m.dt - begin) > eps or abs(m.delay + j * m.dt - end) > eps:
            raise Unspecified("times between samples")
        if abs(end - t[-1]) < eps or abs(begin - t[0]) < eps and begin != t[0]:
            raise Unspecified("times at the very end, to rounding")
        m.trim(i, j, begin)


def pad(arr, df):
    for m in arr.sensors:
        want = 1 / (df * m.dt)
        if abs(want - round(want)) > 1e-6 or round(want) < 1:
            raise Unspecified("frequency step which is not a multiple")
        m.pad(int(round(want)))


def snr_by_hand(signal, noise_, settings):
    s, proc = settings["signal-to-noise"], settings["processing"]
    if s["pad"]["apply"]:
        pad(noise_, s["pad"]["df"])
        pad(signal, s["pad"]["df"])
    a, b = signal.sensors[0], noise_.sensors[0]
    if a.n != b.n:
        raise Refuse("windows of unequal length")
    if a.multiple is None or a.multiple != b.multiple:
        raise Unspecified("windows cut from padded records")
    ids, f = keep(a.n, a.dt, b.multiple, proc["fmin"], proc["fmax"])

    def mean(arr):
        return np.mean(np.abs(np.fft.fft(np.array([m.amp for m in arr.sensors]))), axis=0)[ids]
    num, den = mean(signal), mean(noise_)
    floor = 1e-9 * max([m.scale for m in noise_.sensors])
    return f, num / np.where(den > floor, den, np.nan)


class ByHand:
    """The documented steps.  `lines()` gives the mute the user accepted."""

    def __init__(self, settings, lines):
        self.s, self.lines, self.mute = settings, lines, None
        self.noise = self.signal = None

    def steps(self, arr, after_mute=None):
        pre, s = self.s["pre-processing"], self.s["signal-to-noise"]
        xs = [m.pos[0] for m in arr.sensors]
        if min(xs) < arr.src[0] < max(xs):
            raise Refuse("source inside the array")
        lo, hi = pre["offsets"]["min"], pre["offsets"]["max"]
        arr.sensors = [m for m in arr.sensors if lo < abs(m.pos[0] - arr.src[0]) < hi]
        if not arr.sensors:
            raise Refuse("no sensor in the range of offsets")
        for m in arr.sensors:
            m.detrend()
        if s["perform"] and self.noise is None:
            self.noise = arr.copy()
            trim(self.noise, s["noise"]["begin"], s["noise"]["end"])
        if pre["trim"]["apply"]:
            trim(arr, pre["trim"]["begin"], pre["trim"]["end"])
        if pre["mute"]["apply"]:
            if pre["mute"]["method"] != "interactive":
                raise Refuse("unknown way of muting")
            if self.mute is None:
                self.mute = self.lines()
            start, end = self.mute
            for a in (start, end):
                if abs(a[0][0] - a[1][0]) < 1e-9:
                    raise Unspecified("vertical line")
            windows = mute_model(arr.sensors, start, end, None)
            if windows is None:
                raise Unspecified("line through a sample")
            alpha = (pre["mute"].get("window_kwargs") or {}).get("alpha", 0.2)
            for m, (a, b) in zip(arr.sensors, windows):
                apply_mute(m, a, b, alpha)
        if s["perform"] and self.signal is None:
            self.signal = arr.copy()
            trim(self.signal, s["signal"]["begin"], s["signal"]["end"])

    def snr(self):
        if self.s["signal-to-noise"]["perform"]:
            return snr_by_hand(self.signal, self.noise, self.s)
        return None

    def finish(self, arr):
        if self.s["pre-processing"]["pad"]["apply"]:
            pad(arr, self.s["pre-processing"]["pad"]["df"])
        return transform(arr, self.s["processing"])

    # workflows
    def time_domain(self, models):
        arr = stack_by_hand(models)
        self.steps(arr)
        snr = self.snr()
        f, v, p, good = self.finish(arr)
        return dict(f=f, v=v, p=p, good=good, snr=snr, arr=arr, n=1)

    def frequency_domain(self, models):
        total, n = None, len(models)
        # The first shot, prepared without selecting offsets, fixes the frequencies.
        example = stack_by_hand(models[:1])
        pre = self.s["pre-processing"]
        if pre["trim"]["apply"]:
            trim(example, pre["trim"]["begin"], pre["trim"]["end"])
        for m in models:
            if m.src != models[0].src or len(m.rows) != len(models[0].rows):
                raise Refuse("shots which cannot be combined")
            arr = stack_by_hand([m])
            self.steps(arr)
            f, v, p, good = self.finish(arr)
            if total is None:
                total, first, keepgood, base = [np.zeros_like(q) for q in p], f, good, stack_by_hand([m])
            if f.shape != first.shape or not np.allclose(f, first, rtol=1e-9, atol=1e-9):
                raise Refuse("shots of different frequencies")
            if [r[:2] for r in m.rows] != [r[:2] for r in models[0].rows]:
                self.moved = True
            if len(p) != len(total):
                raise Unspecified("rounding")
            total = [a + b / n for a, b in zip(total, p)]
            keepgood = keepgood & good
        return dict(f=f, v=v, p=total, good=keepgood, snr=self.snr(), arr=arr, n=n)

    def xcorr(self, models, sources):
        arr = stack_by_hand(models)
        n, dt = {len(a) for a, _ in sources}, {d for _, d in sources}
        if len(n) != 1 or len(dt) != 1 or dt != {arr.sensors[0].dt}:
            raise Refuse("source signals which cannot be combined")
        src = sum(a for a, _ in sources) / len(sources)
        end = max(arr.sensors[0].time())
        m0 = arr.sensors[0]
        if m0.delay > 0 or end <= 0:
            raise Refuse("record does not contain time zero")
        i = -m0.delay / m0.dt
        if abs(i - round(i)) > 1e-6:
            raise Unspecified("time zero between samples")
        for m in arr.sensors:
            m.trim(int(round(i)), m.n - 1, 0.0)
        self.steps(arr)
        snr = self.snr()
        proc = self.s["processing"]
        off = [abs(m.pos[0] - arr.src[0]) for m in arr.sensors]
        dt = m0.dt
        lo, hi = (min(off) / proc["vmax"] - 0.5) / dt, max(off) / proc["vmin"] / dt
        if min(abs(lo - round(lo)), abs(hi - round(hi))) < 1e-6:
            raise Unspecified("rounding")
        lo, hi = len(src) + int(lo), len(src) + int(hi)
        if lo < 0 or hi - lo < 2:
            raise Unspecified("source signal shorter than the correlation window")
        for m in arr.sensors:
            full = np.correlate(m.amp, src, "full")
            m.amp, m.delay = full[lo:hi], 0.0
            m.scale *= float(np.sum(np.abs(src))) or 1.0
            if m.multiple != 1:
                m.multiple = 1
        if arr.sensors[0].n < 2:
            raise Unspecified("nothing left of the correlation")
        f, v, p, good = self.finish(arr)
        return dict(f=f, v=v, p=p, good=good, snr=snr, arr=arr, n=1)


# -- plans -----------------------------------------------------------------------

def gen_base(rng, xcorr=False):
    """Geometry and recording parameters common to the shots of a survey."""
    fmt = rng.choice(["SU", "SU", "SEGY", "SEG2"])
    n = mostly(rng, [3, 4, 5, 6], [12, 24], 0.02)
    x0 = rng.choice([0, 0, 10, -6])
    step = rng.choice([1, 2, 3])
    xs = [x0 + step * k for k in range(n)]
    if rng.random() < 0.3:
        xs = [x + rng.choice([0, 0, 1]) * (step > 1) for x in xs]
    src = rng.choice([xs[0] - 5, xs[-1] + 7, xs[0] - 1, xs[-1] + 1])
    dt = rng.choice([1000, 2000, 4000]) if not xcorr else 4000
    delay = rng.choice([0, 0, 10, 25]) * dt // 1000
    order = list(range(n))
    if rng.random() < 0.5:
        rng.shuffle(order)
    return {"fmt": fmt, "geo": {"res": 1, "xs": xs, "ys": [rng.choice([0, 0, 2])] * n, "src": [src, 0]}, "order": order, "dt_us": dt,
            "n": mostly(rng, [60, 80, 100], [256, 300], 0.02) if not xcorr else rng.choice([170, 200]), "delay_ms": -delay if not xcorr or rng.random() < 0.5 else 0,
            "stack": 1, "units": rng.choice([1, 1, 0]), "kind": rng.choice(["float", "float", "int"]), "scal": rng.choice([1, -10, -100])
            if fmt != "SEG2" else 1, "aseed": 0}


def gen_settings(rng, base, mute=False, snr=None, workflow="time-domain"):
    """Arguments for Masw.create_settings_dict."""
    dt, n, delay = base["dt_us"] / 1e6, base["n"], base["delay_ms"] / 1000
    if workflow == "time-domain-xcorr":
        n, delay = n + int(round(delay / dt)), 0.0
    pre = int(round(-delay / dt))
    fmin = rng.choice([0.1, 5.1, 12.3, 20.2])
    kw = {"workflow": workflow, "transform": rng.choice(["fdbf", "fdbf", "fk", "phaseshift", "slantstack"]),
          "fmin": fmin, "fmax": fmin + rng.choice([20.3, 60.4, 110.5]) / (2 if dt > 0.002 else 1), "vmin": rng.choice([90, 110, 150]),
          "vmax": rng.choice([200, 400]), "nvel": mostly(rng, [2, 3, 5], [20, 41], 0.02), "vspace": rng.choice(["linear", "lin", "log", "logarithmic"]),
          "weighting": rng.choice(["sqrt", "invamp", "none"]), "steering": rng.choice(["cylindrical", "plane"])}

    def t(k):
        return round(delay + k * dt, 9)
    if rng.random() < 0.5:
        a, b = rng.choice([0, 0, 2, pre, pre + 3]), n - rng.choice([2, 3, 9, 14])
        kw.update(trim=True, trim_begin=t(a) if a else delay, trim_end=t(b))
        lo, hi = a, b
    else:
        lo, hi = 0, n - 1
    if rng.random() < 0.5:
        want = rng.choice([25, 40, 50, 80, 100, 125, 200, n, 60])
        kw.update(pad=True, df=1 / (want * dt))
    if mute:
        kw.update(mute=True)
        if rng.random() < 0.4:
            kw["window_kwargs"] = rng.choice([{"alpha": 0.0}, {"alpha": 0.5}, {"alpha": 1.0}, {}])
    if snr if snr is not None else rng.random() < 0.4:
        m = rng.choice([8, 12, 20])
        # The noise is selected before trimming in time, the signal after it.
        a = rng.randrange(0, n - m - 3)
        b = rng.randrange(lo + 1, max(lo + 2, hi - m - 2))
        m2 = m if rng.random() < 0.5 else m + rng.choice([-3, 4])
        kw.update(snr=True, noise_begin=t(a) if a else delay, noise_end=t(a + m), signal_begin=t(b), signal_end=t(b + m2))
        if m2 != m or rng.random() < 0.5:
            want = rng.choice([10, 16, 20, 40])
            kw.update(pad_snr=rng.random() < 0.9, df_snr=1 / (want * dt))
        else:
            kw.update(pad_snr=False)
    if rng.random() < 0.4:
        span = base["geo"]["xs"][-1] - base["geo"]["xs"][0]
        far = span + 7
        kw.update(min_offset=rng.choice([0, 0, 0.5, 1, 2, 5]), max_offset=rng.choice([far, far + 1, far - 1.5, 9, 1000]))
    return kw


def gen_mute_script(rng, clumsy):
    pw = PickWorld()
    out = []
    for side in range(2):
        pts = []
        for d in sorted([rng.uniform(0.02, 0.45), rng.uniform(0.55, 0.98)], reverse=rng.random() < 0.3):
            tt = rng.uniform(0.02, 0.4) if side == 0 else rng.uniform(0.55, 0.98)
            pts.append((d, 1 - tt))
        out += pw.gen_script(rng, 2, False, False, clumsy, line=pts)
    return out


def write_shot(ctx, path, spec):
    """Synthesise a shot; returns its model."""
    g, model = gather_of(spec)
    model.dt = spec["dt_us"] / 1e6
    with fsmod.quiet():
        shots.write_gather(path, spec["fmt"], g)
    return model


class WorkflowWorld(OpsWorld):
    """C11."""
    real = ["swprocess.masw", "swprocess.maswworkflows", "swprocess.array1d", "swprocess.snr", "swprocess.wavefieldtransforms",
            "swprocess.interact", "matplotlib event handling", "obspy readers", "sigpropy", "numpy", "scipy"]
    stub = ["disk (faults of open and read)", "user (scripted events on a virtual clock)", "rendering", "shot recorder (independent writers)"]
    rule = ("a case is a survey of synthesised shots, some of which may be replaced, damaged or unlike the others, processed by several "
            "MASW runs with drawn settings, a scripted user for mutes, and read faults; non-trivial if a run yielded a transform; "
            "distinct by event log")
    state_measure = "distinct (workflow, settings, digest of the expected power)"
    uses_fs = True
    assumptions = ["times in the settings are times of samples and frequency steps are multiples",
                   "columns of the power in which a sensor has no energy are not compared where the transform divides by it"]

    def counts(self, tier):
        q = {"plain": 600, "muted": 350, "xcorr": 250, "refused": 500, "faulty": 350}
        return q if tier == "quick" else {k: v * 25 for k, v in q.items()}

    # -- generation --------------------------------------------------------
    def generate(self, rng, config):
        xc = config == "xcorr" or (config in ("refused", "faulty") and rng.random() < 0.15)
        base = gen_base(rng, xc)
        ext = {"SU": "su", "SEGY": "sgy", "SEG2": "dat"}[base["fmt"]]
        ops = []

        def put(name, spec):
            ops.append({"op": "write", "file": name, "spec": spec})

        def shot(**change):
            return dict(base, aseed=rng.randrange(10**6), stack=rng.choice([1, 1, 2, 3, 5]), **change)
        names = [f"{k + 1}.{ext}" for k in range(rng.choice([1, 2, 3, 3]))]
        for name in names:
            put(name, shot())
        sources = []
        if xc:
            sources = [f"s{k + 1}.{ext}" for k in range(rng.choice([1, 2, 3]))]
            chans = rng.choice([1, 2, 3])
            for name in sources:
                ops.append({"op": "write", "file": name, "source": True,
                            "spec": dict(self.source_spec(rng, base, chans), aseed=rng.randrange(10**6))})
        for _ in range(rng.choice([1, 2, 2])):
            if config == "refused":
                for _ in range(rng.choice([0, 1, 1])):
                    if xc and rng.random() < 0.6:
                        name = rng.choice(sources)
                        s = dict(self.source_spec(rng, base, chans), aseed=rng.randrange(10**6))
                        k = rng.choice(["n", "dt"])
                        s["n"] += rng.choice([1, -1, 30]) if k == "n" else 0
                        s["dt_us"] = s["dt_us"] * 2 if k == "dt" else s["dt_us"]
                        ops.append({"op": "write", "file": name, "source": True, "spec": s})
                    else:
                        put(rng.choice(names), self.unlike(rng, base, shot()))
            if config in ("refused", "faulty") and rng.random() < 0.25:
                ops.append({"op": "damage", "file": rng.choice(names + sources), "kind": rng.choice(["missing", "empty", "garbage", "cut"])})
            mute = config == "muted" or (config in ("refused", "faulty") and rng.random() < 0.15)
            wf = "time-domain-xcorr" if xc else rng.choice(["single", "time-domain", "frequency-domain", "frequency-domain"])
            kw = gen_settings(rng, base, mute, workflow=wf)
            op = {"op": "run", "kw": kw, "how": rng.choice(["list", "tuple", "one", "paths"]), "byhand": rng.random() < 0.3,
                  "files": rng.sample(names, rng.randint(1, len(names))) if rng.random() < 0.8 else [rng.choice(names) for _ in range(rng.choice([2, 3]))],
                  "mapx": rng.choice(["id", "id", "shift", "flip"]), "mapy": rng.choice(["id", "id", "shift"]) if base["fmt"] != "SEG2" else "id"}
            if op["byhand"]:
                op["bare"] = rng.choice([[], ["fdbf"], ["window"], ["fdbf", "window"]])
            if xc:
                op["sources"] = rng.sample(sources, rng.randint(1, len(sources)))
                op["chan"] = rng.randrange(chans)
            if mute:
                op["script"] = gen_mute_script(rng, rng.random() < 0.6)
                if config == "faulty" and rng.random() < 0.5:
                    op["script"].insert(rng.randint(0, len(op["script"])), {"do": "interrupt", "wait": 0.1})
            if config == "refused" and rng.random() < 0.6:
                self.spoil(rng, op, base)
            if config == "faulty" and rng.random() < 0.8:
                f = fsmod.rand_fault(rng, fsmod.READ_FAULTS)
                f["at"] = rng.choice([0, 1, 2, 3, 5, 8, 9, 10, 12, 14, 16, 20, 25, 30, 40])
                f["path"] = rng.choice(op["files"] + op.get("sources", []))
                op["faults"] = [f]
            ops.append(op)
            if op.get("faults") and rng.random() < 0.4:
                ops.append({k: v for k, v in op.items() if k != "faults"})
        return {"ops": ops, "tuning": {"buffer": rng.choice([32, 256, 8192])}}

    def source_spec(self, rng, base, chans):
        s = dict(base, geo={"res": 1, "xs": list(range(chans)), "ys": [0] * chans, "src": [-5, 0]}, order=list(range(chans)), delay_ms=0, stack=1)
        s["n"] = rng.choice([base["n"], base["n"]])
        return s

    def unlike(self, rng, base, s):
        g = {k: list(v) if isinstance(v, list) else v for k, v in base["geo"].items()}
        n = len(g["xs"])
        k = rng.choice(["source", "inside", "moved", "around", "fewer", "more", "n", "dt", "delay", "even dt"])
        if k == "source":
            g["src"][0] += rng.choice([-1, 1]) if g["src"][0] < g["xs"][0] - 1 else 1
        elif k == "inside":
            g["src"][0] = g["xs"][0] + 1
        elif k == "moved":
            g["xs"][-1] += 1
        elif k == "around":                 # the sensors moved to both sides of the source
            by = g["src"][0] - g["xs"][0] - 1 if g["src"][0] < g["xs"][0] else g["src"][0] - g["xs"][-1] + 1
            g["xs"] = [x + by for x in g["xs"]]
        elif k == "fewer":
            s["order"] = [i for i in s["order"] if i != n - 1]
        elif k == "more":
            g["xs"].append(g["xs"][-1] + 2)
            g["ys"].append(0)
            s["order"] = s["order"] + [n]
        elif k == "n":
            s["n"] += rng.choice([-1, 1, 5])
        elif k == "dt":
            s["dt_us"] *= 2
        elif k == "even dt":                # same frequency step, other times
            s["dt_us"] //= 2
            s["n"] *= 2
        else:
            s["delay_ms"] -= s["dt_us"] // 1000
        s["geo"] = g
        return s

    def spoil(self, rng, op, base):
        """Settings which cannot be followed."""
        kw = op["kw"]
        dt, n, delay = base["dt_us"] / 1e6, base["n"], base["delay_ms"] / 1000
        end = delay + n * dt
        k = rng.choice(["offsets", "inside", "trim", "noise", "signal", "length", "workflow", "transform", "method"])
        op["byhand"] = False
        op.pop("bare", None)
        if k == "offsets":
            kw.update(min_offset=rng.choice([500, 1000]), max_offset=rng.choice([2000, np.inf]))
        elif k == "inside":
            xs, src = base["geo"]["xs"], base["geo"]["src"][0]
            left = src < min(xs)
            c = (src + (max(xs) if left else min(xs))) / 2 + rng.choice([0.137, 0.637]) * (-1 if left else 1)
            op["mapx"] = f"fold{c}"
            x, s = [abs(v - c) for v in xs], abs(src - c)
            near_, far_ = sorted((s - min(x), max(x) - s))
            if near_ > 0 and rng.random() < 0.6:    # the sensors selected are all on one side
                kw.update(min_offset=near_ + 0.01, max_offset=1000)
        elif k == "trim":
            kw.update(trim=True, **rng.choice([dict(trim_begin=delay - 3 * dt, trim_end=end - 9 * dt), dict(trim_begin=delay + 5 * dt, trim_end=end + 3 * dt),
                                               dict(trim_begin=delay + 20 * dt, trim_end=delay + 10 * dt)]))
        elif k == "noise":
            kw.update(snr=True, pad_snr=True, df_snr=1 / (40 * dt), noise_begin=delay - 5 * dt, noise_end=delay + 9 * dt, signal_begin=0.0, signal_end=9 * dt)
        elif k == "signal":
            kw.update(snr=True, pad_snr=True, df_snr=1 / (40 * dt), noise_begin=max(delay, 0) + 2 * dt, noise_end=max(delay, 0) + 12 * dt,
                      signal_begin=end - 5 * dt, signal_end=end + 5 * dt)
        elif k == "length":
            kw.update(snr=True, pad_snr=False, trim=False, noise_begin=2 * dt, noise_end=12 * dt, signal_begin=10 * dt, signal_end=21 * dt)
        elif k == "workflow":
            kw["workflow"] = "frequency"
        elif k == "transform":
            kw["transform"] = "fdbs"
        elif k == "method":
            kw.update(mute=True, method="automatic")
            op.pop("script", None)

    # -- execution ---------------------------------------------------------
    def setup(self, ctx, plan, fs):
        self.files, self.bytes = {}, {}

    def finish(self, ctx, plan):
        import matplotlib.pyplot as plt
        plt.close("all")

    def op_write(self, ctx, op):
        path = os.path.join(ctx.scratch, op["file"])
        self.files[op["file"]] = write_shot(ctx, path, op["spec"])
        with fsmod.quiet(), open(path, "rb") as f:
            self.bytes[op["file"]] = f.read()

    def op_damage(self, ctx, op):
        path = os.path.join(ctx.scratch, op["file"])
        data = self.bytes.get(op["file"])
        if not data:
            return "none"
        kind = op["kind"]
        new = {"missing": None, "empty": b"", "garbage": bytes(b ^ 0xA5 for b in data[:300]), "cut": data[:200]}[kind]
        with fsmod.quiet():
            if new is None:
                os.unlink(path)
            else:
                with open(path, "wb") as f:
                    f.write(new)
        self.files[op["file"]], self.bytes[op["file"]] = None, new
        return kind

    def expected(self, settings, op, lines):
        """Outcome of the steps done by hand."""
        fx, fy = MAPS(op["mapx"]), MAPY[op["mapy"]]
        wf = settings["workflow"]
        names = op["files"] if wf != "single" else op["files"][:1]
        if wf not in WORKFLOWS:
            raise Refuse("unknown workflow")
        for name in names + op.get("sources", []):
            if self.files.get(name) is None:
                raise Refuse("damaged or missing file")
        if settings["processing"]["transform"] not in ("fdbf", "fk", "phaseshift", "slantstack"):
            raise Refuse("unknown transform")
        models = [mapped(self.files[n], fx, fy) for n in names]
        h = self.hand = ByHand(settings, lines)
        h.moved = False
        if wf == "frequency-domain":
            return h.frequency_domain(models)
        if wf == "time-domain-xcorr":
            src = []
            for name in op["sources"]:
                m = self.files[name]
                src.append((m.rows[op["chan"]][2], m.dt))
            return h.xcorr(models, src)
        return h.time_domain(models)

    def op_run(self, ctx, op):
        from swprocess.masw import Masw, MaswXcorr
        import copy
        settings = ctx.must(Masw.create_settings_dict, what="create_settings_dict", **copy.deepcopy(op["kw"]))
        ctx.check(settings == settings_by_hand(op["kw"]), "settings are not those asked for", lambda: f"{op['kw']} -> {settings}")
        if op["byhand"]:
            settings = settings_of(op)
        given = copy.deepcopy(settings)
        files, kind = arguments(op["how"], op["files"], ctx.scratch)
        args = dict(map_x=MAPS(op["mapx"]), map_y=MAPY[op["mapy"]])
        if settings["workflow"] == "time-domain-xcorr":
            def fn():
                return MaswXcorr.run(files, [os.path.join(ctx.scratch, s) for s in op["sources"]], op["chan"], settings, **args)
        else:
            def fn():
                return Masw.run(files, settings, **args)
        watch = PickWatch(ctx, None, lambda when: None, [(2, False, False)] * 2)
        before = sum(n for k, n in ctx.faults_fired.items() if k != "read-short")
        with ui.User(ctx, op.get("script", []), watch) as user:
            out = ctx.call(fn)
        fired = sum(n for k, n in ctx.faults_fired.items() if k != "read-short") > before
        self.fs.faults = []
        ctx.check(settings == given, "the settings passed were changed")
        for name, data in self.bytes.items():
            with fsmod.quiet():
                p = os.path.join(ctx.scratch, name)
                now = open(p, "rb").read() if os.path.exists(p) else None
            ctx.check(now == data, "a run changed an input file", name)
        wf = op["kw"]["workflow"]

        def lines():
            if not watch.over or watch.at + 1 < 2 or len(watch.points[1]) < 2:
                raise Refuse("the user left before the lines were complete")
            return watch.points
        try:
            want = self.expected(settings_of(op), op, lines)
        except Refuse as e:
            ctx.check(not out.ok, f"{wf}: not refused: {e}", lambda: f"{op}")
            ctx.probe(f"refused: {e}")
            return out.name()
        except Unspecified as e:
            ctx.probe(f"unspecified: {e}")
            return "unspecified"
        if user.blocks and not settings["pre-processing"]["mute"]["apply"]:
            ctx.violation("the run asked a user for a mute which was not requested")
        if not out.ok:
            if fired:
                ctx.probe("failed as a fault was met")
                return out.name()
            if self.hand.moved:
                ctx.probe("moved sensors refused")
                return out.name()
            ctx.violation(f"{wf}: run failed: {type(out.exc).__name__}", f"{where(out.exc)}: {out.exc}\n{op}")
        if settings["pre-processing"]["mute"]["apply"]:
            ctx.check(watch.over and user.blocks > 0, f"{wf}: muted without the user")
            ctx.probe("muted by the user")
        d = ctx.observe(lambda: self.compare(out.value, want, settings), "looking at the result")
        ctx.check(d is None, f"{wf}: {d and d[0]} not that of the documented steps", lambda: f"{d[1]}\n{op}")
        ctx.nontrivial = True
        ctx.probe(wf)
        ctx.probe(settings["processing"]["transform"])
        if want["snr"] is not None:
            ctx.probe("with signal-to-noise ratio")
        ctx.state((wf, repr(op["kw"]), np.round(np.abs(want["p"][0]), 6).tobytes()))
        return len(want["f"])

    def compare(self, t, want, settings):
        f, v, p = np.asarray(t.frequencies), np.asarray(t.velocities), np.asarray(t.power)
        if f.shape != want["f"].shape or not np.allclose(f, want["f"], rtol=1e-9, atol=1e-9):
            return "frequencies", f"{f} instead of {want['f']}"
        if v.shape != want["v"].shape or not np.allclose(v, want["v"], rtol=1e-12):
            return "velocities", f"{v} instead of {want['v']}"
        why = None
        # Rounding of the power where there is no energy.
        most = sum(m.n * m.scale * max(1, abs(m.pos[0] - want["arr"].src[0])) for m in want["arr"].sensors)
        floor = {"phaseshift": 1e-9, "slantstack": 1e-13 * most}.get(settings["processing"]["transform"], (1e-13 * most) ** 2)
        for q in want["p"]:
            if p.shape != q.shape:
                return "power", f"shape {p.shape} instead of {q.shape}"
            if not p.size:
                why = None
                break
            cols = want["good"] & np.isfinite(q).all(axis=0)    # no phase at 0 Hz for cylindrical waves
            scale = np.max(np.abs(q[:, cols])) if cols.any() else 1
            if settings["processing"]["transform"] == "phaseshift":
                scale = max(scale, 1)
            e = np.abs(p[:, cols] - q[:, cols])
            if np.all(e <= 1e-6 * scale + floor):
                why = None
                break
            why = f"largest difference {np.nanmax(e) if e.size else e} of {scale}"
        if why:
            return "power", why
        if t.n != want["n"]:
            return "number of transforms", f"{t.n} instead of {want['n']}"
        if want["snr"] is None:
            if t.snr is not None:
                return "signal-to-noise ratio", "given although not requested"
        else:
            sf, s = want["snr"]
            a, b = np.asarray(t.snr_frequencies), np.asarray(t.snr)
            if a.shape != sf.shape or not np.allclose(a, sf, rtol=1e-9, atol=1e-9):
                return "frequencies of the signal-to-noise ratio", f"{a} instead of {sf}"
            ok = np.isfinite(s)
            if b.shape != s.shape or not np.allclose(b[ok], s[ok], rtol=1e-6, atol=1e-9):
                return "signal-to-noise ratio", f"{b} instead of {s}"
        if len(t.array.sensors) != len(want["arr"].sensors):
            return "array", f"{len(t.array.sensors)} sensors"
        for got, m in zip(t.array.sensors, want["arr"].sensors):
            if abs(got.x - m.pos[0]) > 1e-9 or got.nsamples != m.n or got.nstacks != m.nstacks or abs(got.delay - m.delay) > 1e-9:
                return "array", f"sensor at {got.x}, {got.nsamples} samples, {got.nstacks} stacks, delay {got.delay}: expected {m.pos} {m.n} {m.nstacks} {m.delay}"
            if not np.all(np.abs(got.amplitude - m.amp) <= 1e-9 * m.scale):
                return "array", f"amplitudes of the sensor at {got.x}"
        return None


def MAPS(name):
    """Mappings of x; folding may put sensors on both sides of the source."""
    if name.startswith("fold"):
        c = float(name[4:])
        return lambda x: abs(x - c)
    return MAPX[name]


def arguments(how, names, scratch):
    import pathlib
    paths = [os.path.join(scratch, n) for n in names]
    if how == "one" and len(paths) == 1:
        return paths[0], "one"
    if how == "paths":
        return [pathlib.Path(p) for p in paths], "paths"
    if how == "tuple":
        return tuple(paths), "tuple"
    return paths, "list"


DEFAULTS = dict(workflow="time-domain", trim=False, trim_begin=0.0, trim_end=1.0, mute=False, method="interactive", window_kwargs=None,
                pad=False, df=1.0, transform="fdbf", fmin=5, fmax=100, vmin=100, vmax=1000, nvel=200, vspace="linear", weighting="sqrt",
                steering="cylindrical", snr=False, noise_begin=-0.5, noise_end=0.0, signal_begin=0.0, signal_end=0.5, pad_snr=True,
                df_snr=1.0, min_offset=0, max_offset=np.inf)


def settings_by_hand(kw):
    """The dictionary of settings as documented."""
    d = {**DEFAULTS, **kw}
    return {"workflow": d["workflow"],
            "pre-processing": {"trim": {"apply": d["trim"], "begin": d["trim_begin"], "end": d["trim_end"]},
                               "mute": {"apply": d["mute"], "method": d["method"], "window_kwargs": dict(d["window_kwargs"] or {})},
                               "pad": {"apply": d["pad"], "df": d["df"]}, "offsets": {"min": d["min_offset"], "max": d["max_offset"]}},
            "processing": {"transform": d["transform"], "fmin": d["fmin"], "fmax": d["fmax"], "vmin": d["vmin"], "vmax": d["vmax"],
                           "nvel": d["nvel"], "vspace": d["vspace"],
                           "fdbf-specific": {"weighting": d["weighting"], "steering": d["steering"]}},
            "signal-to-noise": {"perform": d["snr"], "noise": {"begin": d["noise_begin"], "end": d["noise_end"]},
                                "signal": {"begin": d["signal_begin"], "end": d["signal_end"]},
                                "pad": {"apply": d["pad_snr"], "df": d["df_snr"]}}}


def settings_of(op):
    """The same, perhaps without entries which may be left out."""
    s = settings_by_hand(op["kw"])
    if "fdbf" in op.get("bare", ()):
        del s["processing"]["fdbf-specific"]
    if "window" in op.get("bare", ()):
        del s["pre-processing"]["mute"]["window_kwargs"]
    return s

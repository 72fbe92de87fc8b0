"""Histories of normalising, plotting and stacking wavefield transforms (C15)."""

import contextlib

import numpy as np

from ..core import ui
from ..core.ctx import where
from .common import close, mostly
from .opsworld import OpsWorld
from .records import amp_of

NORMS = ("none", "absolute-maximum", "frequency-maximum")


def make_array(spec):
    """Library array from a JSON description."""
    import swprocess as sw
    sens = []
    for k, x in enumerate(spec["xs"]):
        amp = amp_of(dict(spec["rec"], aseed=spec["rec"]["aseed"] + k))
        sens.append(sw.Sensor1C(amp, spec["rec"]["dt"], x, 0, 0, nstacks=spec["rec"].get("nstacks", 1),
                                delay=spec["rec"].get("delay", 0)))
    return sw.Array1D(sens, sw.Source(spec["src"], 0, 0))


def gen_array(rng, nmin=2, nmax=6):
    n = mostly(rng, range(nmin, nmax + 1), [12, 24], 0.02)
    step = rng.choice([1, 2, 0.5, 5])
    xs = [k * step + rng.choice([0, 0, 10]) * 0 for k in range(n)]
    src = rng.choice([-1, -5.5, xs[-1] + 1, xs[-1] + 5.5])
    dt = rng.choice([0.001, 0.002, 0.004])
    return {"xs": xs, "src": src,
            "rec": {"n": rng.choice([50, 64, 100]), "dt": dt, "aseed": rng.randrange(10**6), "kind": "float",
                    "delay": -rng.choice([0, 0, 5 * dt, round(rng.choice([7, 19, 23, 43]) * dt, 9)])}}


def gen_proc(rng):
    """Processing settings."""
    fmin = rng.choice([5.0, 10.0, 20.0])
    return {"transform": rng.choice(["fdbf", "fdbf", "fk", "phaseshift", "slantstack"]),
            "fmin": fmin, "fmax": fmin + rng.choice([20.0, 40.0, 80.0]),
            "vmin": rng.choice([100.0, 150.0]), "vmax": rng.choice([300.0, 500.0, 1000.0]), "nvel": mostly(rng, [5, 8, 12], [30, 50], 0.02),
            "vspace": rng.choice(["linear", "lin", "log", "logarithmic"]),
            "fdbf-specific": {"weighting": rng.choice(["sqrt", "invamp", "none"]),
                              "steering": rng.choice(["cylindrical", "plane"])}}


def normalized(p, by):
    p = np.abs(p)
    if by == "absolute-maximum":
        return p / np.max(p)
    if by == "frequency-maximum":
        return p / np.max(p, axis=0)
    return p


class Model:
    """What a transform must hold: the power as computed and how it is shown."""

    def __init__(self, frequencies, velocities, power, n):
        self.f, self.v, self.p, self.n = np.array(frequencies), np.array(velocities), np.array(power), n
        self.by = ["raw"]           # possible ways the power may be shown
        self.clear()

    def clear(self):
        if not np.any(self.p):      # nothing stacked yet
            self.peak = None
            return
        mag = np.abs(self.p)
        self.peak = self.v[np.argmax(mag, axis=0)]
        s = np.sort(mag, axis=0)
        self.sure = s[-1] - s[-2] > 1e-9 * s[-1]    # no ties

    def shown(self, by):
        return self.p if by == "raw" else normalized(self.p, by)

    def diff(self, t):
        if not (np.array_equal(t.frequencies, self.f) and np.array_equal(t.velocities, self.v)):
            return "frequencies or velocities changed"
        if t.n != self.n:
            return f"holds {t.n} transforms, not {self.n}"
        if not np.any(self.p) and self.by != ["raw"]:
            return None             # a maximum of zero: what is shown means nothing
        for by in self.by:
            want = self.shown(by)
            if close(t.power, want, 1e-8, 1e-12 * max(1e-300, np.max(np.abs(want)))):
                self.by = [by]
                return None
        got = np.abs(np.asarray(t.power))
        return f"power is not as computed with normalization {self.by}: maxima {np.max(got)} {np.max(got, axis=0)[:4]}"


class TransformWorld(OpsWorld):
    """C15."""
    real = ["swprocess.wavefieldtransforms", "swprocess.array1d", "numpy", "scipy.special", "matplotlib (Agg)"]
    stub = ["interrupts (raised at chosen lines of the library)", "failing drawing calls"]
    rule = ("a case is a history of normalising, plotting, picking and stacking over several transforms, with refused, failing "
            "and interrupted calls in between; non-trivial if the power was shown in two ways or two transforms were stacked; "
            "distinct by event log")
    state_measure = "distinct digests of (operation, how each transform is shown, number stacked)"
    assumptions = ["every processed frequency carries some power"]

    def counts(self, tier):
        q = {"normalize": 900, "stack": 900, "mixed": 700, "faults": 1300}
        return q if tier == "quick" else {k: v * 25 for k, v in q.items()}

    def generate(self, rng, config):
        arr, proc = gen_array(rng), gen_proc(rng)
        ops, ts, ss, full = [], [], [], set()
        for _ in range(rng.randint(1, 3)):
            slot = f"t{len(ts)}"
            ts.append(slot)
            ops.append({"op": "make", "slot": slot, "kind": rng.choice(["fdbf", "fk", "phaseshift", "slantstack"])
                        if rng.random() < 0.5 else proc["transform"],
                        "array": dict(arr, rec=dict(arr["rec"], aseed=rng.randrange(10**6)))})
        if config != "normalize":
            for _ in range(rng.randint(1, 3)):
                slot = f"s{len(ss)}"
                ss.append(slot)
                ops.append({"op": "empty", "slot": slot, "array": arr})
        n = rng.randint(5, 14)
        while len(ops) < n:
            k = rng.choices(["normalize", "bad_normalize", "peaks", "bad_peaks", "plot", "bad_plot", "snr", "stack", "bad_stack"],
                            [4, 1, 2.5, 0.7, 1.5, 1, 0.7] + ([0, 0] if config == "normalize" else [6, 1.5] if config == "stack" else [4, 1]))[0]
            op = {"op": k, "slot": rng.choice(ts + (ss if rng.random() < 0.2 else [x for x in ss if x in full]))}
            if k in ("stack", "bad_stack"):
                op["slot"] = rng.choice(ss)
            if k == "stack":
                op["other"] = rng.choice(ts + ts + ss)
                full.add(op["slot"])
            if k == "bad_stack":
                op["what"] = rng.choice(["number", "none", "text", "shape"])
            if k == "normalize":
                op["by"] = rng.choice(NORMS + (None,))
            if k in ("plot", "bad_plot"):
                op.update(normalization=rng.choice(NORMS + (None,)), peaks=rng.choice(["none", "frequency-maximum", None]),
                          axes=rng.choice(["given", "given", "cax", "new"]), rasterize=rng.random() < 0.2,
                          nearfield=rng.choice([None, None, 1, 2, 1.5]), cmap=rng.choice(["jet", "viridis"]),
                          peak_kwargs=rng.choice([None, {"marker": "x"}]), colorbar_kwargs=rng.choice([None, {"pad": 0.05}, {"ticks": [0.0, 0.5]}]))
            if k == "bad_plot":
                op["bad"] = rng.choice(["ax without fig", "cmap", "normalization", "peaks", "kwargs", "nearfield"])
            if config == "faults" and k in ("normalize", "plot", "stack", "peaks", "snr") and rng.random() < 0.5:
                exc = rng.choice(["KeyboardInterrupt", "MemoryError"])
                if k in ("plot", "snr") and rng.random() < 0.5:
                    op["draw"] = {"at": rng.choice([0, 0, 1, 1, 2, 3, 4, 5]), "exc": exc}
                else:
                    op["line"] = {"at": rng.randrange(14) if k != "plot" else rng.randrange(34), "exc": exc}
            if k == "stack" and rng.random() < 0.4:      # look, stack, look again
                look = {"op": "peaks", "slot": op["slot"]} if rng.random() < 0.5 else \
                    {"op": "normalize", "slot": op["slot"], "by": rng.choice(NORMS)}
                ops += [look, op, dict(look)]
                continue
            ops.append(op)
        if config == "faults":
            for slot in ts + ss:
                ops.append({"op": "normalize", "slot": slot, "by": rng.choice(NORMS)})
        return {"ops": ops, "proc": proc}

    # -- execution ---------------------------------------------------------
    def setup(self, ctx, plan, fs):
        self.obj, self.mod, self.nshow = {}, {}, 0

    def finish(self, ctx, plan):
        import matplotlib.pyplot as plt
        plt.close("all")

    def after(self, ctx, op):
        key = []
        for slot, m in self.mod.items():
            t = self.obj[slot]
            d = ctx.observe(lambda: m.diff(t), "looking at a transform")
            ctx.check(d is None, f"transform differs after {op['op']}", lambda: f"{slot}: {d}")
            key.append((slot, m.by, m.n))
        ctx.state((op["op"], key))

    def call(self, ctx, op, fn, *args, **kwargs):
        with ui.DrawFault(ctx, op["draw"]) if op.get("draw") else contextlib.nullcontext():
            return ctx.call(fn, *args, line_fault=op.get("line"), **kwargs)

    def interrupted(self, ctx, op, out):
        return (op.get("line") or op.get("draw")) and isinstance(out.exc, (KeyboardInterrupt, MemoryError)) \
            and "injected" in str(out.exc)

    def op_make(self, ctx, op):
        from swprocess.register import WavefieldTransformRegistry
        proc = dict(self.plan["proc"], transform=op["kind"])
        array = ctx.must(make_array, op["array"], what="building an array")
        cls = ctx.must(WavefieldTransformRegistry.create_class, op["kind"], what="finding the transform")
        out = ctx.call(cls.from_array, array, proc)
        if not out.ok:          # C11 judges this; e.g. the record is too short for the slowest velocity
            ctx.probe("transform refused")
            ctx.ev("refused", where(out.exc), str(out.exc))
            return out.name()
        t = out.value
        if not np.all(np.isfinite(np.abs(t.power))) or not np.all(np.max(np.abs(t.power), axis=0) > 0):
            ctx.probe("transform without power")
            return "no power"
        if hasattr(t, "array"):
            t.array = array
        self.obj[op["slot"]] = t
        self.mod[op["slot"]] = Model(t.frequencies, t.velocities, t.power, 1)
        ctx.ev("made", t.power)

    def op_empty(self, ctx, op):
        from swprocess.register import WavefieldTransformRegistry
        array = ctx.must(make_array, op["array"], what="building an array")
        cls = ctx.must(WavefieldTransformRegistry.create_class, "empty", what="finding the transform")
        t = ctx.must(cls.from_array, array, self.plan["proc"], what="empty transform")
        t.array = array
        self.obj[op["slot"]] = t
        m = self.mod[op["slot"]] = Model(t.frequencies, t.velocities, t.power, 0)
        ctx.check(not np.any(m.p), "an empty transform holds power")

    def usable(self, slot):
        return slot in self.mod and self.mod[slot].n > 0

    def op_normalize(self, ctx, op):
        if op["slot"] not in self.mod:
            return "skip"
        t, m = self.obj[op["slot"]], self.mod[op["slot"]]
        by = op["by"] or "frequency-maximum"
        out = self.call(ctx, op, t.normalize, *([op["by"]] if op["by"] else []))
        self.show(ctx, op, out, m, by, False)
        return out.name()

    def show(self, ctx, op, out, m, by, bad):
        if m.n == 0:                # nothing to show: refused or not, it must not spoil what is stacked later
            m.by = m.by + [by]
            ctx.probe("nothing to show")
        elif self.interrupted(ctx, op, out):
            m.by = m.by + [by]
            ctx.probe("interrupted")
        elif bad:
            ctx.check(not out.ok, f"{op['op']}: not refused", lambda: op)
            m.by = m.by + [by]
            ctx.probe("failed call")
        else:
            ctx.check(out.ok, f"{op['op']}: unexpected {out.name()}", lambda: f"{where(out.exc)}: {out.exc} {op}")
            m.by = [by]
            self.nshow += 1
            ctx.nontrivial |= self.nshow > 1

    def op_bad_normalize(self, ctx, op):
        if not self.usable(op["slot"]):
            return "skip"
        out = ctx.call(self.obj[op["slot"]].normalize, "wavelength-maximum")
        ctx.check(not out.ok, "an unknown normalization was accepted")
        ctx.probe("failed call")

    def op_peaks(self, ctx, op):
        if not self.usable(op["slot"]):
            return "skip"
        m = self.mod[op["slot"]]
        out = self.call(ctx, op, self.obj[op["slot"]].find_peak_power)
        if self.interrupted(ctx, op, out):
            return "interrupted"
        ctx.check(out.ok, f"find_peak_power: unexpected {out.name()}", lambda: repr(out.exc))
        ctx.check(np.array_equal(np.asarray(out.value)[m.sure], m.peak[m.sure]), "the velocity of maximum power changed",
                  lambda: f"{out.value} != {m.peak} shown {m.by}")
        ctx.probe("peaks compared")

    def op_bad_peaks(self, ctx, op):
        if not self.usable(op["slot"]):
            return "skip"
        out = ctx.call(self.obj[op["slot"]].find_peak_power, by="wavelength-maximum")
        ctx.check(not out.ok, "an unknown kind of peak was accepted")

    def figure(self):
        import matplotlib.pyplot as plt
        if not hasattr(self, "fig") or not plt.fignum_exists(self.fig.number):
            self.fig = plt.figure(figsize=(2, 2))
        self.fig.clf()
        return self.fig

    def op_plot(self, ctx, op, bad=None):
        if op["slot"] not in self.mod:
            return "skip"
        import matplotlib.pyplot as plt
        t, m = self.obj[op["slot"]], self.mod[op["slot"]]
        kw = {k: op[k] for k in ("normalization", "peaks", "nearfield", "cmap", "peak_kwargs", "colorbar_kwargs") if op[k] is not None}
        if op["rasterize"]:
            kw["rasterize"] = True
        ax = None
        if op["axes"] != "new":
            fig = self.figure()
            ax = fig.add_subplot(121)
            kw.update(fig=fig, ax=ax)
            if op["axes"] == "cax":
                kw["cax"] = fig.add_subplot(122)
                (kw.get("colorbar_kwargs") or {}).pop("pad", None)
        if bad == "ax without fig":
            kw["ax"] = self.figure().add_subplot(111)
            kw["fig"] = None
        elif bad == "cmap":
            kw["cmap"] = "no such map"
        elif bad == "normalization":
            kw["normalization"] = "no such normalization"
        elif bad == "peaks":
            kw["peaks"] = "no such peaks"
        elif bad == "kwargs":
            kw.update(peaks="frequency-maximum", peak_kwargs={"no_such_option": 1})
        elif bad == "nearfield":
            kw["nearfield"] = "two"
        was = set(plt.get_fignums())
        given = {k: dict(v) for k, v in kw.items() if isinstance(v, dict)}
        out = self.call(ctx, op, t.plot, **kw)
        by = kw.get("normalization", "frequency-maximum")
        self.show(ctx, op, out, m, by if by in NORMS else m.by[0], bad)
        for k, v in given.items():
            ctx.check(kw[k] == v, "plotting changed the options passed", lambda: f"{k} {v} -> {kw[k]}")
        if out.ok and m.n > 0:
            ctx.probe("plotted")
            if op["axes"] == "new":
                fig, ax = out.value
            else:
                ctx.check(out.value is None, "plot on given axes returned something")
            want = m.peak
            lines = [li for li in ax.get_lines() if np.shape(li.get_xdata()) == m.f.shape and np.array_equal(li.get_xdata(), m.f)]
            if kw.get("peaks") != "none":
                ctx.check(any(np.array_equal(np.asarray(li.get_ydata())[m.sure], want[m.sure]) for li in lines),
                          "the peaks shown are not those of maximum power")
            elif len(m.f) != 30:
                ctx.check(not lines, "peaks were shown though not asked for")
        for k in set(plt.get_fignums()) - was:
            plt.close(k)
        return out.name()

    def op_bad_plot(self, ctx, op):
        if op["bad"] == "kwargs" or op["bad"] == "ax without fig" or True:
            return self.op_plot(ctx, op, bad=op["bad"])

    def op_snr(self, ctx, op):
        """Plotting the signal-to-noise ratio of a transform."""
        if not self.usable(op["slot"]):
            return "skip"
        t = self.obj[op["slot"]]
        ax = self.figure().add_subplot(111)
        out = self.call(ctx, op, t.plot_snr, ax=ax)
        if self.interrupted(ctx, op, out):
            return "interrupted"
        ctx.check(out.ok, f"plot_snr: unexpected {out.name()}", lambda: repr(out.exc))
        return out.name()

    def op_stack(self, ctx, op):
        a, b = op["slot"], op["other"]
        if a not in self.mod or b not in self.mod or a == b:
            return "skip"
        m, o = self.mod[a], self.mod[b]
        if m.n + o.n == 0:
            return "skip"
        if m.by != ["raw"] or o.by != ["raw"]:
            ctx.probe("stacked after being shown")
        before = (m.p, m.n)
        stacked = (m.p * m.n + o.p * o.n) / (m.n + o.n)
        out = self.call(ctx, op, self.obj[a].stack, self.obj[b])
        if self.interrupted(ctx, op, out):
            # All or nothing.
            if self.obj[a].n == before[1]:
                ctx.probe("stacking undone by an interrupt")
                return "interrupted"
        else:
            ctx.check(out.ok, f"stack: unexpected {out.name()}", lambda: repr(out.exc))
        m.p, m.n, m.by = stacked, m.n + o.n, ["raw"]
        m.clear()
        if m.n > 1:
            ctx.nontrivial = True
        ctx.probe("stacked")

    def op_bad_stack(self, ctx, op):
        a = op["slot"]
        if a not in self.mod:
            return "skip"
        other = {"number": 3.0, "none": None, "text": "fdbf"}.get(op["what"])
        if op["what"] == "shape":
            from swprocess.register import WavefieldTransformRegistry
            m = self.mod[a]
            cls = WavefieldTransformRegistry.create_class("fdbf")
            other = cls(np.arange(len(m.f) + 2), np.arange(len(m.v) + 1), np.ones((len(m.v) + 1, len(m.f) + 2)))
        out = ctx.call(self.obj[a].stack, other)
        ctx.check(not out.ok, "stacking something else was accepted", lambda: op["what"])
        ctx.probe("failed call")

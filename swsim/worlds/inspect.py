"""Histories of looking at data: nothing may change (C16)."""

import contextlib
import copy
import json

import numpy as np

from ..core import randseam, ui
from ..core.ctx import digest, where
from .common import BASE_ATTRS, build, do_reject, gen_ids, gen_peaks, gen_reject, MPeaks, mostly
from .opsworld import OpsWorld
from .transforms import NORMS, gen_array, gen_proc, make_array, normalized

MISSING = object()


def freeze(x, depth=0):
    """Canonical description of plain data: containers, arrays, numbers, text."""
    if isinstance(x, np.ndarray):
        return ("array", str(x.dtype), digest(x)) if x.dtype != object else ("array", [freeze(v, depth + 1) for v in x.ravel()])
    if isinstance(x, np.ma.MaskedArray):
        return ("masked", digest(x.filled()), digest(np.ma.getmaskarray(x)))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [freeze(v, depth + 1) for v in x])
    if isinstance(x, dict):
        return ("dict", [(repr(k), freeze(v, depth + 1)) for k, v in x.items()])
    if isinstance(x, (str, int, float, complex, bool, np.generic)) or x is None:
        return (type(x).__name__, repr(x))
    return ("object", type(x).__name__, id(x))


def get(obj, name):
    try:
        return freeze(getattr(obj, name))
    except AttributeError:
        return "-"


PUBLIC = {
    "peaks": ["identifier", "attrs", "frequency", "velocity", "azimuth", "ellipticity", "noise", "power", "slowness", "wavelength",
              "wavenumber", "extended_attrs"],
    "record": ["amplitude", "dt", "nsamples", "nstacks", "delay", "time", "df", "multiple", "x", "y", "z"],
    "source": ["x", "y", "z"],
    "array": ["nchannels", "offsets", "array_center_distance"],
    "transform": ["frequencies", "velocities", "power", "n", "snr", "snr_frequencies"],
}


def look(kind, obj, path):
    """All that can be observed of an object."""
    if kind == "peaks":
        out = [(n, get(obj, n)) for n in PUBLIC["peaks"]]
        obj.to_json(path)
        with open(path) as f:
            return out + [json.load(f)]
    if kind == "suite":
        return [list(obj.ids), [look("peaks", p, path) for p in obj.peaks], [id(p) for p in obj.peaks]]
    if kind == "array":
        return [[(n, get(s, n)) for n in PUBLIC["record"]] for s in obj.sensors] + \
            [(n, get(obj.source, n)) for n in PUBLIC["source"]] + [(n, get(obj, n)) for n in PUBLIC["array"]] + \
            [[id(s) for s in obj.sensors], freeze(obj.position()), freeze(obj.timeseriesmatrix())]
    return [(n, get(obj, n)) for n in PUBLIC["transform"]]


def drawn(axes):
    """What is shown on some axes."""
    out = []
    for ax in axes:
        lines = [(digest(np.asarray(li.get_xdata(), dtype=float)), digest(np.asarray(li.get_ydata(), dtype=float)),
                  str(li.get_color()), str(li.get_linestyle()), str(li.get_marker()), str(li.get_label()),
                  li.get_linewidth(), li.get_markersize()) for li in ax.get_lines()]
        out.append((lines, [(t.get_text(), t.get_position()) for t in ax.texts], ax.get_xlabel(), ax.get_ylabel(),
                    tuple(map(float, ax.get_xlim())), tuple(map(float, ax.get_ylim())), ax.get_xscale(), ax.get_yscale(),
                    len(ax.collections), ax.get_title()))
    return repr(out)


class InspectWorld(OpsWorld):
    """C16."""
    uses_fs = False
    real = ["swprocess.peaks", "swprocess.peakssuite", "swprocess.array1d", "swprocess.wavefieldtransforms", "matplotlib (Agg)",
            "numpy", "scipy"]
    stub = ["interrupts (raised at chosen lines of the library)", "failing drawing calls"]
    rule = ("a case is a history of inspections (plots on new and given axes, tables, statistics, comparisons, text) of peaks, a "
            "suite, an array and a transform, with refused, failing and interrupted ones, and edits in between; non-trivial if an "
            "inspection succeeded twice; distinct by event log")
    state_measure = "distinct (kind of inspection, its outcome, digest of the data inspected)"
    assumptions = ["normalising a transform's power is what its plot documents"]

    def counts(self, tier):
        q = {"peaks": 500, "suite": 600, "array": 500, "transform": 300, "faults": 1000}
        return q if tier == "quick" else {k: v * 25 for k, v in q.items()}

    # -- generation --------------------------------------------------------
    def generate(self, rng, config):
        nset = mostly(rng, [1, 2, 3, 4], [7, 11])
        ids = gen_ids(rng, nset)
        dims = rng.choice([1, 1, 2])
        extras = rng.choice([[], [], ["azimuth"], ["power"], ["azimuth", "ellipticity", "noise", "power"]])
        peaks = [gen_peaks(rng, i, dims=dims, extras=extras) for i in ids]
        mods = [MPeaks.from_spec(p) for p in peaks]
        plan = {"peaks": peaks, "array": gen_array(rng, 2, 7), "proc": gen_proc(rng), "tseed": rng.randrange(10**6)}
        plan["proc"].update(nvel=5)
        if rng.random() < 0.3:
            plan["array"]["xs"] = sorted({round(x + rng.choice([0, 0.25]), 2) for x in plan["array"]["xs"]})
        kinds = {"peaks": ["peaks"], "suite": ["suite"], "array": ["array"], "transform": ["transform"],
                 "faults": ["peaks", "suite", "suite", "array", "array", "transform"]}[config]
        ops = []
        for _ in range(rng.randint(3, 7)):
            if rng.random() < 0.12:
                ops.append({"op": "reject", "how": gen_reject(rng, mods)})
            op = getattr(self, "gen_" + rng.choice(kinds))(rng, nset)
            if config == "faults" and rng.random() < 0.6:
                exc = rng.choice(["KeyboardInterrupt", "MemoryError", "MemoryError"])
                if rng.random() < 0.5:
                    op["draw"] = {"at": rng.choice([0, 0, 1, 1, 2, 3, 4, 6, 9]), "exc": rng.choice([exc, "ValueError", "RuntimeError"])}
                else:
                    op["line"] = {"at": rng.choice([rng.randrange(12), rng.randrange(40), rng.randrange(100)]), "exc": exc}
            ops.append(op)
        plan["ops"] = ops
        return plan

    def types(self, rng):
        x, y = rng.choice(["frequency", "wavelength", "wavelength", "frequency"]), rng.choice(["velocity", "slowness", "velocity", "wavenumber"])
        r = rng.random()
        if r < 0.5:
            return x, y
        if r < 0.75:
            return [x], [y]
        return ["frequency", "wavelength"], ["velocity", rng.choice(["velocity", "slowness"])]

    def gen_peaks(self, rng, nset):
        what = rng.choice(["plot", "plot", "plot", "text", "simplify", "bad_plot"])
        op = {"op": "peaks", "what": what, "k": rng.randrange(nset)}
        if "plot" in what:
            op["xtype"], op["ytype"] = self.types(rng)
            op["kw"] = rng.choice([None, None, {"color": "r"}, {"marker": "x", "label": "mine"}, {}])
            op["mask"] = rng.choice([None, None, None, "all", "some"])
        if what == "bad_plot":
            op["bad"] = rng.choice(["attr", "type", "kwargs", "mask", "length"])
        if what == "simplify":
            op["attr"] = rng.choice(BASE_ATTRS)
        return op

    def gen_suite(self, rng, nset):
        what = rng.choice(["plot", "plot", "plot", "limits", "statistics", "statistics", "to_array", "plot_statistics", "calc",
                           "compare", "bad_plot", "random_stats"])
        op = {"op": "suite", "what": what}
        if "plot" in what or what == "limits":
            op["xtype"], op["ytype"] = self.types(rng)
            op["axes"] = rng.choice(["new", "given", "given", "list"])
            op["kw"] = rng.choice([None, None, {"color": "r"}, {"color": (["r", "g", "b", "k"] * 3)[:nset]}, {"label": None},
                                   {"label": "same", "marker": ["x"] * nset}, {"label": ["one"] * nset}, {}])
            op["mask"] = rng.choice([None, None, None, "all", "some"])
        if what == "bad_plot":
            op["bad"] = rng.choice(["attr", "type", "kwargs", "mask", "axes", "length"])
        if what in ("limits", "calc"):
            op["attribute"] = rng.choice(["wavelength", "wavenumber", "velocity"])
            op["limits"] = rng.choice([[1.0, 50.0], [0.1, 2.0]])
            op["xtype"], op["ytype"] = rng.choice(["frequency", "wavelength"]), rng.choice(["velocity", "slowness", "wavenumber"])
            op["kw"] = rng.choice([None, {"color": "r"}, {"label": "limit here"}])
        if what in ("statistics", "to_array", "random_stats"):
            op["xtype"], op["ytype"] = rng.choice(["frequency", "wavelength"]), rng.choice(["velocity", "slowness"])
            op["xx"] = sorted(rng.uniform(2, 70) for _ in range(rng.randint(1, 8)))
            op["aslist"] = rng.random() < 0.3
            op["ignore_corr"], op["count"] = rng.random() < 0.5, rng.choice([1, 2, 3])
            op["substitute"] = rng.random() < 0.4
            op["gseed"] = rng.randrange(10**6)
        if what == "plot_statistics":
            op["kw"] = rng.choice([None, {"color": "r"}, {"capsize": 3}])
        return op

    def gen_array(self, rng, nset):
        what = rng.choice(["waterfall"] * 4 + ["plot"] * 2 + ["matrix", "numbers", "pick", "compare", "bad_waterfall", "crosscorr"])
        op = {"op": "array", "what": what}
        if what in ("waterfall", "bad_waterfall"):
            op.update(axes=rng.choice(["new", "given", "given"]), time_ax=rng.choice(["x", "y"]),
                      amplitude_detrend=rng.random() < 0.5, amplitude_normalization=rng.choice(["none", "each", "all"]),
                      amplitude_scale=rng.choice([None, None, 2, 0.1]), position_normalization=rng.random() < 0.5,
                      kw=rng.choice([None, None, {"color": "k"}, {"label": "shot"}, {"label": "shot", "linewidth": 2}]))
        if what == "bad_waterfall":
            op["bad"] = rng.choice(["time_ax", "kwargs"])
        if what == "plot":
            op.update(axes=rng.choice(["new", "given"]), kw=rng.choice([None, {"color": "r"}, {"label": "x"}]),
                      kw2=rng.choice([None, {"marker": "o"}]))
        if what == "matrix":
            op.update(detrend=rng.random() < 0.5, normalize=rng.choice(["none", "each", "all"]))
        if what == "pick":
            op["threshold"] = rng.choice([0.05, 0.01])
        return op

    def gen_transform(self, rng, nset):
        what = rng.choice(["plot", "plot", "peaks", "snr", "bad_plot"])
        op = {"op": "transform", "what": what, "axes": rng.choice(["given", "given", "new"])}
        if "plot" in what:
            op.update(normalization=rng.choice(NORMS), peaks=rng.choice(["none", "frequency-maximum"]),
                      nearfield=rng.choice([None, 1, 2]), cmap=rng.choice(["jet", "viridis"]),
                      peak_kwargs=rng.choice([None, {}, {"marker": "x"}]), colorbar_kwargs=rng.choice([None, {}, {"pad": 0.05}]))
        if what == "bad_plot":
            op["bad"] = rng.choice(["cmap", "peaks", "kwargs"])
        if what == "snr":
            op["kw"] = rng.choice([None, {}, {"color": "r"}, {"linewidth": 2}])
        return op

    # -- execution ---------------------------------------------------------
    def setup(self, ctx, plan, fs):
        import os
        import swprocess as sw
        from swprocess.register import WavefieldTransformRegistry
        self.path = os.path.join(ctx.scratch, "look.json")
        ps = [ctx.must(build, p, what="Peaks()") for p in plan["peaks"]]
        suite = ctx.must(sw.PeaksSuite.from_peaks, ps, what="PeaksSuite()")
        array = ctx.must(make_array, plan["array"], what="Array1D()")
        self.obj = {"suite": suite, "array": array}
        tarray = ctx.must(make_array, plan["array"], what="Array1D()")
        cls = WavefieldTransformRegistry.create_class(plan["proc"]["transform"])
        out = ctx.call(cls.from_array, tarray, plan["proc"])
        if out.ok and np.all(np.isfinite(out.value.power)) and np.all(np.max(np.abs(out.value.power), axis=0) > 0):
            t = out.value
            t.array = tarray
            r = np.random.RandomState(plan["tseed"])
            t.snr, t.snr_frequencies = r.rand(4), np.arange(4.0)
            self.obj["transform"] = t
        else:
            ctx.probe("no transform")
        self.raw = np.array(self.obj["transform"].power) if "transform" in self.obj else None
        self.defaults = self.class_state()
        self.memo, self.again = {}, 0
        self.seen = {k: ctx.observe(lambda: look(k, o, self.path), "looking at " + k) for k, o in self.obj.items()}

    def class_state(self):
        """Defaults shared by all objects."""
        import swprocess as sw
        return freeze(copy.deepcopy(sw.Peaks.axes_defaults)) if hasattr(sw.Peaks, "axes_defaults") else None

    def finish(self, ctx, plan):
        import matplotlib.pyplot as plt
        plt.close("all")

    def after(self, ctx, op):
        for k, o in self.obj.items():
            now = ctx.observe(lambda: look(k, o, self.path), "looking at " + k)
            if op["op"] == "reject" and k == "suite":
                self.seen[k] = now
                continue
            if op["op"] == "transform" and k == "transform" and "plot" in op["what"]:
                ok = self.judge_power(o, op)
                ctx.check(ok, "plotting changed a transform", lambda: op)
                self.seen[k] = [(n, v) for n, v in self.seen[k] if n != "power"]
                now2 = [(n, v) for n, v in now if n != "power"]
                ctx.check(now2 == self.seen[k], "looking changed a transform", lambda: differ(self.seen[k], now2))
                self.seen[k] = now
                continue
            ctx.check(now == self.seen[k], f"looking changed data: {k} by {op['op']}.{op.get('what')}", lambda: differ(self.seen[k], now))
        now = self.class_state()
        ctx.check(now == self.defaults, "looking changed defaults shared by all peaks", lambda: f"{now} != {self.defaults}")

    def judge_power(self, t, op):
        for by in NORMS + ("raw",):
            want = self.raw if by == "raw" else normalized(self.raw, by)
            if np.shape(t.power) == want.shape and np.allclose(t.power, want, rtol=1e-8, atol=1e-12 * np.max(np.abs(want))):
                return True
        return False

    def figure(self, ncols=1):
        import matplotlib.pyplot as plt
        if not hasattr(self, "fig") or not plt.fignum_exists(self.fig.number):
            self.fig = plt.figure(figsize=(2, 2))
        self.fig.clf()
        return [self.fig.add_subplot(1, ncols, k + 1) for k in range(ncols)]

    def inspect(self, ctx, op, fn, args, kwargs, bad=False, shows=None, target=None):
        """Perform an inspection twice; arguments stay, results agree."""
        results = []
        ok = True
        for attempt in range(2):
            axes = shows() if shows else None
            kw = dict(kwargs)
            if axes is not None and kw.get("ax") == "given":
                kw["ax"] = axes[0] if len(axes) == 1 and not isinstance(op.get("xtype"), list) else (axes if op["what"] in ("plot", "bad_plot") and op["op"] == "suite" and (op.get("axes") == "list" or len(axes) > 1) else axes[0])
            held = {k: v for k, v in kw.items() if k not in ("ax", "fig", "cax")}
            before = freeze([list(args), held]), (list(kw["ax"]) if isinstance(kw.get("ax"), list) else None)
            with ui.DrawFault(ctx, op["draw"]) if op.get("draw") and attempt == 0 else contextlib.nullcontext():
                out = ctx.call(fn, *args, line_fault=op.get("line") if attempt == 0 else None, **kw)
            after = freeze([list(args), held]), (list(kw["ax"]) if isinstance(kw.get("ax"), list) else None)
            ctx.check(before == after, f"{op['op']}.{op['what']} changed what was passed to it", lambda: f"{before} -> {after}")
            ctx.ev("look", op["op"], op["what"], out.name())
            injected = not out.ok and "injected" in str(out.exc)
            if injected:
                ctx.probe("inspection failed by fault")
                self.after(ctx, op)
                self.close(out)
                continue
            if not out.ok:
                results.append(out.name())
                if not bad:
                    ctx.probe(f"{op['op']}.{op['what']} refused {out.name()}")
                ok = False
                continue
            ok = True
            value = out.value
            if isinstance(value, tuple) and len(value) == 2 and type(value[0]).__name__ == "Figure":
                ax = value[1]
                desc = drawn(list(ax) if isinstance(ax, (list, np.ndarray)) else [ax])
            elif axes is not None:
                desc = drawn(axes)
            else:
                desc = repr(freeze(value)) if not isinstance(value, np.ndarray) else repr(freeze(value))
            self.close(out)
            results.append(desc)
            if attempt == 0:
                self.after(ctx, op)
        if len(results) == 2:
            ctx.check(results[0] == results[1], f"{op['op']}.{op['what']} shows something else the second time",
                      lambda: differ(results[0], results[1]))
            if ok:
                self.again += 1
                ctx.nontrivial = True
        if results:
            key = json.dumps({k: v for k, v in op.items() if k not in ("draw", "line")}, sort_keys=True) + repr(self.seen.get(target or op["op"]))
            if op["op"] == "transform":
                key = None
            if key is not None:
                ctx.check(self.memo.setdefault(key, results[-1]) == results[-1], f"{op['op']}.{op['what']} shows something else later")
            ctx.state((op["op"], op["what"], results[-1]))
        return ok

    def close(self, out):
        import matplotlib.pyplot as plt
        keep = getattr(getattr(self, "fig", None), "number", None)
        for n in plt.get_fignums():
            if n != keep:
                plt.close(n)

    def mask_for(self, peak, how, k):
        if how is None:
            return None
        shape = np.shape(peak.frequency) if not hasattr(peak, "_valid") else peak._valid.shape
        if how == "all":
            return np.ones(shape, dtype=bool)
        r = np.random.RandomState(k)
        return r.rand(*shape) < 0.5

    def op_reject(self, ctx, op):
        ctx.must(do_reject, self.obj["suite"], op["how"], what="rejection")

    def op_peaks(self, ctx, op):
        p = self.obj["suite"].peaks[op["k"]]
        w = op["what"]
        if w == "text":
            self.inspect(ctx, op, lambda: (str(p), p == p, p == self.obj["suite"].peaks[0], p != p, p == 3), (), {}, target="suite")
        elif w == "simplify":
            self.inspect(ctx, op, p.simplify_mpeaks, (op["attr"],), {}, target="suite")
        else:
            kw = {"xtype": copy.deepcopy(op["xtype"]), "ytype": copy.deepcopy(op["ytype"]), "plot_kwargs": copy.deepcopy(op["kw"]),
                  "mask": self.mask_for(p, op["mask"], op["k"])}
            self.bad(op, kw)
            self.inspect(ctx, op, p.plot, (), kw, bad="bad" in op, target="suite")

    def bad(self, op, kw):
        b = op.get("bad")
        if b == "attr":
            kw["xtype"], kw["ytype"] = "frequency", "no_such_attribute"
        elif b == "type":
            kw["xtype"] = 3
        elif b == "kwargs":
            kw["plot_kwargs"] = {"no_such_option": "1"}
        elif b == "mask":
            kw["mask"] = [np.ones(3, dtype=bool)] if op["op"] == "suite" else np.ones((3, 77), dtype=bool)
        elif b == "length":
            kw["xtype"], kw["ytype"] = ["frequency"], ["velocity", "slowness"]

    def op_suite(self, ctx, op):
        import swprocess as sw
        s, w = self.obj["suite"], op["what"]
        n = 2 if isinstance(op.get("xtype"), list) and len(op["xtype"]) == 2 else 1
        if w == "compare":
            self.inspect(ctx, op, lambda: (s == s, s != s, s == 1, len(s), s[0].identifier, list(s.ids)), (), {})
        elif w in ("plot", "bad_plot"):
            kw = {"xtype": copy.deepcopy(op["xtype"]), "ytype": copy.deepcopy(op["ytype"]), "plot_kwargs": copy.deepcopy(op["kw"])}
            if op["mask"]:
                kw["mask"] = [self.mask_for(p, op["mask"], k) for k, p in enumerate(s.peaks)]
            shows = None
            if op["axes"] != "new":
                kw["ax"] = "given"
                shows = lambda: self.figure(n + (1 if op.get("bad") == "axes" else 0))
            self.bad(op, kw)
            self.inspect(ctx, op, s.plot, (), kw, bad="bad" in op, shows=shows)
        elif w == "limits":
            kw = {"ax": "given", "xtype": op["xtype"], "ytype": op["ytype"], "attribute": op["attribute"],
                  "limits": list(op["limits"]), "plot_kwargs": copy.deepcopy(op["kw"])}

            def shows():
                axes = self.figure(1)
                axes[0].set_xlim(1, 50)
                axes[0].set_ylim(1, 500)
                return axes
            self.inspect(ctx, op, sw.PeaksSuite.plot_resolution_limits, (), kw, shows=shows)
        elif w == "calc":
            args = (op["xtype"], op["attribute"], op["ytype"], list(op["limits"]), np.linspace(1, 9, 5), np.linspace(2, 90, 5))
            self.inspect(ctx, op, sw.PeaksSuite.calc_resolution_limits, args, {})
        elif w == "statistics":
            kw = {"xtype": op["xtype"], "ytype": op["ytype"], "xx": list(op["xx"]) if op["aslist"] else np.array(op["xx"]),
                  "ignore_corr": op["ignore_corr"], "drop_sample_if_fewer_count": op["count"], "mean_substitution": op["substitute"]}
            self.inspect(ctx, op, s.statistics, (), kw)
        elif w == "to_array":
            self.inspect(ctx, op, s.to_array, (op["xtype"], op["ytype"], list(op["xx"]) if op["aslist"] else np.array(op["xx"])), {})
        elif w == "random_stats":
            from swprocess.stats import Statistics

            # The draws differ each time: only the absence of changes is judged.
            xx = np.array(op["xx"])
            randseam.hook = lambda: np.random.default_rng._original(op["gseed"])
            try:
                ctx.call(Statistics.from_peakssuite, s, xx, op["xtype"], op["ytype"], line_fault=op.get("line"))
            finally:
                randseam.hook = None
            ctx.check(np.array_equal(xx, op["xx"]), "statistics changed the positions passed")
        elif w == "plot_statistics":
            xx, mean, std = np.arange(1.0, 5), np.arange(4.0) + 100, np.ones(4)
            self.inspect(ctx, op, sw.PeaksSuite.plot_statistics, (), {"ax": "given", "xx": xx, "mean": mean, "stddev": std,
                                                                     "errorbar_kwargs": copy.deepcopy(op["kw"])},
                         shows=lambda: self.figure(1))

    def op_array(self, ctx, op):
        import swprocess as sw
        a, w = self.obj["array"], op["what"]
        if w in ("waterfall", "bad_waterfall"):
            kw = {k: op[k] for k in ("time_ax", "amplitude_detrend", "amplitude_normalization", "amplitude_scale", "position_normalization")}
            kw["plot_kwargs"] = copy.deepcopy(op["kw"])
            shows = None
            if op["axes"] == "given":
                kw["ax"], shows = "given", lambda: self.figure(1)
            if op.get("bad") == "time_ax":
                kw["time_ax"] = "z"
            if op.get("bad") == "kwargs":
                kw["plot_kwargs"] = {"no_such_option": 1}
            self.inspect(ctx, op, a.waterfall, (), kw, bad="bad" in op, shows=shows)
        elif w == "plot":
            kw = {"sensor_kwargs": copy.deepcopy(op["kw"]), "source_kwargs": copy.deepcopy(op["kw2"])}
            shows = None
            if op["axes"] == "given":
                kw["ax"], shows = "given", lambda: self.figure(1)
            self.inspect(ctx, op, a.plot, (), kw, shows=shows)
        elif w == "matrix":
            self.inspect(ctx, op, a.timeseriesmatrix, (), {"detrend": op["detrend"], "normalize": op["normalize"]})
        elif w == "numbers":
            def numbers():
                try:
                    spacing = a.spacing
                except ValueError:
                    spacing = None
                return (a.position(), a.position(normalize=True), a.offsets, a.kres, a.nchannels, a.array_center_distance, spacing)
            self.inspect(ctx, op, numbers, (), {})
        elif w == "pick":
            self.inspect(ctx, op, a.auto_pick_first_arrivals, (), {"threshold": op["threshold"]})
        elif w == "compare":
            s = a[0]
            self.inspect(ctx, op, lambda: (a == a, a != a, a.is_similar(a), a == 1, s == s, s == a[-1], repr(s)[:20] != "", str(s)), (), {})
        elif w == "crosscorr":
            def cc():
                sw.ActiveTimeSeries.crosscorr(a[0], a[0])
                b = sw.ActiveTimeSeries.crosscorr_shift(a[0], a[0])
                c = sw.ActiveTimeSeries.from_activetimeseries(a[0])
                sw.ActiveTimeSeries.from_cross_stack(c, sw.ActiveTimeSeries.from_activetimeseries(a[-1]))
                return b
            self.inspect(ctx, op, cc, (), {})

    def op_transform(self, ctx, op):
        t, w = self.obj.get("transform"), op["what"]
        if t is None:
            return "skip"
        if w == "peaks":
            self.inspect(ctx, op, t.find_peak_power, (), {})
        elif w == "snr":
            kw = {"plot_kwargs": copy.deepcopy(op["kw"])}
            shows = None
            if op["axes"] == "given":
                kw["ax"], shows = "given", lambda: self.figure(1)
            self.inspect(ctx, op, t.plot_snr, (), kw, shows=shows)
        else:
            kw = {k: copy.deepcopy(op[k]) for k in ("normalization", "peaks", "nearfield", "cmap", "peak_kwargs", "colorbar_kwargs")}
            if op.get("bad") == "cmap":
                kw["cmap"] = "no such map"
            if op.get("bad") == "peaks":
                kw["peaks"] = "no such peaks"
            if op.get("bad") == "kwargs":
                kw.update(peaks="frequency-maximum", peak_kwargs={"no_such_option": 1})
            shows = None
            if op["axes"] == "given":
                kw["ax"] = "given"

                def shows():
                    axes = self.figure(1)
                    kw["fig"] = axes[0].figure
                    return axes
                self.figure(1)
                kw["fig"] = self.fig
            self.inspect(ctx, op, t.plot, (), kw, bad="bad" in op, shows=shows)


def differ(a, b):
    a, b = repr(a), repr(b)
    k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f"...{a[max(0, k - 80):k + 80]}... != ...{b[max(0, k - 80):k + 80]}..."

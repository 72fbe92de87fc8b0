"""Random replacement of missing values under a simulated generator (C14)."""

import warnings

import numpy as np

from ..core import randseam
from ..core.ctx import where
from .common import close, gen_peaks, build, mostly
from .opsworld import OpsWorld


class SimGenerator:
    """Stands in for numpy's generator; draws follow the script of the case.

    The script gives a standard score per attempt (attempts are counted in
    draws), `gauss` for pseudo-random scores, or a failure at the n-th draw.
    """

    def __init__(self, world):
        self.w = world

    def score(self):
        w = self.w
        n = w.drawn
        w.drawn += 1
        if w.fail is not None and n == w.fail["at"]:
            w.ctx.fault("generator-" + w.fail["exc"])
            raise {"MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt,
                   "RuntimeError": RuntimeError}[w.fail["exc"]]("injected")
        if w.drawn > w.limit:
            w.ctx.violation("replacement draws more values than its attempts need", f"{w.drawn} > {w.limit}")
        z = w.script[min(n // max(1, w.missing), len(w.script) - 1)]
        return w.gauss.standard_normal() if z == "gauss" else float(z)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None:
            if np.ndim(loc) or np.ndim(scale):
                size = np.broadcast(loc, scale).shape
            else:
                return loc + scale * self.score()
        z = np.array([self.score() for _ in range(int(np.prod(size)))]).reshape(size)
        return loc + scale * z

    def standard_normal(self, size=None):
        return self.normal(size=size)


def data_of(spec):
    """Observations (rows) of positions (columns) from their description."""
    r = np.random.RandomState(spec["seed"])
    n, m = spec["rows"], spec["cols"]
    mean = r.uniform(100, 500, m)
    base = r.randn(n, 1) * spec["common"] + r.randn(n, m) * (1 - spec["common"])
    data = mean * (1 + spec["cov"] * base)
    how, p = spec["gaps"], spec["p"]
    if how == "random":
        data[r.rand(n, m) < p] = np.nan
    elif how == "tail":             # deeper positions are missing
        for row in data:
            k = r.randint(int(m * (1 - p)), m + 1)
            row[k:] = np.nan
    elif how == "head":
        for row in data:
            row[:r.randint(0, int(m * p) + 1)] = np.nan
    elif how == "both":
        for row in data:
            row[:r.randint(0, int(m * p / 2) + 1)] = np.nan
            row[m - r.randint(0, int(m * p / 2) + 1):] = np.nan
    elif how == "single":
        data[r.randint(n), r.randint(m)] = np.nan
    elif how == "row":
        data[r.randint(n), :] = np.nan
    elif how == "sparse":           # hardly seen positions: replacement decides their mean
        for j in r.permutation(m)[:1 + m // 4]:
            data[r.permutation(n)[max(3, n // 10):], j] = np.nan
    xx = np.sort(r.uniform(1, 80, m)) if spec["xlog"] else np.arange(1.0, m + 1)
    return xx, data


def retained(data, count, percent, row_percent):
    """Rows and columns kept: columns dropped first or rows first, whichever loses fewer values per gap removed."""
    there = ~np.isnan(data)

    def columns(rows):
        n = there[rows].sum(axis=0)
        return (n >= count) & (n / max(1, rows.sum()) >= percent) if rows.any() else np.ones(len(n), bool)

    def lines(cols):
        if not cols.any():
            return np.ones(len(data), bool)
        return there[:, cols].sum(axis=1) / cols.sum() >= row_percent

    every = np.ones(len(data), bool), np.ones(data.shape[1], bool)
    cols = columns(every[0])
    first = lines(cols), cols
    rows = lines(every[1])
    second = rows, columns(rows)

    def gain(rows, cols):
        left = there[rows][:, cols]
        return ((~there).sum() - (~left).sum()) / (there.sum() - left.sum() + 1)

    a, b = gain(*first), gain(*second)
    if all(np.array_equal(x, y) for x, y in zip(first, second)):
        return [first]
    if abs(a - b) < 1e-12:
        return [first, second]
    return [first] if a > b else [second]


class ReplacementWorld(OpsWorld):
    """C14."""
    real = ["swprocess.stats", "swprocess.peakssuite", "numpy", "scipy.optimize"]
    stub = ["numpy.random.default_rng (draws chosen by the simulator)", "interrupts (raised at chosen lines of the library)"]
    rule = ("a case is a few statistics with random replacement, each with its own data, thresholds and limit of attempts, and "
            "with draws from the simulated generator (repeated scores, extreme scores, seeded normal scores, failures); "
            "non-trivial if a replacement was accepted or given up after several attempts; distinct by event log")
    state_measure = "distinct (outcome, attempts needed, positions retained, missing values)"
    assumptions = ["means are not zero", "the generator is reached through numpy.random.default_rng"]

    def counts(self, tier):
        q = {"scripted": 1600, "normal": 1200, "regions": 700, "failing": 900}
        return q if tier == "quick" else {k: v * 25 for k, v in q.items()}

    def generate(self, rng, config):
        ops = []
        for _ in range(rng.randint(1, 3)):
            regions = config == "regions"
            spec = {"rows": mostly(rng, [3, 4, 6, 10, 25, 60], [150, 400]), "cols": mostly(rng, [1, 2, 3, 5, 8], [20, 40]), "seed": rng.randrange(10**6),
                    "common": rng.choice([0.2, 0.5, 0.8]), "cov": rng.choice([0.02, 0.05, 0.1, 0.2]),
                    "gaps": rng.choice(["none", "random", "random", "tail", "head", "both", "single", "row"]),
                    "p": rng.choice([0.05, 0.1, 0.3, 0.6]), "xlog": rng.random() < 0.5}
            op = {"op": "statistics", "data": spec, "attempts": rng.choice([None, None, 1, 2, 3, 5, 10, 20]),
                  "density": rng.choice([None, 0.8, 0.9, 1.0, 0.6]) if regions else 0,
                  "drop": rng.choice([None, None, {"drop_sample_if_fewer_count": rng.choice([1, 2, 3, 5])},
                                      {"drop_sample_if_fewer_percent": 0.5}, {"drop_sample_if_fewer_count": 2, "drop_sample_if_fewer_percent": 0.3}]),
                  "rows": rng.choice([None, None, 0.3, 0.5, 0.8, 1.0]),
                  "gseed": rng.randrange(10**6), "order": rng.choice(["C", "F"]), "xlist": rng.random() < 0.2}
            if config == "normal" or (regions and rng.random() < 0.7):
                op["script"] = ["gauss"]
            else:
                bad = [0.0, 3.0, -3.0, 10.0, -10.0, 1e6, -1e9, 50.0]
                good = [0.0, 0.5, 0.9, -0.9, 1.0, -1.0, 1.1]
                if rng.random() < 0.15:         # spread kept, mean shifted
                    spec.update(rows=rng.choice([25, 40, 60]), gaps="sparse", cov=rng.choice([0.015, 0.02, 0.03]))
                    bad, good = [3.2, 3.33, -3.33, -3.2, 3.1, -3.1, 3.4, 10.0], [0.9, 3.33, -3.33, 3.2, -3.2]
                op["script"] = [rng.choice(bad) for _ in range(rng.choice([0, 0, 1, 1, 2, 4, 9, 10]))] + [rng.choice(good)]
            if config == "failing":
                r = rng.random()
                if r < 0.6:
                    op["fail"] = {"at": rng.choice([0, 0, 1, 2, 5, 11, 30]), "exc": rng.choice(["MemoryError", "KeyboardInterrupt", "RuntimeError"])}
                else:
                    op["line"] = {"at": rng.choice([rng.randrange(30), rng.randrange(150), rng.randrange(600)]),
                                  "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}
            ops.append(op)
        return {"ops": ops}

    # -- execution ---------------------------------------------------------
    def setup(self, ctx, plan, fs):
        self.ctx, self.fail = ctx, None
        randseam.hook = lambda: SimGenerator(self)

    def execute(self, ctx, plan, model, fs):
        try:
            return super().execute(ctx, plan, model, fs)
        finally:
            randseam.hook = None

    def run(self, ctx, op, xx, data, fail=None, line=None):
        from swprocess.stats import Statistics
        kw = {}
        if op["drop"] is not None:
            kw["drop_kwargs"] = dict(op["drop"])
        if op["rows"] is not None:
            kw["drop_kwargs"] = dict(kw.get("drop_kwargs", {}), drop_observation_if_fewer_percent=op["rows"])
        passed = dict(kw.get("drop_kwargs", {}))
        if op["density"] is not None:
            kw["density_threshold"] = op["density"]
        if op["attempts"] is not None:
            kw["replacement_attempts"] = op["attempts"]
        self.drawn, self.fail, self.script = 0, fail, op["script"]
        self.gauss = np.random.RandomState(op["gseed"])
        if fail:
            ctx.faults_set["generator-" + fail["exc"]] += 1
        with np.errstate(all="ignore"):
            out = ctx.call(Statistics.from_data_matrix, xx, data, line_fault=line, **kw)
        ctx.check(kw.get("drop_kwargs", {}) == passed, "the options passed were changed")
        return out

    def op_statistics(self, ctx, op):
        xx, clean = data_of(op["data"])
        d = {"drop_sample_if_fewer_count": 3, "drop_sample_if_fewer_percent": 0, **(op["drop"] or {})}
        choices = retained(clean, d["drop_sample_if_fewer_count"], d["drop_sample_if_fewer_percent"], op["rows"] or 0)
        rows, keep = choices[0]
        obs = clean[rows][:, keep]
        self.missing = int(np.sum(np.isnan(obs)))
        attempts = 10 if op["attempts"] is None else op["attempts"]
        self.limit = attempts * self.missing
        given = np.array(clean, order=op["order"])
        gx = [float(x) for x in xx] if op["xlist"] else xx.copy()
        out = self.run(ctx, op, gx, given, op.get("fail"), op.get("line"))
        ctx.check(np.array_equal(given, clean, equal_nan=True) and np.array_equal(np.array(gx), xx), "the caller's data were modified",
                  lambda: f"{np.sum(~((given == clean) | (np.isnan(given) & np.isnan(clean))))} values")
        injected = not out.ok and "injected" in str(out.exc)
        if injected:
            ctx.probe("failed by fault")
            # The same again, undisturbed.
            out = self.run(ctx, op, gx, given)
        first = self.describe(out)
        ctx.ev("statistics", out.name(), self.drawn, self.missing, int(keep.sum()))
        drawn = self.drawn
        if not rows.all():
            ctx.probe("observations dropped")
        if len(choices) > 1:
            ctx.probe("dropped either way")
            return out.name()
        if obs.size == 0:
            return "nothing retained"       # either outcome
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            self.judge(ctx, op, out, xx[keep], obs, attempts, drawn)
        again = self.run(ctx, op, gx, given)
        ctx.check(self.describe(again) == first and self.drawn == drawn, "the same draws gave another outcome")
        ctx.state((out.name(), -(-drawn // max(1, self.missing)), int(keep.sum()), self.missing))
        return out.name()

    def describe(self, out):
        if not out.ok:
            return out.name()
        s = out.value
        return [np.asarray(getattr(s, k)).tobytes() for k in ("xx", "mean", "stddev", "corr")]

    def judge(self, ctx, op, out, xx, obs, attempts, drawn):
        one = op["density"] == 0
        mean, std = np.nanmean(obs, axis=0), np.nanstd(obs, axis=0, ddof=1)
        usable = np.all(np.isfinite(std)) and np.all(std > 0)
        used = -(-drawn // self.missing) if self.missing else 1
        expected = None
        if one and (op["script"] != ["gauss"] or not self.missing) and (drawn or not self.missing) and usable:
            expected = "error"
            for k in range(attempts):
                z = op["script"][min(k, len(op["script"]) - 1)] if self.missing else 0.0
                filled = np.where(np.isnan(obs), mean + std * z if z != "gauss" else 0.0, obs)
                nm, ns = np.mean(filled, axis=0), np.std(filled, axis=0, ddof=1)
                a, b = np.max(np.abs((nm - mean) / mean)), np.max(np.abs(ns / nm - std / mean))
                if abs(a - 0.05) < 1e-9 or abs(b - 0.01) < 1e-9:
                    expected = None
                    break
                if a < 0.05 and b < 0.01:
                    expected = filled
                    break
            expected_at = k + 1
        if not drawn and self.missing:
            ctx.probe("no draw seen")
        if not out.ok:
            if one:
                ctx.check(isinstance(out.exc, ValueError) or not usable, f"statistics raised {out.name()}", lambda: f"{where(out.exc)}: {out.exc}")
                ctx.check(expected is None or isinstance(expected, str), "an acceptable replacement was given up",
                          lambda: f"attempt {expected_at} of {attempts} is acceptable: {out.exc}")
                if usable and attempts and op["script"] == ["gauss"]:
                    ctx.check(self.missing > 0, "statistics of complete data were refused", lambda: repr(out.exc))
            elif usable and not isinstance(out.exc, ValueError):
                ctx.violation(f"statistics of data filled in several regions raised {out.name()}", f"{where(out.exc)}: {out.exc}")
            ctx.probe("given up" if isinstance(out.exc, ValueError) else f"raised {out.name()}")
            ctx.nontrivial |= used > 1
            return
        s = out.value
        ctx.check(np.array_equal(s.xx, xx), "other positions are retained than asked for", lambda: f"{s.xx} != {xx}")
        ctx.check(usable, "statistics of positions without spread were reported", lambda: f"{std}")
        ctx.check(close(s.mean, mean, 1e-9), "the mean is not that of the observed values", lambda: f"{s.mean} != {mean}")
        ctx.check(close(s.stddev, std, 1e-9), "the standard deviation is not that of the observed values", lambda: f"{s.stddev} != {std}")
        c, n = np.asarray(s.corr), len(xx)
        c = c.reshape(1, 1) if n == 1 else c
        ctx.check(c.shape == (n, n), "correlations of another size", lambda: f"{c.shape}")
        ctx.check(not np.any(np.isnan(c)), "correlations are incomplete", lambda: f"{c}")
        sound = np.allclose(c, c.T, atol=1e-9) and np.allclose(np.diag(c), 1, atol=1e-9) and np.all(np.abs(c) <= 1 + 1e-9)
        if one:
            ctx.check(sound, "correlations are not symmetric, bounded and one with themselves", lambda: f"{c}")
        else:
            ctx.check(sound, "correlations filled between regions are not symmetric, bounded and one with themselves", lambda: f"{c}")
        if isinstance(expected, np.ndarray):
            ctx.check(self.missing == 0 or used == expected_at, "accepted at another attempt", lambda: f"{used} != {expected_at}")
            want = np.corrcoef(expected, rowvar=False).reshape(n, n)
            ctx.check(close(c, want, 0, 1e-9), "correlations are not those of the filled data", lambda: f"{c} != {want}")
        ctx.check(not isinstance(expected, str), "a distorting replacement was accepted", lambda: f"{op}")
        if one:
            full = ~np.any(np.isnan(obs), axis=0)
            if full.sum() > 1:
                k = np.ix_(full, full)
                ctx.check(close(c[k], np.corrcoef(obs[:, full], rowvar=False), 0, 1e-9), "correlations of complete positions differ")
        if self.missing:
            ctx.nontrivial = True
            ctx.probe("accepted")
            if used > 1:
                ctx.probe("accepted after several attempts")

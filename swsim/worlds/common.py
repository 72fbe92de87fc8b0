"""Helpers shared by the worlds: models of Peaks, generators, comparisons."""

import math

import numpy as np

NAN = float("nan")
KNOWN = ("azimuth", "ellipticity", "noise", "power")


def dec(x):
    """JSON value -> floats (strings carry what JSON cannot)."""
    if isinstance(x, list):
        return [dec(v) for v in x]
    return float(x)


def same_float(a, b):
    return (a != a and b != b) or (a == b and math.copysign(1, a) == math.copysign(1, b))


def same(a, b):
    """Bit-for-bit equality of float arrays (any NaN equals any NaN)."""
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.all(((a == b) & (np.signbit(a) == np.signbit(b))) | (np.isnan(a) & np.isnan(b))))


def close(a, b, rtol=1e-10, atol=0.0):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


class MPeaks:
    """Reference model of one set of peaks."""

    def __init__(self, ident, arrays, valid=None):
        self.id = ident
        self.arrays = {k: np.array(v, dtype=float) for k, v in arrays.items()}
        self.valid = ~np.isnan(self.arrays["velocity"]) if valid is None else np.array(valid, dtype=bool)

    def copy(self):
        return MPeaks(self.id, self.arrays, self.valid)

    @classmethod
    def from_spec(cls, spec):
        arrays = {"frequency": dec(spec["frequency"]), "velocity": dec(spec["velocity"])}
        for k, v in spec.get("extra", {}).items():
            arrays[k] = dec(v)
        return cls(spec["id"], arrays)

    def attr(self, name):
        with np.errstate(all="ignore"):
            f, v = self.arrays["frequency"], self.arrays["velocity"]
            if name == "wavelength":
                return v / f
            if name == "slowness":
                return 1 / v
            if name == "wavenumber":
                return 2 * np.pi * f / v
            return self.arrays[name]

    def mask_outside(self, attr, limits):
        lo, hi = limits
        x = self.attr(attr)
        with np.errstate(all="ignore"):
            m = np.zeros(x.shape, dtype=bool)
            if hi is not None:
                m |= x > hi
            if lo is not None:
                m |= x < lo
        return m & self.valid

    def mask_inside(self, xt, xl, yt, yl):
        x, y = self.attr(xt), self.attr(yt)
        with np.errstate(all="ignore"):
            m = (x > min(xl)) & (x < max(xl)) & (y > min(yl)) & (y < max(yl))
        return m & self.valid

    def key(self):
        return (self.id, tuple(self.arrays), self.valid.tobytes(),
                tuple(a.tobytes() for a in self.arrays.values()))

    def __repr__(self):
        return f"<{self.id!r} {list(self.arrays)} {int(self.valid.sum())}/{self.valid.size}>"


def diff_peaks(p, m, exact_valid=True):
    """None if library peaks `p` equal model `m`, else what differs."""
    if p.identifier != m.id:
        return f"identifier {p.identifier!r} != {m.id!r}"
    if sorted(p.attrs) != sorted(m.arrays):
        return f"attrs {p.attrs} != {list(m.arrays)}"
    v = m.valid
    for name in m.arrays:
        want = m.arrays[name][v]
        if name in ("frequency", "velocity") + KNOWN:
            got = getattr(p, name)
        elif hasattr(p, "_" + name):
            got = getattr(p, "_" + name)[v]
        else:
            continue
        if not same(got, want):
            return f"{name} of {m.id!r}: {short(got)} != {short(want)}"
        full = getattr(p, "_" + name, None)
        if full is not None and not same(full, m.arrays[name]):
            return f"all {name} of {m.id!r} (incl. rejected): {short(full)} != {short(m.arrays[name])}"
    pv = getattr(p, "_valid", None)
    if pv is not None and not np.array_equal(np.asarray(pv, dtype=bool), v):
        return f"remaining peaks of {m.id!r}: {int(np.sum(pv))} != {int(v.sum())}"
    with np.errstate(all="ignore"):
        for name in ("slowness", "wavelength", "wavenumber"):
            if not close(getattr(p, name), m.attr(name)[v], 1e-12):
                return f"{name} of {m.id!r} differs"
    return None


def short(a):
    s = np.array2string(np.asarray(a), threshold=12, edgeitems=4)
    return s.replace("\n", " ")[:300]


IDS = ["0", "1", "2", "a", "file", "1.5", "-3", "id with space", "Ünïcödé-波", "\"quoted\"", "back\\slash",
       "120-capon", "", "null", "[0]", "{}", "tab\tnew\nline", "x" * 40, "valid", "frequency",
       " 0", "a ", "A", "01", "1.50", "a\n"]


def mostly(rng, usual, rare, p=0.03):
    """A usual size, or now and then a rare one."""
    return rng.choice(rare) if rng.random() < p else rng.choice(usual)


def gen_values(rng, n, lo, hi, log=False):
    if log:
        return [math.exp(rng.uniform(math.log(lo), math.log(hi))) for _ in range(n)]
    return [rng.uniform(lo, hi) for _ in range(n)]


def gen_peaks(rng, ident, big=False, weird=False, dims=None, extras=None):
    """A JSON specification of peaks."""
    dims = dims or rng.choice([1, 1, 2])
    n = rng.choice([1, 2, 3, 5, 8, 12] + ([40, 90] if big else []))
    mode = rng.choice(["round", "full", "full"])

    def num(lo, hi):
        x = rng.uniform(lo, hi)
        return round(x, 1) if mode == "round" else x
    f = sorted(num(1, 80) for _ in range(n))
    for k in range(1, n):       # distinct frequencies
        if f[k] <= f[k - 1]:
            f[k] = f[k - 1] + 0.1
    if dims == 1:
        freq, vel = f, [num(80, 900) for _ in range(n)]
        if rng.random() < 0.25 and n > 1:
            vel[rng.randrange(n)] = "nan"
    else:
        rows = rng.choice([1, 2, 3])
        freq = [[x for x in f] for _ in range(rows)]
        vel = [[num(80, 900) for _ in range(n)] for _ in range(rows)]
        for r in range(rows):
            for c in range(n):
                if (r > 0 and rng.random() < 0.3) or rng.random() < 0.05:
                    vel[r][c] = "nan"
                    freq[r][c] = "nan"
    extra = {}
    names = extras if extras is not None else rng.choice(
        [[], [], ["azimuth"], ["power"], ["azimuth", "ellipticity", "noise", "power"], ["custom", "power"]])
    for name in names:
        def one():
            x = num(-5, 360)
            if weird and rng.random() < 0.1:
                x = rng.choice(["nan", "inf", "-inf", 5e-324, -0.0, 1.7976931348623157e308, 1e-17, 123456789.123456789])
            return x
        extra[name] = [one() for _ in range(n)] if dims == 1 else [[one() for _ in range(n)] for _ in range(len(vel))]
    if weird and dims == 1 and rng.random() < 0.3:
        vel[rng.randrange(n)] = rng.choice([5e-324, 1e308, 0.1 + 0.2, 1 / 3])
    return {"id": ident, "frequency": freq, "velocity": vel, "extra": extra}


def gen_ids(rng, n):
    pool = list(IDS)
    rng.shuffle(pool)
    return pool[:n]


BASE_ATTRS = ("frequency", "velocity", "slowness", "wavelength", "wavenumber")


def gen_limit(rng, values, exact):
    """A limit near the given values: exactly one of them only if `exact`."""
    vals = [v for v in values if v == v and abs(v) < 1e300]
    if not vals:
        return rng.uniform(0, 100)
    v = rng.choice(vals)
    mode = rng.random()
    if exact and mode < 0.35:
        return v
    if mode < 0.75:
        w = rng.choice(vals)
        x = v + (w - v) * rng.random()
    else:
        x = v * rng.choice([0.5, 0.9, 1.1, 2.0])
    for _ in range(200):
        if not any(abs(x - u) <= 1e-9 * max(abs(u), abs(x)) for u in vals):
            break
        x = x * 1.0000013 + 1e-12
    return x


def gen_reject(rng, peaks):
    """A rejection which splits the given model peaks."""
    def vals(attr):
        out = []
        for m in peaks:
            out += [float(x) for x in np.ravel(m.attr(attr))]
        return out
    exact = ("frequency", "velocity")
    if rng.random() < 0.5:
        a = rng.choice(BASE_ATTRS)
        lo = gen_limit(rng, vals(a), a in exact)
        hi = gen_limit(rng, vals(a), a in exact)
        lo, hi = min(lo, hi), max(lo, hi)
        if rng.random() < 0.15:
            lo = rng.choice([0, 0.0, -1, -1e3])
            hi = hi if rng.random() < 0.9 else rng.choice([0, 0.0])
        r = rng.random()
        lims = [lo, hi] if r < 0.5 else [lo, None] if r < 0.7 else [None, hi] if r < 0.95 else [None, None]
        return {"how": "outside", "attr": a, "limits": lims}
    xt, yt = rng.choice(BASE_ATTRS), rng.choice(BASE_ATTRS)
    xl = [gen_limit(rng, vals(xt), xt in exact) for _ in range(2)]
    yl = [gen_limit(rng, vals(yt), yt in exact) for _ in range(2)]
    if rng.random() < 0.6:      # wide in one direction, so that something is hit
        (xl if rng.random() < 0.5 else yl)[:] = rng.choice([[-1e9, 1e9], [0, 1e9]])
    return {"how": "inside", "xtype": xt, "xlims": xl, "ytype": yt, "ylims": yl}


def reject_mask(m, r):
    if r["how"] == "outside":
        return m.mask_outside(r["attr"], r["limits"])
    return m.mask_inside(r["xtype"], r["xlims"], r["ytype"], r["ylims"])


def do_reject(target, r):
    if r["how"] == "outside":
        return target.reject_limits_outside(r["attr"], tuple(r["limits"]))
    return target.reject_box_inside(r["xtype"], tuple(r["xlims"]), r["ytype"], tuple(r["ylims"]))


def build(spec):
    """Library object from a specification."""
    import swprocess
    extra = {k: dec(v) for k, v in spec.get("extra", {}).items()}
    return swprocess.Peaks(dec(spec["frequency"]), dec(spec["velocity"]), spec["id"], **extra)

"""Histories of geopsy .max files being written and read (C06)."""

import math
import os
import pathlib
import re

from ..core import fs as fsmod
from .common import short, mostly
from .opsworld import OpsWorld

WAVES = ("Rayleigh", "Love", "Vertical")
NUM = re.compile(r"-?\d+(\.\d*)?([eE][+-]?\d+)?\Z")
NOISE = re.compile(r"(-?\d+(\.\d*)?([eE][+-]?\d+)?|-?inf|nan)\Z")
TIME = re.compile(r"\d+(\.\d*)?\Z")


class Record:
    def __init__(self, tok):
        self.time, self.wave = tok[0], tok[2]
        f, slow, azi, ell, noi, pwr = (float(tok[i]) for i in (1, 3, 4, 5, 6, 7))
        self.values = (f, 1 / slow, azi, ell, noi, pwr)


def parse_line(line):
    """The record of a line, or None."""
    tok = line.rstrip(" \t\r").split(" ")
    if len(tok) != 9 or tok[8] != "1":
        return None
    if not TIME.match(tok[0]) or not NOISE.match(tok[6]):
        return None
    if not all(NUM.match(tok[i]) for i in (1, 3, 4, 5, 7)):
        return None
    return Record(tok)


class Parsed:
    """What one .max text means."""

    def __init__(self, text, wave):
        lines = text.replace("\r\n", "\n").replace("\r", "\n").split("\n")
        v = re.search(r"geopsypack-(\d+)\.(\d+)\.(\d+)", text)
        self.supported = bool(v) and v.groups() == ("3", "2", "0")
        recs = [r for r in map(parse_line, lines) if r]
        self.records = recs
        want = wave.capitalize()
        if want == "Rayleigh" and recs and recs[0].wave == "Vertical":
            want = "Vertical"
        named = re.search(r"PROCESS_TYPE=(\S+)", text)
        self.process = named.group(1).lower() if named else ""
        if self.process == "rtbf" and recs and recs[0].wave == "Vertical":
            self.process = "capon"          # geopsy's RTBF of the vertical component alone
        self.windows = {}
        for r in recs:
            if r.wave == want:
                self.windows.setdefault(r.time, []).append(r.values)
        # Lines close enough to a record that refusing the file is in order.
        self.doubtful = any(parse_line(s) is None and re.match(r"\d", s) and want in s
                            and s.rstrip().endswith("1") for s in lines)


def rows_of(p):
    cols = [[float(x) for x in getattr(p, a)]
            for a in ("frequency", "velocity", "azimuth", "ellipticity", "noise", "power")]
    if len({len(c) for c in cols}) != 1:
        return None
    return list(zip(*cols))


def key(row):
    return tuple("nan" if x != x else repr(x + 0.0) for x in row)


def match(got, want):
    """Same multiset of records (velocity to rounding)."""
    if got is None or len(got) != len(want):
        return False

    def order(rows):
        return sorted(rows, key=lambda r: (key(r[:1] + r[2:]), r[1]))
    for a, b in zip(order(got), order(want)):
        if key(a[:1] + a[2:]) != key(b[:1] + b[2:]):
            return False
        if not math.isclose(a[1], b[1], rel_tol=1e-12):
            return False
    return True


# -- generation -------------------------------------------------------------

def fmt(rng, x):
    r = rng.random()
    if r < 0.3:
        return repr(round(x, rng.choice([0, 1, 3])))
    if r < 0.5:
        return f"{x:.18g}"
    if r < 0.65:
        return f"{x:.6e}"
    if r < 0.75:
        return str(int(round(x))) if abs(x) >= 1 else repr(x)
    return repr(x)


def gen_times(rng):
    r = rng.random()
    if r < 0.3:     # as geopsy writes them
        base = 20170609223200
        return [f"{base + 30 * k}.{rng.randrange(1000000):06d}" for k in range(mostly(rng, [1, 2, 3, 4], [12, 15]))]
    if r < 0.5:     # shorter forms
        return [str(10 * k + rng.randrange(10)) for k in range(mostly(rng, [1, 2, 3], [11, 12]))]
    pool = ["123", "1234", "12345", "23", "234", "1.5", "11.5", "1x5".replace("x", "6"), "1234.5", "234.5",
            "12345.25", "2345.2", "1234.25", "100", "1000", "0", "0.5", "105", "195", "1234.75"]
    return rng.sample(pool, rng.choice([2, 3, 4]))


def gen_freqs(rng):
    r = rng.random()
    if r < 0.4:
        n = mostly(rng, [1, 2, 4, 6], [30])
        return [f"{rng.uniform(1, 60):.18g}" for _ in range(n)]
    pool = ["5", "15", "25", "5.5", "55", "5.55", "5.25", "15.5", "1.5", "2.5e1", "2.5e-1", "2.5", "12.5", "125",
            "1e1", "1e0", "10", "100", "3.", "33", "5e5", "525", "0.5", "20.25", "2025"]
    out, seen = [], set()
    for f in rng.sample(pool, rng.choice([2, 3, 5])):
        if float(f) not in seen or rng.random() < 0.3:
            seen.add(float(f))
            out.append(f)
    return out


BAD = ("column", "extra", "word", "comment", "flag2", "flag11", "flag-1", "flag1.0", "double-space", "indent",
       "half-number", "lower", "prefix", "suffix")


def spoil(rng, line):
    """A line which is not a record."""
    kind = rng.choice(BAD)
    t = line.split(" ")
    if len(t) != 9:
        return line
    if kind == "column":
        del t[rng.choice([1, 3, 4, 5, 6, 7])]
    elif kind == "extra":
        t.insert(rng.choice([1, 3, 4, 5, 6, 7]), "7.5")
    elif kind == "word":
        t[rng.choice([1, 3, 4, 5, 7])] = rng.choice(["abc", "nan", "inf", "-", "1,5", "--3", "0x1f"])
    elif kind == "half-number":
        t[rng.choice([1, 3, 4, 5, 7])] += rng.choice(["e", "e+", ".5.5", "f", "-1"])
    elif kind == "comment":
        return "# " + line
    elif kind.startswith("flag"):
        t[-1] = kind[4:]
    elif kind == "double-space":
        t[rng.choice([3, 5])] = ""
    elif kind == "indent":
        return "  " + line
    elif kind == "lower":
        t[2] = t[2].lower()
    elif kind == "prefix":
        t[2] = "Not" + t[2]
    elif kind == "suffix":
        t[2] = t[2] + "s"
    return " ".join(t)


def gen_file(rng):
    """Text of a .max file."""
    three = rng.random() < 0.6
    waves = ["Rayleigh", "Love"] if three else ["Vertical"]
    if three and rng.random() < 0.15:
        waves.append(rng.choice(["Radial", "Transverse"]))
    process = rng.choice(["RTBF", "RTBF", "Conventional", "Capon", "PoggiVertical"])
    nmax = rng.choice([1, 1, 2, 3, 5]) if rng.random() < 0.95 else rng.choice([11, 25, 100])
    version = "3.2.0"
    r = rng.random()
    if r < 0.06:
        version = rng.choice(["3.3.0", "2.10.1", "3.2.1", "3.2.10", "13.2.0", "3.20.0", "3.0.2", "4.2.0", "30.2.0"])
    head = ["# MAX FORMAT RELEASE 1.1", "#", "# BEGIN SOFTWARE VERSION", "#", "  Qt                  5.12.3"]
    if rng.random() > 0.04:
        head += [f"  QGpCoreTools        2.2.0 from geopsypack-{version}",
                 "      (built on 20191001095018 commit 9a9aca6fa9a4afe876dea557f2abdfcf2a347b70)"]
    head += ["#", "# BEGIN STATION LIST", "#"]
    head += [f"UT_STN{k:02d} {rng.uniform(0, 50):.2f} {rng.uniform(0, 50):.2f} 0.00" for k in range(rng.choice([2, 5]))]
    head += ["#", "# BEGIN PARAMETERS", "#", f"PROCESS_TYPE={process}", "# number of maxima",
             f"N_MAXIMA={nmax}", "# PROCESS_TYPE==DirectSteering, the ellipticity is forced",
             "#", "# BEGIN DATA", "#",
             "# abs_time frequency polarization slowness azimuth ellipticity noise power valid"]
    times, freqs = gen_times(rng), gen_freqs(rng)
    lines = []
    for t in times:
        if rng.random() < 0.1:
            continue
        for f in freqs:
            if rng.random() < 0.1:
                continue
            for w in waves:
                for _ in range(rng.choice([0, 1, 1, nmax]) if nmax > 1 else rng.choice([0, 1, 1, 1])):
                    noise = rng.choice(["0", "inf", "-inf", "nan", fmt(rng, rng.uniform(-1, 200))])
                    rec = [t, f, w, rng.choice([f"{rng.uniform(0.0005, 0.02):.20g}", f"{rng.uniform(5e-4, .02):.4e}",
                                                "5.5e-05", f"{rng.uniform(0.001, 0.01):.5f}"]),
                           fmt(rng, rng.uniform(0, 360)), rng.choice(["0", fmt(rng, rng.uniform(-3, 3))]), noise,
                           fmt(rng, rng.uniform(0, 5000)), "1" if rng.random() > 0.15 else "0"]
                    lines.append(" ".join(rec))
    r = rng.random()
    if r < 0.25:
        rng.shuffle(lines)
    elif r < 0.35:
        lines.reverse()
    for _ in range(rng.choice([0, 0, 0, 1, 2, 4])):
        if lines:
            k = rng.randrange(len(lines))
            lines.insert(rng.randrange(len(lines) + 1), spoil(rng, lines[k]))
    for _ in range(rng.choice([0, 0, 1, 3])):
        lines.insert(rng.randrange(len(lines) + 1),
                     rng.choice(["#", "", "# comment 1", "   ", "1", "# abs_time Rayleigh 1", "END 1"]))
    text = "\n".join(head + lines) + "\n"
    if rng.random() < 0.2:
        text = text.replace("\n", " \n") if rng.random() < 0.3 else text.replace("\n", "\r\n")
    if rng.random() < 0.1:
        text = text.rstrip()
    if rng.random() < 0.12 and lines:       # truncated while being copied
        start = text.index("# BEGIN DATA")
        text = text[:rng.randrange(start, len(text) + 1)]
    return text


class MaxWorld(OpsWorld):
    rule = "from_max yields exactly the valid records of the requested wave, per file and window, or raises"
    real = ["PeaksSuite.from_max", "Peaks.from_max", "regular expressions", "geopsy version check",
            "text decoding on simulated files"]
    stub = ["disk (faults of open and read)"]
    state_measure = "distinct (file contents, request) pairs read"
    uses_fs = True
    assumptions = ["a file has at most N_MAXIMA records per window and frequency (geopsy's own limit)"]

    def counts(self, tier):
        return {"quick": {"clean": 2200, "faulty": 1000}, "thorough": {"clean": 30000, "faulty": 12000}}[tier]

    def generate(self, rng, config):
        ops, names = [], ["a.max", "b.max", "c.max", "d.max", "10.max", "9.max"]
        n = mostly(rng, [1, 2, 3], [6])
        for k in range(n):
            ops.append({"op": "write", "file": names[k], "text": gen_file(rng)})
        for _ in range(rng.choice([1, 2, 3, 5])):
            r = rng.random()
            if r < 0.15:        # a new result under a name already read
                ops.append({"op": "write", "file": names[rng.randrange(n)], "text": gen_file(rng)})
            files = [names[rng.randrange(n)] for _ in range(mostly(rng, [1, 1, 1, 2, 3], [6]))]
            if len(files) > 1 and rng.random() < 0.8:
                files = rng.sample(names[:n], n)
            op = {"op": "read", "files": files, "wave": rng.choice(["rayleigh", "rayleigh", "love", "vertical"]),
                  "how": rng.choice(["list", "tuple", "iter", "paths", "one"]),
                  "cls": rng.choice(["suite", "suite", "suite", "peaks"])}
            if config == "faulty" and rng.random() < 0.8:
                op["faults"] = [fsmod.rand_fault(rng, fsmod.READ_FAULTS)]
                if rng.random() < 0.3:
                    op["faults"][0]["path"] = rng.choice(files)
            ops.append(op)
            if config == "faulty" and rng.random() < 0.5:
                again = dict(op)
                again.pop("faults", None)
                ops.append(again)
        return {"ops": ops, "tuning": {"buffer": rng.choice([16, 64, 512, 8192])}}

    def setup(self, ctx, plan, fs):
        self.texts = {}
        self.dir = ctx.scratch

    def op_write(self, ctx, op):
        with fsmod.quiet():
            with open(os.path.join(self.dir, op["file"]), "w", newline="") as f:
                f.write(op["text"])
        self.texts[op["file"]] = op["text"]
        return len(op["text"])

    def op_read(self, ctx, op):
        import swprocess
        files = [f for f in op["files"] if f in self.texts]
        if not files:
            return "none"
        paths = [os.path.join(self.dir, f) for f in files]
        single = op["cls"] == "peaks" or (op["how"] == "one" and len(files) == 1)
        if op["cls"] == "peaks":
            files, arg = files[:1], paths[0]
        elif single:
            arg = paths[0] if self.index % 2 else pathlib.Path(paths[0])
        else:
            arg = {"list": list, "tuple": tuple, "iter": iter, "one": list,
                   "paths": lambda p: [pathlib.Path(x) for x in p]}[op["how"]](paths)
        fn = swprocess.Peaks.from_max if op["cls"] == "peaks" else swprocess.PeaksSuite.from_max
        before = sum(n for k, n in ctx.faults_fired.items() if k != "read-short")
        out = ctx.call(fn, arg, wavetype=op["wave"])
        fired = sum(n for k, n in ctx.faults_fired.items() if k != "read-short") > before
        parsed = [Parsed(self.texts[f], op["wave"]) for f in files]
        if fired:
            ctx.check(out.exc is not None, "data from a file that could not be read",
                      lambda: f"{files}: reading failed, yet from_max returned normally")
            ctx.probe("read fault raised")
            return "fault:" + out.name()
        if not all(p.supported for p in parsed):
            ctx.check(out.exc is not None, "unsupported geopsy version accepted", f"{files}")
            ctx.probe("unsupported version refused")
            return out.name()
        want = [(t, p.process, rows) for p in parsed for t, rows in p.windows.items()]
        if op["cls"] == "peaks":
            want = want[:1]
        times = [f"{t}-{process}" for t, process, _ in want]
        if not out.ok:
            no_data = not want or any(not p.records for p in parsed)
            dup = len(set(times)) != len(times)
            if no_data or dup or any(p.doubtful for p in parsed):
                ctx.probe("refused " + ("without data" if no_data else "duplicate" if dup else "malformed"))
                return out.name()
            ctx.violation(f"readable file refused: {type(out.exc).__name__}",
                          f"{files} {op['wave']}: {out.exc!r}")
        got = [out.value] if op["cls"] == "peaks" else ctx.observe(lambda: list(out.value.peaks), "peaks")
        ctx.check(len(got) == len(want), "wrong number of windows",
                  lambda: f"{files} {op['wave']}: {[p.identifier for p in got]} for windows {times}")
        ids = [p.identifier for p in got]
        ctx.check(len(set(ids)) == len(ids), "two sets of peaks share an identifier", f"{ids}")
        for p, (t, process, rows) in zip(got, want):
            mine = ctx.observe(lambda: rows_of(p), "attributes")
            ctx.check(match(mine, rows), "records differ",
                      lambda: f"{files} {op['wave']} window {t} ({p.identifier}):\n got  {mine}\n want {rows}")
            ctx.check(p.identifier == f"{t}-{process}", "window under another identifier",
                      lambda: f"{p.identifier} for window {t} of {process}")
            ctx.probe("window read")
        if any(len(p.records) != sum(len(r) for r in p.windows.values()) for p in parsed):
            ctx.probe("other wave types present")
        if len(files) > 1:
            ctx.probe("several files")
        ctx.nontrivial |= bool(want)
        ctx.state((op["wave"], op["cls"], tuple(self.texts[f] for f in files)))
        return len(got)

"""Extraction of time blocks from hourly miniSEED files (C09)."""

import calendar
import csv
import io
import os
import warnings

import numpy as np

from ..core import fs as fsmod
from ..core.ctx import where
from ..core.runner import World
from .common import mostly
from .store import BENIGN

HOUR = 3600000      # ms

COLUMNS = ["folder name", "array name", "station number", "start year", "start month", "start date", "start hour",
           "start minute", "start second", "end year", "end month", "end date", "end hour", "end minute", "end second",
           "notes"]


def utc(ms):
    """Calendar fields of a time in milliseconds since 1970."""
    import time
    t = time.gmtime(ms // 1000)
    return t.tm_year, t.tm_mon, t.tm_mday, t.tm_hour, t.tm_min, t.tm_sec


def epoch(y, mo, d, h=0, mi=0, s=0):
    return calendar.timegm((y, mo, d, h, mi, s)) * 1000


STARTS = [(2020, 12, 31, 22), (2019, 12, 31, 23), (2020, 2, 28, 22), (2021, 2, 28, 23), (2020, 2, 29, 23), (2017, 6, 9, 9),
          (2017, 6, 9, 10), (2018, 10, 31, 21), (2020, 3, 8, 1), (2000, 1, 1, 0), (2016, 12, 31, 20)]


class Station:
    """Recording of one station as the plan describes it."""

    def __init__(self, s):
        self.s = s
        self.dt, self.off = s["dt"], s["off"]
        self.t0 = epoch(*s["t0"])

    def channel(self, ch):
        """All (time, value) recorded, times in ms."""
        s = self.s
        t = np.arange(self.t0 + self.off, self.t0 + s["hours"] * HOUR, self.dt)
        r = np.random.RandomState(s["seed"] + 101 * ch)
        if s["dtype"] == "int32":
            v = np.cumsum(r.randint(-1000, 1001, len(t))).astype(np.int32)
        elif s["dtype"] == "int16":
            v = r.randint(-32768, 32767, len(t)).astype(np.int16)
        else:
            v = r.randn(len(t)).astype(s["dtype"])
        keep = np.ones(len(t), dtype=bool)
        for a, b in s["gaps"]:
            keep &= ~((t >= self.t0 + a) & (t < self.t0 + b))
        return t, v, keep

    def other(self, v):
        """Values where two files overlap, as the earlier of them has them."""
        return v + v.dtype.type(1) if self.s.get("differ") else v

    def twice(self, t):
        """Times held by two files."""
        return (t >= self.t0 + HOUR) & ((t - self.t0) % HOUR < self.s.get("over", 0))

    def hour_bytes(self, h, network):
        """Contents of one hourly file, or None if nothing was recorded."""
        import obspy
        st = obspy.Stream()
        for ch in range(self.s["channels"]):
            t, v, keep = self.channel(ch)
            end = self.t0 + (h + 1) * HOUR
            sel = (t >= self.t0 + h * HOUR) & (t < end + self.s.get("over", 0)) & keep
            v = np.where(t >= end, self.other(v), v)
            idx = np.flatnonzero(sel)
            if not len(idx):
                continue
            for run in np.split(idx, np.flatnonzero(np.diff(idx) > 1) + 1):
                st.append(obspy.Trace(np.ascontiguousarray(v[run]), header={
                    "network": network[:2], "station": f"STN{self.s['num']:02d}"[:5], "channel": "BH" + "ZNE"[ch],
                    "sampling_rate": 1000 / self.dt, "starttime": obspy.UTCDateTime(ns=int(t[run[0]]) * 10**6)}))
        if not st:
            return None
        buf = io.BytesIO()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            st.write(buf, format="MSEED")
        return buf.getvalue()

    def hour_name(self, h, network, ext):
        y, mo, d, hh, _, _ = utc(self.t0 + h * HOUR)
        return f"{network}.STN{self.s['num']:02d}_{y}{mo:02d}{d:02d}_{hh:02d}0000.{ext}"


class ExtractWorld(World):
    """C09."""
    uses_fs = True
    rule = ("a case is a history of extractions from a network of recording stations with missing, unreadable and restored "
            "hours, faults in every file call and several process lifetimes; non-trivial if a file was extracted and "
            "compared; distinct by event log")
    real = ["swprocess.utils.extract_mseed", "swprocess.fileio", "pandas CSV reader", "obspy/libmseed reader and writer"]
    stub = ["disk (faulty, torn, failing)", "recorders (write hourly files with obspy's miniSEED writer)",
            "power supply and process lifetime"]
    state_measure = "distinct (table, outcome, files present) tuples"
    assumptions = ["one process writes to a file at a time",
                   "samples whose times lie within half a sample of the requested start or end may be kept or left out"]

    def counts(self, tier):
        q = {"healthy": 500, "missing": 400, "crash": 350, "power": 350, "diskfault": 400, "interrupt": 300}
        return q if tier == "quick" else {k: v * 14 for k, v in q.items()}

    # -- generation --------------------------------------------------------
    def generate(self, rng, config):
        kinds = {"healthy": [], "missing": list(fsmod.READ_FAULTS), "crash": ["crash"], "power": ["power"],
                 "diskfault": ["enospc", "eio", "emfile", "eacces", "erofs", "short"], "interrupt": ["kbi", "memory"]}[config]
        network = rng.choice(["NW", "UT", "X", "AB"])
        ext = rng.choice(["mseed", "mseed", "miniseed"])
        t0 = rng.choice(STARTS)
        stations = []
        for num in rng.sample([1, 2, 9, 10, 11, 99, 101], rng.choice([1, 1, 2])):
            hours = mostly(rng, [1, 2, 3, 4, 6], [26, 50])
            dt = rng.choice([10000, 20000, 5000, 8000, 7000, 12500]) * (4 if hours > 6 else 1)
            if hours <= 3 and rng.random() < 0.05:
                dt = rng.choice([40, 100, 250, 1000])
            gaps = []
            if rng.random() < 0.5:
                for _ in range(rng.choice([1, 1, 2])):
                    a = rng.randrange(hours * HOUR)
                    gaps.append([a, a + rng.choice([dt, 3 * dt, 600000, 1200000])])
            stations.append({"num": num, "t0": list(t0), "hours": hours, "dt": dt,
                             "off": rng.choice([0, 0, 0, 1000, 500, 3250]), "gaps": gaps, "over": rng.choice([0, 0, dt, 3 * dt, 60000]), "differ": rng.random() < 0.5, "channels": rng.choice([1, 1, 3]),
                             "dtype": rng.choice(["int32", "int32", "float32", "float64", "int16"]), "seed": rng.randrange(10**6)})
        ops = []
        folders = rng.sample(["A", "ex_array_0", "B c", "007", "NA", "Ünï", "arr.1"], 2)
        arrays = rng.sample(["array_0", "C50", "1.0", "L", "10", "null", "x y"], 3)
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            rows = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                st = rng.choice(stations)
                base, span = epoch(*st["t0"]), st["hours"] * HOUR
                a, b = sorted([rng.randrange(0, span, 1000), rng.randrange(0, span, 1000)])
                r = rng.random()
                if r < 0.25:
                    a = a // HOUR * HOUR
                    b = min(span - 1000, (b // HOUR + 1) * HOUR)
                elif r < 0.5:           # on the samples
                    a = a // st["dt"] * st["dt"] // 1000 * 1000
                    b = max(a, b // st["dt"] * st["dt"] // 1000 * 1000)
                elif r < 0.6:
                    b = a + rng.choice([0, 0, 1000, st["dt"] // 1000 * 1000])
                    b = min(b, span - 1000)
                if rng.random() < 0.04:
                    a, b = b, a
                row = {"folder": rng.choice(folders), "array": rng.choice(arrays), "station": st["num"],
                       "start": base + a, "end": base + b, "note": rng.choice(["", "hello", "a, b"])}
                if any((x["folder"], x["array"], x["station"]) == (row["folder"], row["array"], row["station"]) for x in rows):
                    continue
                rows.append(row)
            if config == "missing" and rng.random() < 0.6 or rng.random() < 0.1:
                st = rng.randrange(len(stations))
                ops.append({"op": rng.choice(["remove", "remove", "garbage", "empty"]), "station": st,
                            "hour": rng.randrange(stations[st]["hours"])})
            op = {"op": "extract", "rows": rows, "path": rng.choice(["abs", "rel"]), "table": rng.choice(["t.csv", "u.csv"])}
            if rng.random() < 0.25 and ops and ops[-1]["op"] == "extract":
                op["rows"] = ops[-1]["rows"]        # repeated
            if kinds and rng.random() < 0.75:
                if config == "interrupt" and rng.random() < 0.5:
                    op["line"] = {"at": rng.choice([0, 2, 5, 10, 15, 20, 25, 30, 35, 40, 50, 70, 100]),
                                  "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}
                else:
                    op["faults"] = [fsmod.rand_fault(rng, kinds) for _ in range(rng.choice([1, 1, 2]))]
                    for f in op["faults"]:
                        if f["kind"].startswith("read"):
                            f["at"] = rng.choice([0, 1, 2, 3, 4, 6, 8, 11, 15, 20])
                        elif f.get("on") == "write" and rng.random() < 0.3:
                            f["nth"] = rng.choice([0, 1, 2, 3, 5, 8])
            ops.append(op)
            if (op.get("faults") or op.get("line")) and rng.random() < 0.5:
                ops.append({k: v for k, v in op.items() if k not in ("faults", "line")})
            if any(o["op"] in ("remove", "garbage", "empty") for o in ops) and rng.random() < 0.5:
                ops.append({"op": "restore"})
                ops.append({k: v for k, v in op.items() if k not in ("faults", "line")})
            if rng.random() < 0.15:
                ops.append({"op": "restart"})
        return {"ops": ops, "stations": stations, "network": network, "ext": ext,
                "tuning": {"buffer": rng.choice([64, 256, 512, 1024, 8192, 8192])},
                "foreign": rng.choice([{}, {"out/notes.txt": "keep"}, {"out/A/other.mseed": "x" * 99}])}

    # -- execution ---------------------------------------------------------
    def start(self, plan):
        return {"i": 0, "init": False, "bytes": {}, "pending": None, "final": False, "inputs": {}}

    def path(self, ctx, name):
        return os.path.join(ctx.scratch, name)

    def put(self, ctx, name, data):
        with fsmod.quiet():
            p = self.path(ctx, name)
            if data is None:
                if os.path.exists(p):
                    os.unlink(p)
                return
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(data)

    def tree(self):
        with fsmod.quiet():
            return self.fs.snapshot()

    def execute(self, ctx, plan, model, fs):
        self.plan, self.fs = plan, fs
        self.st = [Station(s) for s in plan["stations"]]
        if not model["init"]:
            for s in self.st:
                for h in range(s.s["hours"]):
                    name = "data/" + s.hour_name(h, plan["network"], plan["ext"])
                    model["inputs"][name] = s.hour_bytes(h, plan["network"])
                    if model["inputs"][name] is not None:
                        self.put(ctx, name, model["inputs"][name])
            with fsmod.quiet():
                os.makedirs(self.path(ctx, "data"), exist_ok=True)
                os.makedirs(self.path(ctx, "out"), exist_ok=True)
            for name, text in plan["foreign"].items():
                self.put(ctx, name, text.encode())
            model["now"] = dict(model["inputs"])
            model["init"] = True
        if model["pending"]:
            self.settle(ctx, model, "crashed")
        while model["i"] < len(plan["ops"]):
            op = plan["ops"][model["i"]]
            model["i"] += 1
            ctx.ops[op["op"]] += 1
            if op["op"] == "restart":
                return "restart"
            fs.begin(plan["tuning"], op.get("faults", ()))
            getattr(self, "op_" + op["op"])(ctx, model, op)
            fs.end()
        return "end"

    def hour_op(self, ctx, model, op, data):
        s = self.st[op["station"]]
        name = "data/" + s.hour_name(op["hour"], self.plan["network"], self.plan["ext"])
        self.put(ctx, name, data)
        model["now"][name] = data

    def op_remove(self, ctx, model, op):
        self.hour_op(ctx, model, op, None)

    def op_garbage(self, ctx, model, op):
        self.hour_op(ctx, model, op, b"this is not a miniSEED file\n" * 40)

    def op_empty(self, ctx, model, op):
        self.hour_op(ctx, model, op, b"")

    def op_restore(self, ctx, model, op):
        for name, data in model["inputs"].items():
            self.put(ctx, name, data)
        model["now"] = dict(model["inputs"])

    def out_name(self, row):
        return f"out/{row['folder']}/{self.plan['network']}.STN{row['station']:02d}.{row['array']}.{self.plan['ext']}"

    def judge_row(self, model, row):
        """'ok', or why this row cannot be extracted."""
        s = next(x for x in self.st if x.s["num"] == row["station"])
        if row["end"] < row["start"]:
            return "reversed"
        h0, h1 = (row["start"] - s.t0) // HOUR, (row["end"] - s.t0) // HOUR
        for h in range(h0, h1 + 1):
            name = "data/" + s.hour_name(h, self.plan["network"], self.plan["ext"])
            if model["now"].get(name) is None or model["now"][name] != model["inputs"][name]:
                return "hour"
        for ch in range(s.s["channels"]):
            t, v, keep = s.channel(ch)
            if not np.any(keep & (t >= row["start"]) & (t <= row["end"])):
                return "empty"
        return "ok"

    def diff_out(self, data, row):
        """None if the bytes of an output file are as requested.  Also sets self.filled."""
        import obspy
        s = next(x for x in self.st if x.s["num"] == row["station"])
        self.filled = False
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("error")
                stream = obspy.read(io.BytesIO(data), format="MSEED")
        except Exception as e:
            return f"cannot be decoded: {e!r}"
        got = {}
        for tr in stream:
            if tr.stats.channel in got:
                return f"channel {tr.stats.channel} is in several pieces"
            got[tr.stats.channel] = tr
        if len(got) != s.s["channels"]:
            return f"channels {sorted(got)}"
        half = s.dt / 2
        for ch in range(s.s["channels"]):
            tr = got.get("BH" + "ZNE"[ch])
            if tr is None:
                return f"channels {sorted(got)}"
            if abs(tr.stats.sampling_rate - 1000 / s.dt) > 1e-6 or tr.stats.station != f"STN{s.s['num']:02d}"[:5]:
                return f"sampling rate {tr.stats.sampling_rate} station {tr.stats.station}"
            t, v, keep = s.channel(ch)
            first = tr.stats.starttime.ns / 1e6
            k0 = int(round((first - t[0]) / s.dt))
            if abs(first - (t[0] + k0 * s.dt)) > 1:
                return f"first sample at {tr.stats.starttime}, which is not a sampling time"
            k1 = k0 + len(tr.data) - 1
            if k0 < 0 or k1 >= len(t):
                return f"samples {k0}..{k1} of {len(t)}"
            if t[k0] < row["start"] - half - 1 or t[k1] > row["end"] + half + 1:
                return f"samples outside the interval: {t[k0] - row['start']} ms after start, {t[k1] - row['end']} ms after end"
            must = np.flatnonzero(keep & (t >= row["start"] + (half if (row["start"] - t[0]) % s.dt else 0))
                                  & (t <= row["end"] - (half if (row["end"] - t[0]) % s.dt else 0)))
            if len(must) and (must[0] < k0 or must[-1] > k1):
                return f"recorded samples {must[0]}..{must[-1]} expected, file has {k0}..{k1}"
            if (row["start"] - t[0]) % s.dt == 0 and t[k0] < row["start"] \
                    or (row["end"] - t[0]) % s.dt == 0 and t[k1] > row["end"]:
                return f"sample outside the interval: {t[k0] - row['start']} ms after start, {t[k1] - row['end']} ms after end"
            rec = keep[k0:k1 + 1]
            a = np.asarray(tr.data)
            either = s.twice(t[k0:k1 + 1]) & (a == s.other(v)[k0:k1 + 1])
            bad = np.flatnonzero(rec & (a != v[k0:k1 + 1]) & ~either)
            if len(bad):
                j = int(bad[0])
                return f"{len(bad)} samples differ, first at {t[k0 + j] - row['start']} ms: {a[j]} instead of {v[k0 + j]}"
            if not rec.all():
                self.filled = True
        return None

    def unchanged(self, ctx, model, names):
        """Everything but `names` is as it was."""
        tree = self.tree()
        for n, data in model["now"].items():
            ctx.check(tree.get(n) == data, "an input file was changed", n)
        for n, text in self.plan["foreign"].items():
            if n not in model["bytes"] and n not in names:
                ctx.check(tree.get(n) == text.encode(), "an unrelated file was changed", n)
        for n, data in model["bytes"].items():
            if n not in names:
                ctx.check(tree.get(n) == data, "an already extracted file was changed", n)
        for n in tree:
            if n.startswith("out/") and not n.endswith(".tmp") and n not in model["bytes"] and n not in names \
                    and n not in self.plan["foreign"] and "." + self.plan["ext"] == n[-len(self.plan["ext"]) - 1:] \
                    and "sim" not in n:
                ctx.violation("an unexpected output file appeared", n)
        return tree

    def settle(self, ctx, model, how):
        """After a failure: each output file is old, or complete."""
        rows = model["pending"]
        model["pending"] = None
        todo = {self.out_name(r): r for r in rows}
        tree = self.unchanged(ctx, model, todo)
        stopped = False
        for n, r in todo.items():
            now, old = tree.get(n), model["bytes"].get(n)
            stopped |= self.judge_row(model, r) in ("reversed", "hour")
            if now == old:
                continue
            ctx.check(now is not None, f"{how} extraction deleted a file", n)
            ctx.check(not stopped, f"{how} extraction wrote a file for an interval it cannot read", n)
            d = self.diff_out(now, r)
            ctx.check(d is None, f"{how} extraction left an incomplete file", lambda: f"{n}: {d}")
            model["bytes"][n] = now
            ctx.probe("row finished before the failure")
        ctx.probe("settled after " + how)
        ctx.nontrivial = True

    def op_extract(self, ctx, model, op):
        import swprocess
        rows = op["rows"]
        table = self.path(ctx, op["table"])
        with fsmod.quiet():
            with open(table, "w", newline="", encoding="utf-8") as f:
                w = csv.writer(f)
                w.writerow(COLUMNS)
                for r in rows:
                    w.writerow([r["folder"], r["array"], r["station"], *utc(r["start"]), *utc(r["end"]), r["note"]])
        verdicts = [self.judge_row(model, r) for r in rows]
        model["pending"] = rows
        data_dir, out_dir = ("data", "out") if op["path"] == "rel" else (self.path(ctx, "data"), self.path(ctx, "out"))
        before = dict(ctx.faults_fired)
        from swprocess.utils import extract_mseed
        out = ctx.call(extract_mseed, startend_fname=op["table"] if op["path"] == "rel" else table,
                       network=self.plan["network"], data_dir=data_dir, output_dir=out_dir, extension=self.plan["ext"],
                       line_fault=op.get("line"))
        if out.ok:
            self.fs.returned()
        fired = {k for k, v in ctx.faults_fired.items() if v > before.get(k, 0)} - set(BENIGN)
        self.fs.faults = []
        ctx.ev("extract", out.name(), sorted(fired), verdicts)
        ctx.state((op["rows"], out.name(), sorted(model["bytes"]), sorted(fired)))
        if not out.ok:
            bad = [v for v in verdicts if v != "ok"]
            if not fired and not bad:
                ctx.violation(f"extraction raised {out.name()} without a fault", f"{where(out.exc)}: {out.exc}")
            self.settle(ctx, model, "failed")
            if not fired and bad == ["hour"] * len(bad):
                ctx.probe("missing or unreadable hour refused")
            return
        model["pending"] = None
        ctx.check(not set(verdicts) & {"hour"}, "a missing or unreadable hour did not raise", f"{rows}")
        ctx.check(not set(verdicts) & {"reversed"}, "an interval which ends before it starts was accepted", f"{rows}")
        todo = {self.out_name(r): r for r in rows}
        tree = self.unchanged(ctx, model, todo)
        warned = " ".join(w[1] for w in out.warned)
        need_warning = set()
        for (n, r), v in zip(todo.items(), verdicts):
            if v == "empty":
                if n in tree:
                    model["bytes"][n] = tree[n]
                continue
            ctx.check(n in tree, "an extracted file is missing", lambda: f"{n}; there is {sorted(tree)}")
            d = self.diff_out(tree[n], r)
            ctx.check(d is None, "an extracted file has other content", lambda: f"{n}: {d}")
            if self.filled:
                need_warning.add(f"STN{r['station']:02d}")
                ctx.probe("gap filled")
            if (r["start"] - 1) // 86400000 != r["end"] // 86400000:
                ctx.probe("across days")
            model["bytes"][n] = tree[n]
            ctx.nontrivial = True
        for s in need_warning:
            ctx.check(s in warned, "missing samples were filled without a warning", s)
        ctx.probe("extracted" + (" despite fault" if fired else ""))

    def shrink(self, plan):
        import copy
        for i, op in enumerate(plan["ops"]):
            if op["op"] == "extract" and len(op["rows"]) > 1:
                for k in range(len(op["rows"])):
                    q = copy.deepcopy(plan)
                    del q["ops"][i]["rows"][k]
                    yield q
        for k, s in enumerate(plan["stations"]):
            for change in ({"gaps": []}, {"channels": 1}, {"off": 0}):
                q = copy.deepcopy(plan)
                q["stations"][k].update(change)
                yield q
        if plan["foreign"]:
            yield dict(plan, foreign={})

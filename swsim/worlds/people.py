"""Scripted users trimming dispersion data (C04) and picking on waterfalls (C05)."""

import warnings

import numpy as np

from ..core import ui
from ..core.ctx import SimViolation, where
from .common import MPeaks, build, diff_peaks, gen_ids, gen_peaks, mostly
from .opsworld import OpsWorld
from .records import MArr, MRec, amp_of, apply_mute, mute_model
from .transforms import gen_array, make_array


def gen_wait(rng):
    return rng.choice([0.01, 0.05, 0.1, 0.2, 0.25, 0.5, 1.0, 2.0, 10.0])


def noise(rng):
    """Something without consequence."""
    a = {"wait": gen_wait(rng), "u": rng.uniform(-0.3, 1.3), "v": rng.uniform(-0.3, 1.3), "panel": rng.randrange(2)}
    k = rng.choice(["release", "scroll", "move", "keyup", "newfig", "switch", "other press", "other key", "other stop", "side"])
    if k == "keyup":
        return dict(a, do="keyup", key=" ")
    if k == "switch":
        return dict(a, do="switch", k=rng.randrange(3))
    if k == "other press":
        return dict(a, do="press", button=rng.choice([1, 2, 3]), other=True, u=0.5, v=0.5)
    if k == "side":             # a button without function
        return dict(a, do="press", button=rng.choice([8, 9]), u=rng.uniform(0.02, 0.98), v=rng.uniform(0.02, 0.98))
    if k == "other key":
        return dict(a, do="key", key=rng.choice([" ", "enter"]), other=True, u=0.5, v=0.5)
    if k == "other stop":
        return dict(a, do="press", button=2, other=True, u=0.5, v=0.5)
    return dict(a, do=k)


class Selection:
    """What fig.ginput lets a user do: add, remove, stop."""

    def __init__(self, n):
        self.n, self.points, self.done = n, [], False

    def event(self, do, a, panel, x, y):
        if do == "press":
            b = a["button"]
            stop, remove, add = b == 2, b == 3, b == 1
        elif do == "key":
            k = a["key"]
            stop, remove = k in ("enter", "escape"), k in ("backspace", "delete")
            add = not stop and not remove
        else:
            return
        if self.done:
            return
        if stop:
            self.done = True
        elif remove:
            self.points[-1:] = []
        elif add and panel is not None:
            self.points.append((panel, float(x), float(y)))
            if self.n > 0 and len(self.points) == self.n:
                self.done = True


class TrimWatch:
    """Model of a trimming session: what is pending, confirmed and removed."""

    def __init__(self, ctx, suite, models, xtypes, ytypes, answers, ending):
        self.ctx, self.suite, self.models = ctx, suite, models
        self.x, self.y, self.answers, self.ending = xtypes, ytypes, list(answers), ending
        self.pending = [np.zeros_like(m.valid) for m in models]
        self.sel, self.quit, self._fig, self.ask, self.paused = None, False, None, False, False

    @property
    def figure(self):
        return self._fig

    def panels(self, fig):
        return list(fig.axes)[:len(self.x)] if fig is self._fig else list(fig.axes)

    def unchanged(self, when):
        for p, m in zip(self.suite.peaks, self.models):
            d = diff_peaks(p, m)
            if d:
                self.ctx.violation("peaks removed which were not confirmed, or not those confirmed", f"{when}: {d}")

    def begin(self, user, fig, name, n, timeout):
        self._fig = self._fig or fig
        self.ctx.check(not self.quit, "the session went on after the user quit")
        self.ctx.check(fig is self._fig, "the session listens to another figure")
        self.unchanged("while waiting for the user")
        self.sel = Selection(n) if name == "ginput" and n and n > 0 and timeout == float("inf") else None
        if self.sel is not None:
            self.paused = False
            self.shown(fig)

    def shown(self, fig):
        """The user sees the peaks which remain, those pending apart from the others."""
        from matplotlib.colors import to_hex
        for k, ax in enumerate(self.panels(fig)):
            top = {}
            for line in sorted(ax.get_lines(), key=lambda l: l.get_zorder()):
                if line.get_linestyle() in ("None", "", " ") and line.get_marker() not in ("None", "", " ", None):
                    for p in zip(*(np.asarray(v, dtype=float).tolist() for v in line.get_data(orig=True))):
                        top[p] = to_hex(line.get_color())
            colours, many = {False: set(), True: set()}, {}
            for m, p in zip(self.models, self.pending):
                x, y = m.attr(self.x[k]), m.attr(self.y[k])
                for i in zip(*np.nonzero(m.valid)):
                    many.setdefault((float(x[i]), float(y[i])), set()).add(bool(p[i]))
            if not top and many:
                self.ctx.probe("peaks not drawn as markers")
                return
            # Rounding of derived quantities is the library's.
            near = {(f"{a:.9g}", f"{b:.9g}"): v for (a, b), v in top.items()}
            want = {(f"{a:.9g}", f"{b:.9g}"): v for (a, b), v in many.items()}
            self.ctx.check(set(near) == set(want), "the figure does not show the peaks that remain",
                           lambda: f"panel {k}: not shown {sorted(set(want) - set(near))[:3]}, shown {sorted(set(near) - set(want))[:3]}")
            for p, state in want.items():
                if len(state) == 1:
                    colours[min(state)].add(near[p])
            self.ctx.check(not colours[True] & colours[False], "peaks waiting to be confirmed look like the others",
                           lambda: f"panel {k}: {colours}")
            if colours[True]:
                self.ctx.probe("pending peaks shown")

    def event(self, user, fig, do, a, panel, x, y):
        if self.sel is not None and fig is self._fig:
            self.sel.event(do, a, panel, x, y)

    def end(self, user, fig, name):
        s, self.sel = self.sel, None
        if s is None:
            return
        if len(s.points) == 2 and s.points[0][0] == s.points[1][0]:
            (k, x0, y0), (_, x1, y1) = s.points
            hit = 0
            for m, p in zip(self.models, self.pending):
                inside = m.mask_inside(self.x[k], (x0, x1), self.y[k], (y0, y1))
                hit += int(inside.sum())
                p |= inside
            self.paused = not hit
            self.ctx.probe("box with peaks" if hit else "box without peaks")
        else:
            self.ctx.probe("no box: mixed panels" if len(s.points) == 2 else "no box: finished early")

    def prompt(self, user, text):
        self.ctx.check(not self.quit, "the session went on after the user quit")
        self.ctx.check(self.paused, "the user is asked though the box last drawn holds peaks")
        self.unchanged("at the prompt")
        a = self.answers.pop(0) if self.answers else "0"
        self.ctx.ev("answer", a)
        if a in ("0", "1"):
            self.before = [m.valid.copy() for m in self.models]
            if any((p & m.valid).any() for p, m in zip(self.pending, self.models)):
                self.ctx.nontrivial = True
                self.ctx.probe("confirmed")
            for m, p in zip(self.models, self.pending):
                m.valid &= ~p
        elif a == "2":
            self.ctx.probe("undone")
        if a in ("0", "1", "2"):
            for p in self.pending:
                p[...] = False
            self.quit = a == "0"
        else:
            self.ctx.probe("unrecognised answer")
        self.ctx.state((text, a, [m.valid.tobytes() for m in self.models]))
        return a

    def idle(self, user):
        """The script is over: interrupt, or ask for the prompt."""
        if self.ending == "interrupt":
            return [{"do": "interrupt", "wait": 1.0}]
        self.answers.append("0") if not self.answers else None
        return [{"do": "press", "button": 1, "u": 0.5, "v": 0.001, "panel": 0, "wait": 1.0} for _ in range(2)]


class TrimWorld(OpsWorld):
    """C04."""
    real = ["swprocess.peakssuite", "swprocess.peaks", "matplotlib event handling and widgets", "numpy"]
    stub = ["user (scripted events and answers on a virtual clock)", "rendering (FigureCanvasAgg.draw)", "builtins.input",
            "interrupts (at blocking calls and at chosen lines of the library)"]
    rule = ("a case is one or two trimming sessions by a scripted user (boxes, corrections, mixed panels, early finishes, misses, "
            "keys, noise, pauses, answers, interrupts) on a suite of peaks; non-trivial if a removal was confirmed; distinct by event log")
    state_measure = "distinct (answer, remaining peaks) at the prompts"
    assumptions = ["one user at a time; the window is not closed during the session"]

    def counts(self, tier):
        q = {"plain": 600, "clumsy": 800, "interrupted": 700}
        return q if tier == "quick" else {k: v * 25 for k, v in q.items()}

    def gen_box(self, rng, clumsy):
        """Actions of one attempt to draw a box."""
        panel = rng.choice([0, 0, 1])

        def at(u, v, button=1, p=panel, **kw):
            return {"do": "press", "button": button, "u": u, "v": v, "panel": p, "wait": gen_wait(rng), **kw}

        def pt(p=panel):
            return at(rng.uniform(0.02, 0.98), rng.uniform(0.02, 0.98), p=p)
        size = rng.choice([0.15, 0.3, 0.5, 0.9])
        u, v = rng.uniform(0.01, 0.99 - size), rng.uniform(0.01, 0.99 - size)
        a, b = at(u, v), at(u + size, v + size)
        if rng.random() < 0.4:
            a["v"], b["v"] = b["v"], a["v"]
        if rng.random() < 0.3:
            a, b = b, a
        how = rng.choice(["box"] * 5 + ["tiny", "tiny"] + (["fix", "fix last", "mixed", "mixed fix", "early", "early key", "miss", "keys", "fixed key",
                                                           "remove none", "nothing"] if clumsy else []))
        if how == "tiny":           # double click
            return [a, dict(a, wait=0.05, dbl=True)]
        if how == "fix":
            return [pt(), at(0.5, 0.5, 3), a, b]
        if how == "fix last":
            return [a, pt(1 - panel), at(0.5, 0.5, 3), b] if rng.random() < 0 else [pt(), dict(at(0.5, 0.5, 3)), a, b]
        if how == "mixed":
            return [pt(0), pt(1)]
        if how == "mixed fix":
            return [pt(1 - panel), {"do": "key", "key": rng.choice(["backspace", "delete"]), "u": 0.5, "v": 0.5, "panel": 0, "wait": gen_wait(rng)}, a, b]
        if how == "early":
            return [pt() for _ in range(rng.choice([0, 1]))] + [at(0.5, 0.5, 2)]
        if how == "early key":
            return [pt() for _ in range(rng.choice([0, 1]))] + [{"do": "key", "key": rng.choice(["enter", "escape"]), "u": 0.4, "v": 0.4, "wait": 0.5}]
        if how == "miss":
            return [at(-0.05, 0.5), a, at(1.02, 1.05), b]
        if how == "keys":
            return [dict(x, do="key", key=rng.choice([" ", "x", "1", "y"])) for x in (a, b)]
        if how == "fixed key":
            return [pt(), {"do": "key", "key": "delete", "u": -0.1, "v": 0.5, "panel": 0, "wait": 0.2}, dict(a, do="key", key="x"), b]
        if how == "remove none":
            return [at(0.5, 0.5, 3), at(0.2, 0.2, 3), a, b]
        if how == "nothing":
            return [pt(), at(0.3, 0.3, 3), at(0.3, 0.3, 2)]
        return [a, b]

    def generate(self, rng, config):
        nset = mostly(rng, [1, 1, 2, 3], [5, 8])
        dims = rng.choice([1, 1, 2])
        peaks = [gen_peaks(rng, i, dims=dims, extras=[]) for i in gen_ids(rng, nset)]
        ops = []
        for _ in range(rng.choice([1, 1, 2])):
            x = rng.choice(["wavelength", "frequency"])
            y = rng.choice(["velocity", "slowness"])
            r = rng.random()
            types = ([x, y] if r < 0.35 else [[x], [y]] if r < 0.45 else [["frequency", "wavelength"], ["velocity", "velocity"]] if r < 0.8
                     else [["wavelength", "frequency"], ["velocity", "slowness"]])
            script, answers = [], []
            for _ in range(rng.randint(1, 7)):
                script += self.gen_box(rng, config != "plain")
                if config != "plain" and rng.random() < 0.4:
                    script.insert(rng.randint(max(0, len(script) - 2), len(script)), noise(rng))
                if rng.random() < 0.08:
                    script.append({"do": "zoom", "panel": rng.randrange(2), "x": [rng.uniform(0, 0.2), rng.uniform(0.7, 1.2)],
                                   "y": [rng.uniform(0, 0.2), rng.uniform(0.7, 1.2)], "wait": 1.0})
            for _ in range(rng.randint(0, 5)):
                answers.append(rng.choice(["1", "1", "1", "2", "2", "0"] + (["", "3", "quit", " 0", "01", "y", "-1"] if config != "plain" else [])))
            op = {"op": "trim", "types": types, "script": script, "answers": answers, "ending": "quit",
                  "limits": rng.choice([None, None, ["wavelength", [3.0, 60.0]], ["wavenumber", [0.05, 2.0]]]),
                  "kw": rng.choice([None, None, {"color": "r"}, {"color": (["r", "g", "b"] * 3)[:nset]}]),
                  "margins": rng.choice([None, 0.1, 0.3])}
            if config == "interrupted":
                r = rng.random()
                if r < 0.3:
                    op["ending"] = "interrupt"
                elif r < 0.5:
                    op["answers"].append("interrupt")
                elif r < 0.7:
                    op["script"].insert(rng.randint(0, len(script)), {"do": "interrupt", "wait": 0.1})
                else:
                    op["line"] = {"at": rng.choice([rng.randrange(60), rng.randrange(400), rng.randrange(1500)]),
                                  "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}
            ops.append(op)
        return {"peaks": peaks, "ops": ops}

    def setup(self, ctx, plan, fs):
        import swprocess as sw
        self.suite = ctx.must(sw.PeaksSuite.from_peaks, [build(p) for p in plan["peaks"]], what="PeaksSuite()")
        self.models = [MPeaks.from_spec(p) for p in plan["peaks"]]

    def finish(self, ctx, plan):
        import matplotlib.pyplot as plt
        plt.close("all")

    def op_trim(self, ctx, op):
        import matplotlib.pyplot as plt
        if sum(int(m.valid.sum()) for m in self.models) < 2 or not self.models[0].valid.any():
            return "nothing to trim"
        xt, yt = op["types"]
        x, y = ([xt], [yt]) if isinstance(xt, str) else (list(xt), list(yt))
        w = TrimWatch(ctx, self.suite, self.models, x, y, op["answers"], op["ending"])
        kw = {"xtype": xt, "ytype": yt}
        if op["limits"]:
            kw["resolution_limits"] = op["limits"]
        if op["kw"]:
            kw["plot_kwargs"] = op["kw"]
        if op["margins"] is not None:
            kw["margins"] = op["margins"]
        with ui.User(ctx, op["script"], w):
            out = ctx.call(self.suite.interactive_trimming, line_fault=op.get("line"), **kw)
        plt.close("all")
        ctx.ev("session", out.name())
        injected = not out.ok and "injected" in str(out.exc)
        if injected:
            ctx.probe("session interrupted")
            if op.get("line") and hasattr(w, "before"):
                # Perhaps while the confirmed peaks were being removed.
                for p, m, b in zip(self.suite.peaks, self.models, w.before):
                    if diff_peaks(p, m):
                        m.valid = b.copy()
                        ctx.probe("interrupted while removing")
            w.unchanged("after an interrupted session")
            return "interrupted"
        ctx.check(out.ok, f"the session failed: {out.name()}", lambda: f"{where(out.exc)}: {out.exc}")
        ctx.check(w.quit, "the session ended though the user did not quit")
        w.unchanged("after the session")


class PickWatch:
    """Model of one or more selection sessions on one figure."""

    def __init__(self, ctx, fig, unchanged, sessions):
        self.ctx, self._fig, self.unchanged = ctx, fig, unchanged
        self.sessions = sessions    # [(npts, initial adjustment, ask to continue)]
        self.points = [[] for _ in sessions]
        self.at, self.phase = 0, None
        self.next_phase()
        self.sel, self.over = None, False

    def next_phase(self):
        self.phase = "adjust" if self.sessions[self.at][1] else "select"

    @property
    def figure(self):
        return self._fig

    def panels(self, fig):
        return list(fig.axes)

    def begin(self, user, fig, name, n, timeout):
        if self._fig is None:
            self._fig = fig
        self.ctx.check(fig is self._fig, "the selection listens to another figure")
        self.ctx.check(not self.over, "the session went on after it was complete")
        self.unchanged("while waiting for the user")
        if self.phase == "select" and name == "ginput":
            self.sel = Selection(-1)
        self.name, self.key, self.finite, self.pressed = name, False, timeout != float("inf"), False

    def event(self, user, fig, do, a, panel, x, y):
        if fig is not self._fig:
            return
        if self.sel is not None:
            self.sel.event(do, a, panel, x, y)
        elif do in ("key", "press") and not self.pressed:
            self.pressed, self.key = True, do == "key"

    def end(self, user, fig, name):
        if self.sel is not None:
            s, self.sel = self.sel, None
            if not s.points:
                self.ctx.probe("empty selection")
                return
            if len(s.points) > 1:
                self.ctx.probe("several points, the last counts")
            self.points[self.at].append(s.points[-1][1:])
            self.phase = "pause" if self.sessions[self.at][2] else "leave"
        elif self.phase == "adjust":
            if self.key:
                self.phase = "select"
        elif self.phase == "pause":
            if self.key:
                self.phase = "leave"
        elif self.phase == "leave":
            npts = self.sessions[self.at][0]
            if self.key or len(self.points[self.at]) >= npts:
                if self.key:
                    self.ctx.probe("left with a key")
                if self.at + 1 < len(self.sessions) and len(self.points[self.at]) == npts:
                    self.at += 1
                    self.next_phase()
                else:
                    self.over = True
            else:
                self.phase = "select"
        self.ctx.state((name, self.phase, self.at, self.key, self.finite, self.sessions,
                        [[(round(float(x), 2), round(float(y), 2)) for x, y in p] for p in self.points]))

    def prompt(self, user, text):
        self.ctx.violation("the session asked for an answer at the terminal", text)

    def idle(self, user):
        return [{"do": "interrupt", "wait": 1.0}]


class PickWorld(OpsWorld):
    """C05."""
    real = ["swprocess.interact", "swprocess.array1d", "matplotlib event handling", "numpy", "scipy"]
    stub = ["user (scripted events on a virtual clock)", "rendering (FigureCanvasAgg.draw)",
            "interrupts (at blocking calls and at chosen lines of the library)"]
    rule = ("a case is a few interactive sessions (point selection, first-arrival picking, muting) by a scripted user (clicks, "
            "corrections, keys, misses, zooms, other figures created and activated, timeouts, interrupts); non-trivial if a session "
            "returned points; distinct by event log")
    state_measure = "distinct (sessions asked for, blocking call, phase, whether a key was pressed, points accepted so far)"
    assumptions = ["one user at a time; the window is not closed during the session", "no event at exactly the end of a timeout"]

    def counts(self, tier):
        q = {"select": 700, "pick": 500, "mute": 800, "interrupted": 700}
        return q if tier == "quick" else {k: v * 25 for k, v in q.items()}

    # -- generation --------------------------------------------------------
    def press(self, rng, u=None, v=None, button=1, wait=None):
        return {"do": "press", "button": button, "u": rng.uniform(0.01, 0.99) if u is None else u,
                "v": rng.uniform(0.01, 0.99) if v is None else v, "wait": gen_wait(rng) if wait is None else wait}

    def key(self, rng, key=None, wait=None):
        return {"do": "key", "key": key or rng.choice([" ", "x", "1", "y"]), "u": rng.uniform(0.1, 0.9), "v": rng.uniform(0.1, 0.9),
                "wait": gen_wait(rng) if wait is None else wait}

    def zoom(self, rng):
        return {"do": "zoom", "x": [rng.uniform(-0.1, 0.2), rng.uniform(0.8, 1.2)], "y": [rng.uniform(-0.1, 0.2), rng.uniform(0.8, 1.2)], "wait": 0.5}

    def gen_select(self, rng, u=None, v=None, clumsy=True):
        """Actions selecting one point."""
        p = self.press(rng, u, v)
        stop = self.press(rng, 0.5, 0.5, 2) if rng.random() < 0.5 else self.key(rng, rng.choice(["enter", "escape"]))
        how = rng.choice(["plain"] * 4 + (["fix", "fix key", "two", "empty", "miss", "key add", "remove all", "zoomed"] if clumsy else []))
        q = self.press(rng)
        undo = self.press(rng, button=3) if rng.random() < 0.5 else self.key(rng, rng.choice(["backspace", "delete"]))
        if how == "fix":
            return [q, undo, p, stop]
        if how == "fix key":
            return [undo, q, q, undo, undo, undo, p, stop]
        if how == "two":
            return [q, self.press(rng), p, stop]
        if how == "empty":
            return [dict(stop), p, stop]
        if how == "miss":
            return [self.press(rng, -0.05, 0.3), p, self.press(rng, 1.03, 0.3), stop]
        if how == "key add":
            return [dict(p, do="key", key=rng.choice(["x", " ", "1"])), stop]
        if how == "remove all":
            return [q, undo, dict(stop), p, stop]
        if how == "zoomed":
            return [self.zoom(rng), p, stop]
        return [p, stop]

    def gen_script(self, rng, npts, initial, ask, clumsy, line=None):
        out = []
        if initial:
            if clumsy:
                out += [rng.choice([self.press(rng), self.zoom(rng), noise(rng)]) for _ in range(rng.choice([0, 0, 1, 2]))]
            out.append(self.key(rng))
        for k in range(npts):
            uv = line[k] if line else (None, None)
            out += self.gen_select(rng, *uv, clumsy=clumsy)
            if ask:
                if clumsy:
                    out += [rng.choice([self.press(rng), self.zoom(rng), noise(rng)]) for _ in range(rng.choice([0, 0, 1, 2]))]
                out.append(self.key(rng))
            r = rng.random()
            if r < 0.08 or (clumsy and r < 0.2):    # within the 0.3 s
                out.append(rng.choice([self.key(rng, wait=rng.choice([0.01, 0.1, 0.25])), self.press(rng, wait=rng.choice([0.01, 0.1, 0.25]))])
                           if rng.random() < 0.5 else dict(noise(rng), wait=0.1))
            if out:
                nxt = rng.choice([0.35, 0.5, 1.0, 3.0]) if rng.random() < 0.85 else gen_wait(rng)
                out.append(dict(noise(rng), wait=nxt) if clumsy and rng.random() < 0.3 else {"do": "move", "u": 0.5, "v": 0.5, "wait": nxt})
        return out

    def generate(self, rng, config):
        ops = []
        for _ in range(rng.choice([1, 1, 2])):
            clumsy = rng.random() < 0.75
            k = {"select": "select", "pick": "pick", "mute": "mute"}.get(config) or rng.choice(["select", "pick", "mute", "mute"])
            arr = gen_array(rng, 2, 6)
            off = rng.choice([0, 0, 10, -4.5])
            arr["xs"] = [x + off for x in arr["xs"]]
            arr["src"] += off
            op = {"op": k, "array": arr, "before": rng.choice([0, 0, 1, 2])}
            if k == "select":
                op.update(npts=rng.choice([1, 1, 2, 3, 5, "inf"]), initial=rng.choice([None, True, False]), ask=rng.choice([None, True, False]),
                          scale=rng.choice(["linear", "log"]), messages=rng.random() < 0.2)
                n = rng.randint(1, 4) if op["npts"] == "inf" else op["npts"]
                op["script"] = self.gen_script(rng, n, op["initial"] is not False, op["ask"] is not False, clumsy)
                if op["npts"] == "inf":
                    while op["script"] and op["script"][-1]["do"] != "key":
                        op["script"].pop()
                    op["script"] += [self.key(rng, " ", 1.0), self.key(rng, " ", 0.1)]
            elif k == "pick":
                op.update(kw=self.gen_waterfall(rng))
                op["script"] = self.gen_script(rng, rng.randint(1, 5), True, True, clumsy)
                while op["script"] and op["script"][-1]["do"] != "key":
                    op["script"].pop()
                op["script"] += [self.key(rng, " ", 1.0), self.key(rng, " ", 0.1)]
            else:
                op.update(kw=self.gen_waterfall(rng), where=rng.choice(["both", "both", None, "before", "after"]),
                          window=rng.choice([None, None, {"alpha": 0.0}, {"alpha": 0.5}, {"alpha": 1.0}]), arg=rng.random() < 0.5)
                script = []
                for side in range(2 if op["where"] in ("both", None) else 1):
                    t = (rng.uniform(0.02, 0.45), rng.uniform(0.55, 0.98))
                    first = side == 0 and op["where"] != "after"
                    pts = []
                    ds = sorted([rng.uniform(0.02, 0.45), rng.uniform(0.55, 0.98)], reverse=rng.random() < 0.3)
                    if rng.random() < 0.04:
                        ds[1] = ds[0]
                    for d in ds:
                        tt = rng.uniform(0.02, 0.4) if first else rng.uniform(0.5, 0.98)
                        if rng.random() < 0.15:
                            tt = rng.uniform(0, 1)
                        pts.append((d, 1 - tt) if op["kw"].get("time_ax", "y") == "y" else (tt, d))
                    script += self.gen_script(rng, 2, False, False, clumsy, line=pts)
                op["script"] = script
            if config == "interrupted":
                r = rng.random()
                if r < 0.6:
                    op["script"].insert(rng.randint(0, len(op["script"])), {"do": "interrupt", "wait": 0.1})
                else:
                    op["line"] = {"at": rng.choice([rng.randrange(60), rng.randrange(200), rng.randrange(400)]),
                                  "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}
            ops.append(op)
        return {"ops": ops}

    def gen_waterfall(self, rng):
        kw = {}
        if rng.random() < 0.7:
            kw["time_ax"] = rng.choice(["x", "y"])
        if rng.random() < 0.5:
            kw["position_normalization"] = rng.random() < 0.8
        if rng.random() < 0.3:
            kw["amplitude_normalization"] = rng.choice(["none", "each", "all"])
        if rng.random() < 0.2:
            kw["amplitude_scale"] = 1.0
        return kw

    # -- execution ---------------------------------------------------------
    def finish(self, ctx, plan):
        import matplotlib.pyplot as plt
        plt.close("all")

    def model(self, spec):
        rec = spec["rec"]
        return MArr([MRec(amp_of(dict(rec, aseed=rec["aseed"] + k)), rec["dt"], rec.get("delay", 0), rec.get("nstacks", 1), (x, 0, 0))
                     for k, x in enumerate(spec["xs"])], (spec["src"], 0, 0))

    def prepare(self, ctx, op):
        import matplotlib.pyplot as plt
        plt.close("all")
        array = ctx.must(make_array, op["array"], what="building an array")
        m = self.model(op["array"])

        def unchanged(when):
            d = ctx.observe(lambda: m.diff(array), "looking at an array")
            ctx.check(d is None, "recorded data changed during the session", lambda: f"{when}: {d}")
        return array, m, unchanged

    def session(self, ctx, op, fn, watch):
        import matplotlib.pyplot as plt
        with ui.User(ctx, op["script"], watch) as u:
            for _ in range(op["before"]):
                u.act(None, {"do": "newfig"})
            out = ctx.call(fn, line_fault=op.get("line"))
        ctx.ev("session", op["op"], out.name(), watch.points)
        return out

    def ended(self, ctx, op, out, w, unchanged):
        """Common verdicts; True if the session completed."""
        if not out.ok and "injected" in str(out.exc):
            ctx.probe("session interrupted")
            if not op.get("line"):
                unchanged("after an interrupted session")
            return False
        return True

    def op_select(self, ctx, op):
        import matplotlib.pyplot as plt
        from swprocess.interact import ginput_session
        array, m, unchanged = self.prepare(ctx, op)
        fig, ax = plt.subplots()
        ax.set_xlim(1, 50)
        ax.set_ylim(10, 200)
        ax.set_xscale(op["scale"])
        kw, npts = {}, 1
        if op["npts"] != 1 or op["messages"]:
            kw["npts"] = npts = np.inf if op["npts"] == "inf" else op["npts"]
        if op["initial"] is not None:
            kw["initial_adjustment"] = op["initial"]
        if op["ask"] is not None:
            kw["ask_to_continue"] = op["ask"]
        if op["messages"]:
            kw.update(initial_adjustment_message="ready?", ask_to_continue_message="more?")
        w = PickWatch(ctx, fig, unchanged, [(npts, op["initial"] is not False, op["ask"] is not False)])
        out = self.session(ctx, op, lambda: ginput_session(ax, **kw), w)
        if not self.ended(ctx, op, out, w, unchanged):
            return "interrupted"
        ctx.check(out.ok, f"the selection failed: {out.name()}", lambda: f"{where(out.exc)}: {out.exc}")
        self.same(ctx, out.value, w.points[0], w)

    def same(self, ctx, got, points, w):
        ctx.check(w.over, "the session ended before it was complete", lambda: f"{w.phase} {w.points}")
        a, b = ctx.observe(lambda: (list(got[0]), list(got[1])), "looking at the points")
        ctx.check(a == [p[0] for p in points] and b == [p[1] for p in points], "points returned are not those accepted",
                  lambda: f"{a} {b} != {points}")
        ctx.nontrivial = True
        ctx.probe("points returned", len(points))

    def op_pick(self, ctx, op):
        array, m, unchanged = self.prepare(ctx, op)
        w = PickWatch(ctx, None, unchanged, [(np.inf, True, True)])
        kw = dict(op["kw"])
        out = self.session(ctx, op, lambda: array.manual_pick_first_arrivals(waterfall_kwargs=kw) if kw else array.manual_pick_first_arrivals(), w)
        ctx.check(kw == op["kw"], "the options passed were changed")
        if not self.ended(ctx, op, out, w, unchanged):
            return "interrupted"
        ctx.check(out.ok, f"picking failed: {out.name()}", lambda: f"{where(out.exc)}: {out.exc}")
        pts = w.points[0] if op["kw"].get("time_ax", "y") == "y" else [p[::-1] for p in w.points[0]]
        self.same(ctx, out.value, pts, w)
        unchanged("after picking")

    def op_mute(self, ctx, op):
        array, m, unchanged = self.prepare(ctx, op)
        loc = op["where"] or "both"
        n = 2 if loc == "both" else 1
        w = PickWatch(ctx, None, unchanged, [(2, False, False)] * n)
        kw = {"waterfall_kwargs": dict(op["kw"])} if op["kw"] or op["arg"] else {}
        if op["where"]:
            kw["mute_location"] = op["where"]
        if op["window"]:
            kw["window_kwargs"] = dict(op["window"])
        out = self.session(ctx, op, lambda: array.interactive_mute(**kw), w)
        ctx.check(kw.get("waterfall_kwargs", op["kw"]) == op["kw"] and kw.get("window_kwargs", op["window"]) == op["window"],
                  "the options passed were changed")
        if not self.ended(ctx, op, out, w, unchanged):
            return "interrupted"
        if w.over and (w.at + 1 < n or len(w.points[w.at]) < 2):
            # The user left before the line had two points.
            ctx.check(not out.ok, "muted without the points needed", lambda: f"{w.points} -> {out.value}")
            unchanged("after an abandoned session")
            ctx.probe("abandoned")
            return "abandoned"
        distance = 0 if op["kw"].get("time_ax", "y") == "y" else 1
        if w.over and any(pts[0][distance] == pts[1][distance] for pts in w.points):
            ctx.check(not out.ok, "muted by a line at a single distance", lambda: f"{w.points} -> {out.value}")
            unchanged("after a refused line")
            ctx.probe("line at a single distance refused")
            return "refused"
        ctx.check(out.ok, f"muting failed: {out.name()}", lambda: f"{where(out.exc)}: {out.exc}")
        ctx.check(w.over, "the session ended before it was complete", lambda: f"{w.phase} {w.points}")
        shift = m.sensors[0].pos[0] if op["kw"].get("position_normalization") else 0
        lines = []
        for pts in w.points:
            pts = pts if op["kw"].get("time_ax", "y") == "y" else [p[::-1] for p in pts]
            lines.append([(d + shift, t) for d, t in pts])
        start = lines[0] if loc in ("both", "before") else None
        end = lines[-1] if loc in ("both", "after") else None
        got = ctx.observe(lambda: tuple(None if g is None else [tuple(map(float, p)) for p in g] for g in out.value), "looking at the lines")
        for g, want in zip(got, (start, end)):
            ok = (g is None) == (want is None) and (g is None or np.allclose(g, want, rtol=1e-12, atol=1e-12))
            ctx.check(ok, "lines returned are not those accepted", lambda: f"{got} != {(start, end)}")
        ctx.nontrivial = True
        ctx.probe("muted")
        if any(li is not None and abs(li[0][0] - li[1][0]) < 1e-6 for li in (start, end)):
            return "vertical"
        windows = mute_model(m.sensors, start, end, None)
        if windows is None:
            return "ambiguous"
        alpha = (op["window"] or {}).get("alpha", 0.2)
        for s, (a, b) in zip(m.sensors, windows):
            apply_mute(s, a, b, alpha)
        d = ctx.observe(lambda: m.diff(array), "looking at an array")
        ctx.check(d is None, "not exactly the samples outside the lines were muted", lambda: f"{d} {start} {end}")

"""User-interface seams: drawing calls and the user in front of the figure.

Inert unless a simulated run activates them.  `DrawFault` makes the n-th
drawing call of the library fail.  (The scripted user is in `User`.)
"""

import sys

from .. import boot
from .ctx import LineFault

draw = None         # active DrawFault


class DrawFault:
    """Raise in the n-th drawing call made directly by the library."""
    KINDS = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "ValueError": ValueError,
             "RuntimeError": RuntimeError}

    def __init__(self, ctx, spec):
        self.ctx, self.spec, self.n = ctx, spec, 0
        ctx.faults_set["draw-" + spec["exc"]] += 1

    def __enter__(self):
        global draw
        draw = self
        return self

    def __exit__(self, *exc):
        global draw
        draw = None
        return False

    def hit(self, name):
        global draw
        self.n += 1
        if self.n > self.spec["at"]:
            draw = None
            self.ctx.fault("draw-" + self.spec["exc"])
            raise self.KINDS[self.spec["exc"]](f"injected into {name}")


DRAWING = {"axes": ("plot", "contourf", "text", "errorbar", "legend", "scatter", "imshow", "fill_between", "axhline",
                    "axvline", "pcolormesh", "contour", "set_xlim", "set_ylim", "set_xlabel", "set_ylabel",
                    "set_xscale", "set_yscale", "tick_params", "grid", "set_title"),
           "figure": ("colorbar", "tight_layout", "subplots", "suptitle", "legend")}


def _wrap(cls, name):
    original = getattr(cls, name)

    def wrapper(*args, **kwargs):
        if draw is not None and sys._getframe(1).f_code.co_filename.startswith(boot.PKG):
            draw.hit(name)
        return original(*args, **kwargs)
    wrapper.__name__, wrapper.__doc__, wrapper.__wrapped__ = name, original.__doc__, original
    setattr(cls, name, wrapper)


def install():
    import matplotlib.axes
    import matplotlib.figure
    import matplotlib.pyplot as plt
    for name in DRAWING["axes"]:
        _wrap(matplotlib.axes.Axes, name)
    for name in DRAWING["figure"]:
        _wrap(matplotlib.figure.Figure, name)
    _wrap_module(plt, "subplots")
    _wrap_module(plt, "figure")
    _wrap_user()


def _wrap_module(module, name):
    original = getattr(module, name)

    def wrapper(*args, **kwargs):
        if draw is not None and sys._getframe(1).f_code.co_filename.startswith(boot.PKG):
            draw.hit(name)
        return original(*args, **kwargs)
    wrapper.__name__, wrapper.__wrapped__ = name, original
    setattr(module, name, wrapper)


# -- the user in front of the figure ----------------------------------------

user = None         # active User


class _Unfaulted:
    """The world's model, consulted from inside a simulated call: no fault meant for the library may hit it."""

    def __init__(self, watch):
        self._watch = watch

    def __getattr__(self, name):
        value = getattr(self._watch, name)
        if not callable(value) or name == "figure":
            return value

        def call(*args):
            LineFault.paused += 1
            try:
                return value(*args)
            finally:
                LineFault.paused -= 1
        return call


class User:
    """A scripted person at a figure, on a virtual clock.

    The script is a list of actions, each with the time `wait` [s] after the
    previous one.  Blocking calls of matplotlib run the script instead of a
    GUI event loop.  `watch` (the world's model of what the user sees) is told
    about every blocking call, event and prompt.
    """

    def __init__(self, ctx, script, watch):
        self.ctx, self.script, self.watch = ctx, list(script), _Unfaulted(watch)
        self.now, self.due, self.looping = 0.0, None, {}
        self.calls = []             # nested matplotlib calls: (name, n, timeout)
        self.blocks, self.others = 0, []

    def __enter__(self):
        global user
        user = self
        return self

    def __exit__(self, *exc):
        global user
        user = None
        self.ctx.sim_time += self.now
        return False

    # -- called by the seams ----------------------------------------------
    def loop(self, canvas, timeout):
        if timeout is None or timeout <= 0:
            timeout = float("inf")
        deadline = self.now + timeout
        self.blocks += 1
        if self.blocks > 400:
            self.ctx.violation("the session does not end", f"{self.blocks} blocking calls")
        call = self.calls[-1] if self.calls else ("loop", None, timeout)
        self.ctx.ev("block", call[0], call[1], None if timeout == float("inf") else timeout)
        self.watch.begin(self, canvas.figure, call[0], call[1], timeout)
        canvas._looping = True
        while canvas._looping:
            if not self.script:
                if timeout != float("inf"):
                    self.now = deadline
                    break
                self.script.extend(self.watch.idle(self))
            act = self.script[0]
            due = max(self.now, (self.due or 0.0) + act.get("wait", 1.0))
            if due > deadline:
                self.now = deadline
                self.ctx.probe("timeout reached")
                break
            self.now = self.due = due
            self.script.pop(0)
            self.act(canvas, act)
        canvas._looping = False
        self.watch.end(self, canvas.figure, call[0])

    def prompt(self, text):
        self.ctx.ev("prompt", text)
        answer = self.watch.prompt(self, text)
        if answer == "interrupt":
            self.interrupt()
        return answer

    def interrupt(self):
        self.ctx.faults_set["interrupt at a blocking call"] += 1
        self.ctx.fault("interrupt at a blocking call")
        raise KeyboardInterrupt("injected")

    # -- what a user can do ------------------------------------------------
    def act(self, canvas, a):
        from matplotlib.backend_bases import KeyEvent, MouseEvent
        import matplotlib.pyplot as plt
        do = a["do"]
        self.ctx.probe("user: " + do + (f" {a['button']}" if do == "press" else ""))
        if do == "interrupt":
            self.interrupt()
        if do == "newfig":
            fig = plt.figure(figsize=(1, 1))
            fig.add_subplot(111)
            self.others.append(fig)
            self.ctx.ev("act", do)
            return
        if do == "switch":
            if self.others:
                plt.figure(self.others[a["k"] % len(self.others)].number)
            self.ctx.ev("act", do)
            return
        fig = self.watch.figure
        if a.get("other"):
            if not self.others:
                return
            fig = self.others[0]
        canvas, axes = fig.canvas, self.watch.panels(fig)
        ax = axes[a.get("panel", 0) % len(axes)]
        if do == "zoom":
            (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
            ax.set_xlim(x0 + (x1 - x0) * a["x"][0], x0 + (x1 - x0) * a["x"][1])
            ax.set_ylim(y0 + (y1 - y0) * a["y"][0], y0 + (y1 - y0) * a["y"][1])
            self.ctx.ev("act", do)
            return
        x, y = ax.transAxes.transform((a["u"], a["v"]))
        if do in ("press", "release", "scroll", "move"):
            name = {"press": "button_press_event", "release": "button_release_event", "scroll": "scroll_event",
                    "move": "motion_notify_event"}[do]
            button = {"scroll": "up", "move": None}.get(do, a.get("button", 1))
            ev = MouseEvent(name, canvas, x, y, button, dblclick=a.get("dbl", False))
        else:
            name = {"key": "key_press_event", "keyup": "key_release_event"}[do]
            ev = KeyEvent(name, canvas, a["key"], x, y)
        panel = axes.index(ev.inaxes) if ev.inaxes in axes else None
        self.ctx.ev("act", do, a.get("button", a.get("key")), panel, ev.xdata, ev.ydata, round(self.now, 3))
        self.watch.event(self, fig, do, a, panel, ev.xdata, ev.ydata)
        ev._process()


def _wrap_user():
    import builtins
    from matplotlib.backend_bases import FigureCanvasBase
    from matplotlib.backends.backend_agg import FigureCanvasAgg
    from matplotlib.figure import Figure
    start, draw_agg, idle, ask = FigureCanvasBase.start_event_loop, FigureCanvasAgg.draw, FigureCanvasBase.draw_idle, builtins.input
    ginput, wait = Figure.ginput, Figure.waitforbuttonpress

    def start_event_loop(self, timeout=0):
        if user is None:
            return start(self, timeout)
        user.loop(self, timeout)

    def draw(self, *args, **kwargs):
        if user is None:
            return draw_agg(self, *args, **kwargs)

    def draw_idle(self, *args, **kwargs):
        if user is None:
            return idle(self, *args, **kwargs)

    def labelled(original, name):
        def call(self, *args, **kwargs):
            if user is None:
                return original(self, *args, **kwargs)
            n = args[0] if args and name == "ginput" else kwargs.get("n", 1)
            user.calls.append((name, n, kwargs.get("timeout")))
            try:
                return original(self, *args, **kwargs)
            finally:
                user.calls.pop()
        return call

    def input_(prompt=""):
        return ask(prompt) if user is None else user.prompt(prompt)
    FigureCanvasBase.start_event_loop = start_event_loop
    FigureCanvasAgg.draw, FigureCanvasBase.draw_idle = draw, draw_idle
    Figure.ginput, Figure.waitforbuttonpress = labelled(ginput, "ginput"), labelled(wait, "waitforbuttonpress")
    builtins.input = input_

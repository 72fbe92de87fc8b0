"""State of one simulated run: event log, oracle results, fault accounting."""

import dis
import hashlib
import json
import os
import random
import sys
import traceback
import warnings
from collections import Counter

from .. import boot


class SimViolation(BaseException):
    """The property under test is broken."""

    def __init__(self, kind, detail=""):
        super().__init__(kind, detail)
        self.kind, self.detail = kind, str(detail)


class HarnessError(BaseException):
    """The simulator itself misbehaved: never reported as a violation."""


class SimAbort(BaseException):
    """Leave the code under test (simulated death of an interactive user)."""


def case_rng(*parts):
    text = "/".join(str(p) for p in parts)
    return random.Random(int.from_bytes(hashlib.sha256(text.encode()).digest(), "big"))


def in_library(tb):
    """True if the traceback passes through the code under test."""
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(boot.PKG):
            return True
        tb = tb.tb_next
    return False


def where(exc):
    """Type and innermost library function of an exception (for logs)."""
    tb, spot = exc.__traceback__, "?"
    while tb is not None:
        f = tb.tb_frame.f_code
        if f.co_filename.startswith(boot.PKG):
            spot = f"{os.path.basename(f.co_filename)}:{f.co_name}"
        tb = tb.tb_next
    return f"{type(exc).__name__}@{spot}"


class Outcome:
    def __init__(self, value=None, exc=None, warned=()):
        self.value, self.exc, self.warned = value, exc, list(warned)

    @property
    def ok(self):
        return self.exc is None

    def name(self):
        return "ok" if self.ok else type(self.exc).__name__


class Ctx:
    def __init__(self, scratch, carry=None):
        self.scratch = scratch
        self.log = []
        self.faults_set = Counter()
        self.faults_fired = Counter()
        self.probes = Counter()
        self.ops = Counter()
        self.states = set()
        self.sim_time = 0.0
        self.restarts = 0
        self.nontrivial = False
        if carry:
            for k, v in carry.items():
                setattr(self, k, v)

    CARRY = ("log", "faults_set", "faults_fired", "probes", "ops", "states",
             "sim_time", "restarts", "nontrivial")

    def carry(self):
        return {k: getattr(self, k) for k in self.CARRY}

    # -- recording ---------------------------------------------------------
    def ev(self, *parts):
        self.log.append(json.dumps(parts, default=_jsonable).replace(self.scratch, "$S"))

    def probe(self, name, n=1):
        self.probes[name] += n

    def fault(self, kind):
        self.faults_fired[kind] += 1
        self.ev("FAULT", kind)

    def state(self, obj):
        h = hashlib.sha256(repr(obj).encode()).hexdigest()[:16]
        self.states.add(h)
        return h

    def log_hash(self):
        return hashlib.sha256("\n".join(self.log).encode()).hexdigest()

    # -- oracles -----------------------------------------------------------
    def violation(self, kind, detail=""):
        raise SimViolation(kind, detail)

    def check(self, cond, kind, detail=""):
        if not cond:
            self.violation(kind, detail() if callable(detail) else detail)

    # -- calling the code under test ---------------------------------------
    def call(self, fn, *args, line_fault=None, **kwargs):
        """Call the library; exceptions are outcomes for the world to judge."""
        out = Outcome()
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            try:
                if line_fault:
                    with LineFault(self, line_fault):
                        out.value = fn(*args, **kwargs)
                else:
                    out.value = fn(*args, **kwargs)
            except (SimViolation, HarnessError):
                raise
            except BaseException as e:
                out.exc = e
        out.warned = [(w.category.__name__, str(w.message)) for w in caught]
        return out

    def must(self, fn, *args, what="call", **kwargs):
        """Call the library where it must succeed."""
        out = self.call(fn, *args, **kwargs)
        if not out.ok:
            self.violation(f"{what}: unexpected {type(out.exc).__name__}",
                           f"{where(out.exc)}: {out.exc}\n" + short_tb(out.exc))
        return out.value

    def observe(self, fn, what="observation"):
        """Look at library objects: failing to look is a violation, too."""
        try:
            return fn()
        except (SimViolation, HarnessError):
            raise
        except BaseException as e:
            self.violation(f"{what}: {type(e).__name__}", f"{where(e)}: {e}\n" + short_tb(e))


def short_tb(exc):
    return "".join(traceback.format_exception(exc)[-6:]).replace("\n\n", "\n")


def _jsonable(o):
    try:
        import numpy as np
        if isinstance(o, np.ndarray):
            return digest(o)
        if isinstance(o, np.generic):
            return o.item()
    except ImportError:
        pass
    if isinstance(o, (set, frozenset)):
        return sorted(o)
    return repr(o)


def digest(a):
    """Short digest of an array: dtype-independent for floats, NaN-safe."""
    import numpy as np
    a = np.ascontiguousarray(a)
    return f"{a.shape}:{hashlib.sha256(a.tobytes()).hexdigest()[:12]}"


_exits = {}


def leaving_with(frame):
    """At the exit of a `with`, before it is called.

    CPython raises what arrives asynchronously after calls, at jumps and at
    the start of functions, never between a `with` block and its exit.
    """
    code = frame.f_code
    if code not in _exits:
        ins = [i for i in dis.get_instructions(code) if i.opname not in ("SWAP", "CACHE")]
        names = [(i.opname, i.argval) if i.opname == "LOAD_CONST" else i.opname for i in ins]
        none = ("LOAD_CONST", None)
        out = set()
        for k, i in enumerate(ins):
            if names[k:k + 4] == [none, none, none, "CALL"] or names[k:k + 2] == ["PUSH_EXC_INFO", "WITH_EXCEPT_START"]:
                out.add(i.offset)
                out.add(i.offset - 2)       # a SWAP before it
        _exits[code] = out
    return frame.f_lasti in _exits[code]


class LineFault:
    """Raise an exception, or die, at the n-th executed line of the library.

    `spec`: {"at": n, "exc": "KeyboardInterrupt" | "MemoryError" | ...}.
    """
    KINDS = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}
    paused = 0          # > 0 while the harness itself uses the library inside a simulated call

    def __init__(self, ctx, spec):
        self.ctx, self.spec, self.n, self.fired = ctx, spec, 0, False
        ctx.faults_set["line-" + spec["exc"]] += 1

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, *exc):
        sys.settrace(self.old)
        return False

    def _global(self, frame, event, arg):
        if not self.fired and not LineFault.paused and frame.f_code.co_filename.startswith(boot.PKG):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line" and not self.fired and not LineFault.paused:
            self.n += 1
            if self.n > self.spec["at"] and not leaving_with(frame):
                self.fired = True
                sys.settrace(None)
                self.ctx.fault("line-" + self.spec["exc"])
                raise self.KINDS[self.spec["exc"]]("injected")
        return self._local

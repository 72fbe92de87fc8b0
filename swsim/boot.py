"""Prepare the process: seams first, then the code under test, then warm-up.

Everything nondeterministic the library can reach is replaced here *before*
swprocess is imported, by wrappers that behave exactly like the originals
until a simulated run activates them.
"""

import os
import shutil
import sys
import tempfile
import warnings

REPO = os.environ.get("SWSIM_REPO", "/repo")
PKG = os.path.join(os.path.realpath(REPO), "swprocess") + os.sep
_booted = False
SCRATCH_ROOT = None


def scratch_root():
    """One scratch directory per process tree, removed by its creator."""
    global SCRATCH_ROOT
    if SCRATCH_ROOT is None:
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        SCRATCH_ROOT = os.path.realpath(tempfile.mkdtemp(prefix="swsim.", dir=base))
        import atexit
        pid, root = os.getpid(), SCRATCH_ROOT

        def clean():
            if os.getpid() == pid:
                shutil.rmtree(root, ignore_errors=True)
        atexit.register(clean)
    return SCRATCH_ROOT


def boot():
    """Install inert seams and import the code under test."""
    global _booted
    if _booted:
        return
    _booted = True
    root = scratch_root()
    os.environ["MPLCONFIGDIR"] = os.path.join(root, "mpl")
    os.makedirs(os.environ["MPLCONFIGDIR"], exist_ok=True)
    warnings.simplefilter("ignore")
    sys.path.insert(0, REPO)

    from .core import fs, randseam, sched
    fs.install()
    randseam.install()
    sched.install()

    import numpy  # noqa
    import scipy.signal, scipy.special, scipy.optimize, scipy.interpolate  # noqa
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot  # noqa
    from .core import ui
    ui.install()
    import obspy
    import pandas  # noqa
    import swprocess
    import swprocess.stats, swprocess.utils, swprocess.masw, swprocess.maswworkflows  # noqa
    import swprocess.snr, swprocess.regex, swprocess.interact, swprocess.register  # noqa
    import swprocess.wavefieldtransforms, swprocess.array1d, swprocess.sensor1c  # noqa
    from swprocess.masw import MaswXcorr  # noqa
    where = os.path.realpath(swprocess.__file__)
    if not where.startswith(PKG):
        raise RuntimeError(f"swprocess imported from {where}, not from {PKG}")
    _warm_up(root)


def _warm_up(root):
    """Load lazily imported plugins, so runs forked later do not."""
    import numpy as np
    import obspy
    import pandas as pd
    import matplotlib.pyplot as plt
    from .worlds import shots
    d = os.path.join(root, "warm")
    os.makedirs(d, exist_ok=True)
    for fmt in ("SU", "SEGY"):
        shots.write_gather(os.path.join(d, "w." + fmt), fmt, dict(
            dt=0.001, n=20, delay=0, stacks=[1, 1], scal=-100, src=(-500, 0),
            xs=[0, 200], ys=[0, 0], amps=[np.arange(20), np.arange(20) + 1]))
        obspy.read(os.path.join(d, "w." + fmt))
    shots.write_gather(os.path.join(d, "w.SEG2"), "SEG2", dict(
        dt=0.001, n=20, delay=0, stacks=[1, 1], src=(-5, 0),
        xs=[0, 2], ys=[0, 0], amps=[np.arange(20), np.arange(20) + 1]))
    obspy.read(os.path.join(d, "w.SEG2"))
    tr = obspy.Trace(np.arange(100, dtype=np.int32))
    obspy.Stream([tr]).write(os.path.join(d, "w.mseed"), format="mseed")
    obspy.read(os.path.join(d, "w.mseed"))
    with open(os.path.join(d, "w.csv"), "w") as f:
        f.write("a,b\n1,2\n")
    pd.read_csv(os.path.join(d, "w.csv"))
    fig, ax = plt.subplots()
    ax.plot([1, 2], [1, 2])
    ax.text(0.5, 0.5, "warm")
    fig.canvas.draw()
    plt.close("all")
    shutil.rmtree(d, ignore_errors=True)
    np.random.seed(0)

"""Randomness seam: numpy's default generator is owned by the simulator.

`hook` is None outside simulated runs, and the original generator is used.
Inside a run every generator the library asks for comes from `hook()`.
"""

hook = None


def install():
    import numpy.random as nr
    original = nr.default_rng

    def default_rng(*args, **kwargs):
        if hook is not None:
            return hook()
        return original(*args, **kwargs)
    default_rng._original = original
    nr.default_rng = default_rng

"""Shared by the properties about the fitters."""
from .. import actors
from ..actors import FitterActor, fitter_spec
from .common import NativeFault

NP = actors.FITS
RESETTABLE = actors.FITS + tuple(k for k in actors.TORCH_FITS if k != "torch_lbfgs")
ALL = actors.FITS + actors.TORCH_FITS
INJECTED = (MemoryError, RuntimeError, KeyboardInterrupt)


def passes(spec):
    """Number of native calls in one step."""
    return 2 * (spec["frames"] if spec["fit"].endswith("multi") else 1)


class RigidFault:
    """The evaluation of the rigidity energy fails, before or after its work."""

    def __init__(self, when, exc):
        self.when = when
        self.exc = {"MemoryError": MemoryError, "RuntimeError": RuntimeError, "KeyboardInterrupt": KeyboardInterrupt}[exc]
        self.fired = 0

    def __enter__(self):
        from deodr.laplacian_rigid_energy import LaplacianRigidEnergy
        self.classes = [LaplacianRigidEnergy]
        import sys
        m = sys.modules.get("deodr.pytorch.laplacian_rigid_energy_pytorch")
        if m is not None:
            self.classes.append(m.LaplacianRigidEnergyPytorch)
        self.saved = [c.__dict__.get("evaluate") for c in self.classes]

        def wrap(f):
            def g(*a, **k):
                if self.when == "before":
                    self.fired += 1
                    raise self.exc("injected")
                f(*a, **k)
                self.fired += 1
                raise self.exc("injected")
            return g

        for c, s in zip(self.classes, self.saved):
            if s is not None:
                c.evaluate = wrap(s)
        return self

    def __exit__(self, *a):
        for c, s in zip(self.classes, self.saved):
            if s is not None:
                c.evaluate = s
        return False


def gen_fault(rng, spec):
    exc = rng.choice(["MemoryError", "RuntimeError", "KeyboardInterrupt"] if not spec["fit"].startswith("torch")
                     else ["MemoryError", "RuntimeError"])
    if rng.random() < 0.25:
        return ["rigid", rng.choice(["before", "after"]), exc]
    return ["native", rng.choice(["before", "after"]), exc, rng.randrange(passes(spec))]


def failing(fault):
    if fault[0] == "rigid":
        return RigidFault(fault[1], fault[2])
    return NativeFault({fault[3]: fault[1]}, fault[2])


def failed_step(a, fault):
    """Attempts a step with a failure inside. (fired, outcome of the step)"""
    with failing(fault) as ft:
        try:
            r = ["ok", a.do(["step"])]
        except INJECTED as e:
            if "injected" not in str(e):
                raise
            r = ["failed", None]
    return bool(ft.fired), r


def small_fit(s):
    for ch in ({"mesh": "tetra"}, {"w": 6}, {"h": 6}, {"frames": 1}, {"dist": False}, {"sizes": False},
               {"opts": None}):
        n = {**s, **ch}
        if n != s:
            yield n


__all__ = ["FitterActor", "RESETTABLE", "fitter_spec", "NP", "ALL", "passes", "gen_fault", "failing", "failed_step", "small_fit"]

"""Loads the code under test: Python sources straight from /repo, the native
engine from the fresh build. Locks the package creates become simulated locks."""
import builtins
import importlib.abc
import importlib.util
import io
import os
import sys
import threading

from .env import REPO

_ENGINE = None


class _EngineFinder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name == "deodr.differentiable_renderer_cython":
            return importlib.util.spec_from_file_location(name, _ENGINE)
        return None


class _GuardLocks:
    """While deodr modules are being imported, threading.Lock/RLock/Condition produce
    simulated locks, so that code that takes a lock cannot hang the scheduler."""

    def __enter__(self):
        from . import sched
        self.saved = (threading.Lock, threading.RLock)
        threading.Lock, threading.RLock = sched.SimLock, sched.SimRLock

    def __exit__(self, *a):
        threading.Lock, threading.RLock = self.saved


def boot(engine, torch=False, gl=False, viewer=False):
    """Import deodr. Heavy third-party modules are imported first, outside the lock guard."""
    global _ENGINE
    _ENGINE = engine
    import numpy  # noqa
    from . import build, shim
    shim.array_allocator(build.arrays())
    import scipy.sparse  # noqa
    import scipy.sparse.csgraph  # noqa
    import scipy.sparse.linalg  # noqa
    import scipy.spatial.transform  # noqa
    import imageio.v3  # noqa
    import PIL.Image, PIL.PngImagePlugin  # noqa
    import trimesh, trimesh.base, trimesh.visual.texture  # noqa
    if torch:
        import torch as _t
        _t.set_num_threads(1)
    sys.path.insert(0, REPO)
    sys.meta_path.insert(0, _EngineFinder())
    for m in list(sys.modules):
        if m == "deodr" or m.startswith("deodr."):
            del sys.modules[m]
    with _GuardLocks():
        import deodr
        import deodr.differentiable_renderer as dr
        import deodr.mesh_fitter  # noqa
        import deodr.meshlab_io  # noqa
        import deodr.obj  # noqa
        import deodr.tools  # noqa
        import deodr.triangulated_mesh  # noqa
        import deodr.laplacian_rigid_energy  # noqa
        import deodr.differentiable_renderer_cython as c
        if torch:
            import deodr.pytorch  # noqa
            import deodr.pytorch.mesh_fitter_pytorch  # noqa
    assert os.path.realpath(deodr.__file__).startswith(os.path.realpath(REPO) + os.sep), deodr.__file__
    assert os.path.realpath(c.__file__) == os.path.realpath(engine), c.__file__
    _warm(torch)


def _warm(torch):
    """Make lazy third-party imports and caches happen before the first fork."""
    import numpy as np
    a = np.zeros((4, 4))
    np.linalg.det(a[None])
    np.cross(np.ones(3), np.ones(3))
    buf = io.BytesIO()
    import imageio.v3 as iio
    iio.imwrite(buf, np.zeros((2, 2, 3), np.uint8), extension=".png")
    if torch:
        import torch as t
        x = t.ones(3, requires_grad=True)
        (x * 2).sum().backward()

        class F(t.autograd.Function):
            @staticmethod
            def forward(ctx, a):
                ctx.save_for_backward(a)
                return a * 2

            @staticmethod
            def backward(ctx, g):
                return g * 2

        F.apply(x).sum().backward()
        t.autograd.grad([F.apply(x)], [x], [t.ones(3)], allow_unused=True)
        try:  # first use imports a symbolic algebra package
            import sympy, torch._dynamo, torch.fx.experimental.symbolic_shapes  # noqa
        except ImportError:
            pass

"""Watches every array that crosses the public API of the package, in either direction.

Every outermost call of the API records the arrays it was given and the arrays it
returned; none of them may ever change afterwards.
"""
import functools
import importlib
import inspect
import sys

import numpy as np

MODULES = ("deodr.differentiable_renderer", "deodr.triangulated_mesh", "deodr.laplacian_rigid_energy",
           "deodr.mesh_fitter", "deodr.obj", "deodr.meshlab_io", "deodr.tools", "deodr.opengl.moderngl")
TORCH_MODULES = ("deodr.pytorch.differentiable_renderer_pytorch", "deodr.pytorch.triangulated_mesh_pytorch",
                 "deodr.pytorch.laplacian_rigid_energy_pytorch", "deodr.pytorch.mesh_fitter_pytorch")
SCENE2D_IN = ("faces", "faces_uv", "ij", "depths", "textured", "uv", "shade", "colors", "shaded", "edgeflags", "texture",
              "background_image", "background_color")
OBJ_IN = {"Camera": ("extrinsic", "intrinsic", "distortion"), "Trimesh": ("vertices", "faces"),
          "TextureVisuals": ("uv",), "TriMesh": ("vertices", "faces"),
          "Scene3D": ("light_directional", "background_color", "background_image", "mesh"),
          "ColoredTriMesh": ("faces_uv", "uv", "texture", "vertices_colors")}


class Entry:
    __slots__ = ("obj", "view", "copy", "what")


class Picture:
    """An image object, compared by its pixels."""

    def __init__(self, im):
        self.im = im

    def __array__(self, dtype=None, copy=None):
        return np.array(self.im)


class Ledger:
    MAX = 600

    def __init__(self):
        self.entries = {}
        self.depth = 0
        self.calls = 0
        self.patched = []
        self.last2d = {}

    # -- recording ----------------------------------------------------------
    def _array(self, x):
        t = sys.modules.get("torch")
        if t is not None and isinstance(x, t.Tensor):
            return None if x.is_sparse else x.detach().numpy()
        if isinstance(x, np.ndarray) and x.dtype != object:
            return x.view(np.ndarray)
        return None

    def walk(self, x, what, depth=0):
        """(object, array, description) of everything reachable that the caller owns."""
        if x is None or isinstance(x, (bool, int, float, str, bytes)) or depth > 4:
            return
        a = self._array(x)
        if a is not None:
            yield x, a, what
            return
        if isinstance(x, (list, tuple)):
            for i, y in enumerate(x):
                yield from self.walk(y, f"{what}[{i}]", depth + 1)
            return
        if type(x).__module__.startswith("scipy.sparse"):
            for n in ("data", "indices", "indptr", "row", "col"):
                v = getattr(x, n, None)
                if isinstance(v, np.ndarray):
                    yield from self.walk(v, f"{what}.{n}", depth + 1)
            return
        for c in type(x).__mro__:
            for n in OBJ_IN.get(c.__name__, ()):
                yield from self.walk(getattr(x, n, None), f"{what}.{n}", depth + 1)
        if type(x).__name__ == "Trimesh":
            v = x.visual
            if v.kind == "texture":
                yield from self.walk(getattr(v, "uv", None), what + ".visual.uv", depth + 1)
                im = getattr(v.material, "image", None)
                if im is not None:
                    yield im, Picture(im), what + ".visual.material.image"
            elif v.kind in ("vertex", "face"):
                n = v.kind + "_colors"
                yield from self.walk(getattr(v, n), f"{what}.visual.{n}", depth + 1)

    def add(self, x, what):
        for obj, a, w in self.walk(x, what):
            k = id(obj)
            if k in self.entries or len(self.entries) >= self.MAX:
                continue
            e = Entry()
            e.obj, e.view, e.copy, e.what = obj, a, np.array(a, copy=True), w
            self.entries[k] = e

    def forget(self, x):
        for obj, _, _ in self.walk(x, ""):
            self.entries.pop(id(obj), None)

    def check(self):
        """None, or what changed."""
        for e in self.entries.values():
            a = np.asarray(e.view)
            if a.shape != e.copy.shape or a.dtype != e.copy.dtype:
                return e.what, "its shape or type changed"
            if not np.array_equal(a, e.copy, equal_nan=a.dtype.kind in "fc"):
                n = int(np.sum((a != e.copy) & ~((a != a) & (e.copy != e.copy))))
                return e.what, f"{n} of {a.size} entries changed"
        return None

    # -- interception -------------------------------------------------------
    def wrap(self, f, name):
        led = self

        @functools.wraps(f)
        def g(*a, **k):
            if led.depth:
                return f(*a, **k)
            led.depth = 1
            try:
                led.calls += 1
                s = a[0] if a else None
                two_d = type(s).__name__ == "Scene2D" and name.startswith("Scene2D.")
                if two_d and not name.endswith("__init__"):
                    for n in SCENE2D_IN:
                        led.add(getattr(s, n, None), f"scene.{n}")
                for i, x in enumerate(a):
                    if i or not hasattr(type(x), name.split(".")[-1]):
                        led.add(x, f"argument {i} of {name}")
                for n, x in k.items():
                    led.add(x, f"argument {n} of {name}")
                if two_d and (k.get("make_copies") is False or (len(a) > 2 and a[2] is False)):
                    # the caller allows the backward pass to use the image and the error buffer as scratch memory
                    for x in led.last2d.pop(id(s), ()):
                        led.forget(x)
                r = f(*a, **k)
                if isinstance(r, dict):
                    for n, x in r.items():
                        led.add(x, f"result {n} of {name}")
                else:
                    led.add(r, f"result of {name}")
                if two_d and name.endswith((".render", ".render_error", ".render_compare_and_backward")):
                    led.last2d[id(s)] = [r[0]] + ([r[2]] if len(r) > 2 else [])
                return r
            finally:
                led.depth = 0

        return g

    def __enter__(self):
        mods = tuple(m for m in MODULES if m in sys.modules or "opengl" not in m) + (TORCH_MODULES if "deodr.pytorch" in sys.modules else ())
        for mn in mods:
            m = importlib.import_module(mn)
            for n, o in list(vars(m).items()):
                if getattr(o, "__module__", None) != mn or n.startswith("_"):
                    continue
                if inspect.isfunction(o) and n not in ("renderScene", "renderSceneB"):  # those fill what they are given
                    self._set(m, n, self.wrap(o, n))
                elif inspect.isclass(o):
                    self._class(o, n)
        return self

    def _class(self, c, cn):
        t = sys.modules.get("torch")
        if t is not None and issubclass(c, (t.autograd.Function, t.nn.Module)):
            return
        if issubclass(c, BaseException):
            return
        for n, o in list(vars(c).items()):
            if n.startswith("_") and n != "__init__":
                continue
            if inspect.isfunction(o):
                self._set(c, n, self.wrap(o, f"{cn}.{n}"))
            elif isinstance(o, staticmethod):
                self._set(c, n, staticmethod(self.wrap(o.__func__, f"{cn}.{n}")))
            elif isinstance(o, property) and o.fget is not None:
                self._set(c, n, property(self.wrap(o.fget, f"{cn}.{n}"), o.fset, o.fdel))

    def _set(self, owner, n, v):
        self.patched.append((owner, n, owner.__dict__[n] if inspect.isclass(owner) else getattr(owner, n)))
        setattr(owner, n, v)

    def __exit__(self, *a):
        for owner, n, v in reversed(self.patched):
            setattr(owner, n, v)
        self.patched = []
        return False

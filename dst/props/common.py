"""Shared pieces of the property modules."""
import decimal
import gc
import locale
import os
import sys

from .. import actors, forks, gen, sched
from ..cmp import diff, snap
from ..engine import list_drops

REAL = ["deodr Python package", "native engine built from /repo's working tree", "numpy", "scipy"]


def solo(kind, spec, ops):
    """Runs a program on fresh objects; the outcomes of all its operations."""
    a = actors.KINDS[kind](spec)
    return [actors.attempt(a, op) for op in ops]


def reference(fn, *args):
    """A reference execution in a pristine process. ('ok', value) or ('dead', how)."""
    try:
        return ["ok", forks.call(fn, *args)]
    except forks.ChildDied as e:
        return ["dead", e.how()]


def mismatch(got, exp, what, rtol=1e-9):
    """None, or a violation, comparing two outcomes ['ok', obs] / ['raise', type]."""
    if got[0] != exp[0]:
        return {"sig": "outcome-differs:" + what.split()[0],
                "msg": f"{what} {'raised ' + str(got[1]) if got[0] == 'raise' else 'completed'}, expected "
                       f"{'to raise ' + str(exp[1]) if exp[0] == 'raise' else 'to complete'}"}
    if got[0] == "ok":
        d = diff(got[1], exp[1], rtol)
        if d:
            return {"sig": "result-differs:" + what.split()[0], "msg": f"{what}: {d}"}
    return None


class NativeFault:
    """Seam at the boundary of the native engine: the n-th call to fn raises, before or after doing its work."""

    def __init__(self, fails, exc="MemoryError"):
        # fails: {call index: "before"|"after"}
        self.fails = dict(fails)
        self.n = 0
        self.fired = 0
        self.exc = {"MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt,
                    "RuntimeError": RuntimeError}[exc]

    def __enter__(self):
        import deodr.differentiable_renderer_cython as c
        self.c = c
        self.saved = (c.renderSceneCpp, c.renderSceneBCpp)

        def wrap(f):
            def g(*a, **k):
                i = self.n
                self.n += 1
                m = self.fails.get(i)
                if m == "before":
                    self.fired += 1
                    raise self.exc("injected")
                r = f(*a, **k)
                if m == "after":
                    self.fired += 1
                    raise self.exc("injected")
                return r
            return g

        c.renderSceneCpp, c.renderSceneBCpp = wrap(self.saved[0]), wrap(self.saved[1])
        return self

    def __exit__(self, *a):
        self.c.renderSceneCpp, self.c.renderSceneBCpp = self.saved
        return False


class WorldActor:
    """A mesh, scenes and views of the PyTorch half of the package."""

    def __init__(self, spec, shared=None):
        from .c03 import World
        self.w = World(spec)

    def do(self, op):
        if op[0] == "set":
            return self.w.config(op)
        if op[0] == "render":
            return {"image": snap(self.w.render(op))}
        return self.w.grad(op)


class AmbientActor:
    """A client that uses no deodr object, only what the process shares: other clients must not be noticed."""

    def __init__(self, spec, shared=None):
        import numpy as np
        self.r = np.random.RandomState(spec["seed"])
        # random state and working directory belong to this client for the whole run
        np.random.seed(spec["seed"] % 2**32)
        if "torch" in sys.modules:
            sys.modules["torch"].manual_seed(spec["seed"])

    def do(self, op):
        import numpy as np
        out = []
        for _ in range(op[1]):
            sched.pause(3)
            out.append([np.random.uniform(), os.getcwd(), sorted(np.geterr().items()), np.get_printoptions()["precision"],
                        os.environ.get("OMP_NUM_THREADS"), np.getbufsize(), len(sys.path), locale.setlocale(locale.LC_ALL),
                        sys.getrecursionlimit(), gc.isenabled(), str(decimal.getcontext()), umask()])
            if "torch" in sys.modules:
                t = sys.modules["torch"]
                out[-1] += [str(t.get_default_dtype()), t.is_grad_enabled(), t.get_num_threads(), t.is_anomaly_enabled(),
                            t.are_deterministic_algorithms_enabled(), float(t.rand(())) if _ % 2 else 0.0]
        return [repr(x) for x in out]


def umask():
    u = os.umask(0o22)
    os.umask(u)
    return u


actors.KINDS["ambient"] = AmbientActor
actors.KINDS["world"] = WorldActor
actors.KINDS["torchfit"] = actors.FitterActor


class Base:
    TIME_UNIT = "operations executed in the simulated process"
    ASSUMPTIONS = ["the reference is the same code on fresh objects in a process that has done nothing else, so a "
                   "defect that does not depend on history, schedule or faults is out of scope",
                   "results are compared with a relative tolerance of 1e-9 unless stated otherwise"]
    COMPONENTS = {"real": REAL, "stub": []}

    def reduce(self, plan):
        """Generic: drop operations and faults."""
        for k in ("faults", "preempt"):
            if plan.get(k):
                for f in list_drops(plan[k]):
                    yield {**plan, k: f}
        if plan.get("ops"):
            for ops in list_drops(plan["ops"]):
                if ops:
                    yield {**plan, "ops": ops}


def small_specs(kind, s):
    """Simpler variants of an actor spec."""
    if kind == "scene3d":
        cand = ({"mesh2": None} if s.get("mesh2") else {}, {"sigma": 0}, {"pc": False}, {"ipc": True}, {"cams": s["cams"][:1]}, {"light": None},
                {"mesh": {**s["mesh"], "kind": "tetra"}}, {"mesh": {**s["mesh"], "nb_colors": 1}},
                {"cams": [{**c, "w": min(c["w"], 6), "h": min(c["h"], 6), "dist": False} for c in s["cams"]]})
    elif kind in ("mesh", "energy"):
        cand = ({"mesh": {**s["mesh"], "kind": "tetra"}}, {"mesh": {**s["mesh"], "clockwise": False}}, {"lazy": False})
    elif kind == "camera":
        cand = ({"mesh": {**s["mesh"], "kind": "tetra"}}, {"cams": s["cams"][:1]},
                {"cams": [{**c, "dist": False} for c in s["cams"]]})
    elif kind == "ambient":
        cand = ()
    elif kind == "io":
        cand = ({"mesh": {**s["mesh"], "kind": "tetra"}}, {"cams": s["cams"][:1]}, {"cams": []})
    elif kind == "world":
        cand = ({"scenes": s["scenes"][:1]}, {"cams": s["cams"][:1]}, {"mesh": {**s["mesh"], "kind": "tetra"}})
    elif kind in ("fitter", "torchfit"):
        cand = ({"mesh": "tetra"}, {"w": 6}, {"h": 6}, {"frames": 1}, {"dist": False})
    else:
        cand = ({"nf": 1}, {"nf": max(1, s["nf"] // 2)}, {"h": 4}, {"w": 4}, {"c": 1}, {"textured": False})
    for ch in cand:
        n = {**s, **ch}
        if n != s:
            yield n


def gen_client(rng, n, kinds=("scene2d", "scene3d", "fitter")):
    k = rng.choice(kinds)
    if k == "scene2d":
        return {"kind": k, "spec": gen.scene2d_spec(rng), "ops": actors.gen_scene2d_ops(rng, n)}
    if k == "scene3d":
        s = actors.scene3d_spec(rng)
        return {"kind": k, "spec": s, "ops": actors.gen_scene3d_ops(rng, n, s)}
    if k == "mesh":
        s = {"mesh": gen.mesh_spec(rng, loose=True), "lazy": rng.random() < 0.5}
        return {"kind": k, "spec": s, "ops": actors.gen_mesh_ops(rng, n, s)}
    if k == "camera":
        return {"kind": k, "spec": actors.camera_actor_spec(rng), "ops": actors.gen_camera_ops(rng, n)}
    if k == "energy":
        s = {"mesh": gen.mesh_spec(rng, textured=False), "cregu": float(rng.choice([1, 50, 2000]))}
        return {"kind": k, "spec": s, "ops": [["eval", rng.randrange(10**6)] for _ in range(n)]}
    if k == "io":
        s = {"mesh": gen.mesh_spec(rng, textured=False), "cams": [gen.camera_spec(rng) for _ in range(rng.randrange(3))],
             "name": f"d{rng.randrange(10**9)}"}
        ops = [["save", rng.randrange(10**6), 0]]
        for _ in range(n):
            ops.append(rng.choice([["save", rng.randrange(10**6), rng.randrange(2)], ["load", 0, rng.randrange(2)],
                                   ["export", rng.randrange(10**6)]]))
        return {"kind": k, "spec": s, "ops": ops}
    if k == "convert":
        s = {"mesh": gen.mesh_spec(rng, textured=False, loose=True)}
        ops = [["from", rng.randrange(10**6), rng.choice(["texture", "vertex"])]]
        for _ in range(n - 1):
            ops.append(rng.choice([["from", rng.randrange(10**6), rng.choice(["texture", "vertex", "face"])], ["to"],
                                   ["sub", 1], ["adj", rng.randrange(10**6)]]))
        return {"kind": k, "spec": s, "ops": ops}
    if k == "ambient":
        return {"kind": k, "spec": {"seed": rng.randrange(10**6)}, "ops": [["look", rng.randrange(5, 40)] for _ in range(n)]}
    if k == "world":
        from .c03 import PROP, hands_off
        p = PROP.gen(rng, "quick")
        ops = [o for o in hands_off(p["ops"]) if o[0] in ("render", "set", "grad")][: n + 3]
        return {"kind": k, "spec": p["spec"], "ops": ops}
    s = actors.fitter_spec(rng, actors.TORCH_FITS) if k == "torchfit" else actors.fitter_spec(rng)
    ops = []
    for _ in range(max(1, n // 2)):
        ops.append(rng.choice([["step"], ["step"], ["step"], ["reset"], ["image", rng.randrange(10**6)],
                               ["view", rng.randrange(10**6)]]))
    return {"kind": k, "spec": s, "ops": ops}


class Scratch:
    """A private directory, removed afterwards, with a directory for temporary files of its own beside it."""

    def __enter__(self):
        import os
        import tempfile
        self.top = tempfile.mkdtemp(prefix="dst-")
        self.path = os.path.join(self.top, "d")
        self.tmp = os.path.join(self.top, "tmp")
        os.mkdir(self.path)
        os.mkdir(self.tmp)
        self.old = os.environ.get("TMPDIR"), tempfile.tempdir
        os.environ["TMPDIR"] = tempfile.tempdir = self.tmp
        return self.path

    def __exit__(self, *a):
        import os
        import shutil
        import tempfile
        os.environ.pop("TMPDIR")
        if self.old[0] is not None:
            os.environ["TMPDIR"] = self.old[0]
        tempfile.tempdir = self.old[1]
        shutil.rmtree(self.top, ignore_errors=True)
        return False

"""C13: results do not depend on what memory happens to contain or where it lies."""
import ctypes

from .. import actors, gen, shim
from ..engine import digest, list_drops, outcome
from . import fitlib
from .c12 import _gen
from ..cmp import snap
from .common import Base, gen_client, mismatch, reference, small_specs

TORCH_KINDS = ("world", "world", "torchfit", "torchmesh")
KINDS = ("scene2d", "scene2d", "scene3d", "scene3d", "fitter", "mesh", "energy", "camera", "convert")
BYTES = (0x00, 0x01, 0x3F, 0x40, 0x7F, 0x80, 0xBF, 0xC1, 0xFF)


def _make(kind):
    return {"torchmesh": TorchMeshActor}.get(kind) or actors.KINDS[kind]


class TorchMeshActor:
    """A mesh and a rigidity energy of the PyTorch half of the package."""

    def __init__(self, spec, shared=None):
        import torch
        from deodr.pytorch.laplacian_rigid_energy_pytorch import LaplacianRigidEnergyPytorch
        from deodr.pytorch.triangulated_mesh_pytorch import ColoredTriMeshPytorch
        self.m = spec["mesh"]
        a = gen.mesh_arrays(self.m)
        v = torch.tensor(a["vertices"])
        self.mesh = ColoredTriMeshPytorch(a["faces"], v, colors=torch.tensor(a["colors"]), clockwise=a["clockwise"])
        self.energy = LaplacianRigidEnergyPytorch(self.mesh, v, spec["cregu"])

    def do(self, op):
        import torch
        v = torch.tensor(gen.vertices_for(self.m, op[1]), requires_grad=True)
        if op[0] == "eval":
            r = self.energy.evaluate(v)[0]
        else:
            self.mesh.set_vertices(v)
            n = self.mesh.vertex_normals if op[0] == "vn" else self.mesh.face_normals
            r = (n * torch.tensor(gen.rs(op[1]).uniform(-1, 1, n.shape))).sum()
        r.backward()
        return {"r": snap(r), "g": snap(v.grad)}


def _gen_torch(rng, n, kind):
    if kind == "torchmesh":
        s = {"mesh": gen.mesh_spec(rng, textured=False), "cregu": float(rng.choice([1, 50]))}
        return {"kind": kind, "spec": s, "ops": [[rng.choice(["vn", "fn", "eval"]), rng.randrange(10**6)] for _ in range(n)]}
    return gen_client(rng, n, (kind,))


def _run(client, envs, scratch=None):
    """The program in a process whose unspecified memory holds given patterns. (outcomes, counters)"""
    kind = client["kind"]
    L = shim.lib()
    out, cnt = [], {"malloc": 0, "new": 0}
    pads = []
    if envs:
        import numpy as np
        if envs["small"] is not None:
            shim.numpy_allocator()
        pads = [np.full(n, 0x5A, dtype=np.uint8) for n in envs["pads"]]  # held: every later block lies elsewhere
        if envs.get("before"):
            a = _make(envs["before"]["kind"])(envs["before"]["spec"])
            for op in envs["before"]["ops"]:
                actors.attempt(a, op)
            del a
    a = None
    for i, op in enumerate([None] + client["ops"]):
        if not envs:
            if a is None:
                a = _make(kind)(client["spec"])
            else:
                out.append(actors.attempt(a, op))
            continue
        b = envs["bytes"]
        if envs["small"] is not None:
            shim.put("shim_np_poison", b[(i + envs["small"]) % len(b)])
        if envs["free"]:
            shim.put("shim_free_poison", b[(i + 1) % len(b)])
        m = shim.MalFault(-1, 0, 1, b[i % len(b)])
        n = shim.NewFault(-1, 0, b[(i + 2) % len(b)])
        with m, n:
            L.shim_poison_stack(b[i % len(b)], ctypes.c_long(envs["stack"]))
            if a is None:
                a = _make(kind)(client["spec"])
            else:
                out.append(actors.attempt(a, op))
        shim.put("shim_free_poison", -1)
        shim.put("shim_np_poison", -1)
        cnt["malloc"] += m.count
        cnt["new"] += n.count
    del pads
    cnt["arrays"] = shim.get("shim_np_count")
    return out, cnt


class Prop(Base):
    ID = "C13"
    SHIM = True
    QUICK_RUNS = 2500
    QUICK_WALL = 100
    LATE_RUNS = (120, 250)  # per thousand, with PyTorch
    THOROUGH_RUNS = 40000
    RULE = ("a run is one seeded program (2D or 3D scene, fitter, mesh, energy, camera, conversion, and PyTorch scenes, fitters, meshes and energies) executed in 2-3 "
            "simulated processes whose fresh and freed heap memory, arrays and stack hold different byte "
            "patterns and whose blocks lie at different addresses, one of them after an unrelated program; all outcomes "
            "are compared with those in an unprepared process. Non-trivial: more than 50 poisoned allocations.")
    STATE_MEASURE = "distinct programs (operation kinds, outcomes, patterns)"
    TIME_UNIT = "operations executed in simulated processes"
    COMPONENTS = {"real": Base.COMPONENTS["real"],
                  "stub": ["contents of fresh and freed memory (preloaded malloc, operator new and free)",
                           "contents of the unused stack", "contents of fresh arrays of any size (an allocator of our own below numpy)"]}
    ASSUMPTIONS = ["memory from mmap and from the interpreter's own arenas is not filled with patterns",
                   "arrays start on 64-byte boundaries in every simulated process, so that sums are taken in one order; "
                   "outcomes are compared with a relative tolerance of 1e-9"]

    def setup(self):
        shim.prepare()
        shim.lib().shim_poison_stack
        shim.get("shim_free_poison")

    def gen(self, rng, tier):
        c = _gen(rng, rng.randrange(2, 7), rng.choice(KINDS))
        while c["kind"] == "fitter" and c["spec"]["fit"] not in fitlib.NP:
            c = _gen(rng, rng.randrange(2, 7), "fitter")
        return self._plan(rng, c)

    def gen_torch(self, rng, tier):
        return {**self._plan(rng, _gen_torch(rng, rng.randrange(2, 6), rng.choice(TORCH_KINDS))), "torch": True}

    def _plan(self, rng, c):
        envs = []
        for _ in range(rng.choice([1, 2, 2])):
            k = rng.choice(["scene2d", "scene3d", "mesh"])
            before = _gen(rng, rng.randrange(1, 4), k) if rng.random() < 0.4 else None
            envs.append({"bytes": rng.sample(BYTES, rng.randrange(1, 4)),
                         "small": rng.choice([None, 0, 1, 2]), "free": rng.random() < 0.6,
                         "stack": rng.choice([4096, 65536, 1 << 20]),
                         "pads": [rng.choice([16, 24, 100, 1000, 5000, 70000]) for _ in range(rng.randrange(12))],
                         "before": before})
        return {"client": c, "envs": envs}

    def execute(self, plan):
        c = plan["client"]
        stats = {"sim_steps": len(c["ops"]) * (1 + len(plan["envs"]))}
        r = reference(_run, c, None)
        if r[0] == "dead":
            return outcome({"sig": "process-died", "msg": f"{c['kind']} in an unprepared process: process {r[1]}"}, stats)
        exp = r[1][0]
        hist = [c["kind"]] + [o[0] + ("+" if e[0] == "ok" else "-") for o, e in zip(c["ops"], exp)]
        tot = 0
        for k, e in enumerate(plan["envs"]):
            r = reference(_run, c, e)
            if r[0] == "dead":
                return outcome({"sig": "process-died", "msg": f"{c['kind']} in simulated process {k}: process {r[1]}"}, stats)
            got, cnt = r[1]
            for n, on in (("poisoned_malloc", cnt["malloc"]), ("poisoned_operator_new", cnt["new"]),
                          ("poisoned_arrays", cnt["arrays"]), ("poisoned_free", e["free"]),
                          ("poisoned_stack", 1), ("moved_addresses", bool(e["pads"])),
                          ("used_heap", e["before"] is not None)):
                stats["fault:" + n] = stats.get("fault:" + n, 0) + int(on)
            tot += cnt["malloc"] + cnt["new"]
            for i, (g, x) in enumerate(zip(got, exp)):
                m = mismatch(g, x, f"{c['ops'][i][0]} (operation {i} of a {c['kind']}, memory holding "
                             f"{[hex(b) for b in e['bytes']]}, compared with an unprepared process)")
                if m:
                    return outcome(m, stats, " ".join(hist), True, digest([exp, hist]))
            hist.append("/" + ",".join(hex(b) for b in e["bytes"]))
        return outcome(None, stats, " ".join(hist), tot > 50, digest([exp, hist]))

    def reduce(self, plan):
        for e in list_drops(plan["envs"]):
            if e:
                yield {**plan, "envs": e}
        c = plan["client"]
        for ops in list_drops(c["ops"]):
            if ops:
                yield {**plan, "client": {**c, "ops": ops}}
        if len(plan["envs"]) == 1:
            e = plan["envs"][0]
            for ch in ({"before": None}, {"pads": []}, {"small": None}, {"free": False}, {"bytes": e["bytes"][:1]},
                       {"stack": 4096}):
                if {**e, **ch} != e:
                    yield {**plan, "envs": [{**e, **ch}]}
        if c["kind"] not in ("convert", "torchmesh"):
            for s in small_specs(c["kind"], c["spec"]):
                yield {**plan, "client": {**c, "spec": s}}


PROP = Prop()

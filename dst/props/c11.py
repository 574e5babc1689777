"""C11: lazily computed mesh quantities always describe the current mesh."""
import numpy as np

from .. import gen
from ..actors import attempt
from ..cmp import snap
from ..engine import digest, list_drops, outcome
from ..faults import LineFault
from .common import Base, mismatch, reference

QUERY = ("fn", "vn", "vol", "sil", "vnb", "adj", "subdiv", "trimesh", "render", "grad")


def vertices(m, op):
    """Vertices of a mesh after a verts/mirror operation (None: as built)."""
    if op is None:
        return gen.vertices_for(m)
    v = gen.vertices_for(m, op[1])
    return np.ascontiguousarray(v * [-1.0, 1.0, 1.0]) if op[0] == "mirror" else v


class Mesh:
    """One mesh, built eagerly or lazily, NumPy or PyTorch."""

    def __init__(self, m, how, v=None, colors=None, arrays=None):
        self.m, self.how = m, how
        a = dict(arrays or gen.mesh_arrays(m))
        if v is not None:
            a["vertices"] = v
        if colors is not None:
            a["colors"] = colors
        if how == "torch":
            import torch
            from deodr.pytorch import ColoredTriMeshPytorch
            self.leaf = torch.tensor(a["vertices"], requires_grad=True)
            a["vertices"] = self.leaf
            self.mesh = ColoredTriMeshPytorch(**a)
        else:
            from deodr.triangulated_mesh import ColoredTriMesh
            self.mesh = ColoredTriMesh(compute_adjacencies=how == "eager", **a)
        self.scene = None
        self.own = None  # the array of this mesh alone, that the client may write into

    def set(self, v, in_place=False):
        if in_place and self.own is not None and self.mesh.vertices is self.own and self.own.shape == v.shape:
            # the client writes into its own array and hands it over again
            if self.how == "torch":
                import torch
                with torch.no_grad():
                    self.own.copy_(torch.tensor(v))
            else:
                self.own[...] = v
            self.mesh.set_vertices(self.own)
            return
        if self.how == "torch":
            import torch
            v = self.leaf = torch.tensor(v, requires_grad=True)
        self.own = v if in_place is not None else None
        self.mesh.set_vertices(v)

    def do(self, op):
        m, k = self.mesh, op[0]
        if k == "fn":
            return snap(m.face_normals)
        if k == "vn":
            return snap(m.vertex_normals)
        if k == "vol":
            return float(m.compute_volume())
        if k == "sil":
            p = m.vertices.detach().numpy() if self.how == "torch" else m.vertices
            p = p.dot(gen.rotation(gen.rs(op[1])).T)[:, :2]
            if self.how == "torch":
                import torch
                p = torch.tensor(p)
            return snap(np.asarray(m.edge_on_silhouette(p)))
        if k == "vnb":
            before = snap(m._vertices_b)
            m.compute_vertex_normals_backward(gen.rs(op[1]).uniform(-1, 1, (m.nb_vertices, 3)))
            total = snap(m._vertices_b)
            return {"added": total - before, "total": total}  # since the vertices were set
        if k == "adj":
            a = m.adjacencies
            return {"e": snap(a.edges), "c": bool(a.is_closed), "m": bool(a.is_manifold), "l": snap(a.laplacian),
                    "d": snap(a.degree_v_e), "b": bool(a.hasBoundaries), "be": snap(a.boundary_edges()),
                    "fe": snap(np.asarray(a.faces_edges)), "cw": bool(a.clockwise)}
        if k == "subdiv":
            s = m.subdivise(op[1])
            if s is m:
                return {"v": snap(s.vertices), "f": snap(np.asarray(s.faces)), "n": None}
            return {"v": snap(s.vertices), "f": snap(np.asarray(s.faces)), "n": snap(s.vertex_normals),
                    "cw": bool(s.clockwise), "c": snap(s.vertices_colors)}
        if k == "trimesh":
            t = m.to_trimesh()
            return {"v": snap(np.asarray(t.vertices)), "f": snap(np.asarray(t.faces)),
                    "uv": snap(np.asarray(t.visual.uv))}
        if k == "render":
            from deodr.differentiable_renderer import Scene3D
            if self.scene is None:
                sc = Scene3D(sigma=1.0)
                sc.set_mesh(m)
                sc.set_background_color(np.full(self.m["nb_colors"], 0.3))
                self.scene = sc
            r = gen.rs(op[1])
            self.scene.set_light(r.uniform(-0.6, 0.6, 3) if op[2] else None, 0.4)
            cam = gen.make_camera({"seed": op[1], "w": 14, "h": 11}, gen.vertices_for(self.m))
            return snap(self.scene.render(cam))
        if k == "grad":
            import torch
            w = torch.tensor(gen.rs(op[1]).uniform(-1, 1, (m.nb_vertices, 3)))
            g, = torch.autograd.grad((m.vertex_normals * w).sum(), [self.leaf], retain_graph=True)
            return snap(g)
        raise KeyError(k)


def _fresh(m, how, vop, colors, op):
    w = Mesh(m, how, vertices(m, vop), None if colors is None else gen.colors_for(m, colors))
    if op[0] == "vnb":
        for seed in op[2]:
            attempt(w, ["vn"])
            attempt(w, ["vnb", seed])
        attempt(w, ["vn"])
    return attempt(w, op)


class Prop(Base):
    ID = "C11"
    TORCH = True
    QUICK_RUNS = 2600
    QUICK_WALL = 150
    THOROUGH_RUNS = 40000
    RULE = ("a run is one seeded history of 6-18 operations on 1-3 meshes (NumPy built with or without adjacencies, "
            "PyTorch; sharing faces and vertex arrays): vertices replaced, refused or wrongly sized vertices, inverted "
            "poses refused on first use, and queries of normals, volume, silhouettes, adjacencies, subdivision, "
            "conversion, rendering and gradients of normals, some interrupted at an arbitrary line; every completed "
            "query is compared with a mesh built anew in a pristine process. Non-trivial: at least two queries were "
            "compared after a change of vertices.")
    STATE_MEASURE = "distinct histories of (mesh, operation, outcome)"
    COMPONENTS = {"real": ["meshes and adjacencies (NumPy and PyTorch)", "renderer", "native engine built from /repo"],
                  "stub": ["asynchronous interrupt delivery (raised by the tracer at a chosen event)"]}

    def gen(self, rng, tier):
        m = gen.mesh_spec(rng, loose=True)
        torch = rng.random() < 0.2
        hows = ["torch" if torch else rng.choice(["eager", "lazy", "lazy"])]
        if torch:
            m.pop("textured", None)
        for _ in range(rng.choice([0, 0, 1, 2])):
            hows.append("torch" if torch and rng.random() < 0.5 else rng.choice(["eager", "lazy"]))
        tex = m.get("textured")
        closed = m["kind"] in gen.CLOSED
        ops, used, broken = [], set(), {}
        while len(ops) < rng.randrange(6, 19):
            k = rng.randrange(len(hows))
            t = hows[k] == "torch"
            if broken.get(k) and rng.random() < 0.5:
                ops.append([k, "verts", rng.randrange(10**6)])
                broken[k] = None
                continue
            x = rng.random()
            if x < 0.3:
                y = rng.random()
                if y < 0.12:
                    ops.append([k, "refused", rng.choice(["1d", "2cols", "4cols"])])
                elif y < 0.2:
                    ops.append([k, "rows"])
                    broken[k] = "rows"
                elif y < 0.35 and hows[k] == "lazy" and closed and k not in used:
                    ops.append([k, "mirror", rng.randrange(10**6)])
                    broken[k] = "mirror"
                elif y < 0.45 and len(hows) > 1 and not t:
                    j = rng.randrange(len(hows))
                    if hows[j] != "torch" and not broken.get(j):
                        ops.append([k, "share", j])
                        broken[k] = None
                else:
                    ops.append([k, "verts", rng.randrange(10**6), rng.random() < 0.4])
                    broken[k] = None
                continue
            if x < 0.33:
                ops.append([k, "reuse"])
                continue
            if x < 0.39 and not tex and not t:
                ops.append([k, "colors", rng.randrange(10**6)])
                continue
            q = rng.choice(["fn", "vn", "vol", "sil", "grad"] if t else
                           ["fn", "vn", "vn", "vol", "sil", "vnb", "vnb", "adj", "subdiv", "render"] +
                           (["trimesh"] if tex else []))
            if q == "subdiv" and (rng.random() < 0.6 or tex):
                q = "vol"
            if broken.get(k) == "mirror" and q in ("trimesh", "subdiv"):
                q = "fn"
            if broken.get(k) != "rows" and not (broken.get(k) == "mirror") and q not in ("trimesh",):
                used.add(k)
            op = [k, q]
            if q in ("sil", "vnb", "grad"):
                op.append(rng.randrange(10**6))
            elif q == "render":
                op += [rng.randrange(10**6), rng.randrange(2)]
            elif q == "subdiv":
                op.append(rng.choice([1, 1, 2]))
            ops.append(op)
        faults = []
        if rng.random() < 0.5:
            for _ in range(rng.randrange(1, 4)):
                faults.append([rng.randrange(len(ops)), rng.choice([rng.randrange(8), rng.randrange(60)]),
                               rng.choice(["KeyboardInterrupt", "MemoryError"])])
        return {"mesh": m, "hows": hows, "ops": ops, "faults": faults}

    def execute(self, plan):
        m, hows, ops = plan["mesh"], plan["hows"], plan["ops"]
        fa = {f[0]: f for f in plan["faults"]}
        stats = {"sim_steps": len(ops)}
        # the vertices and colours every query must be about; the scene of a render has no other state
        state = [{"v": None, "c": None, "broken": False, "vnb": []} for _ in hows]
        exp = {}
        for i, (k, *op) in enumerate(ops):
            s = state[k]
            if op[0] in ("verts", "mirror", "rows", "share"):
                s["vnb"] = []
            if op[0] == "vnb":
                op.append(list(s["vnb"]))
                s["vnb"].append(op[1])
            if op[0] in ("verts", "mirror"):
                s["v"], s["broken"] = op, False
            elif op[0] == "rows":
                s["broken"] = True
            elif op[0] == "share":
                s["v"], s["broken"] = state[op[1]]["v"], state[op[1]]["broken"]
            elif op[0] == "colors":
                s["c"] = op[1]
            elif op[0] in QUERY and not s["broken"]:
                r = reference(_fresh, m, hows[k], s["v"], s["c"], op)
                if r[0] == "dead":
                    return outcome({"sig": "process-died", "msg": f"{op} on a new mesh: process {r[1]}"}, stats)
                exp[i] = r[1]
        shared = gen.mesh_arrays(m)
        ws = [Mesh(m, h, arrays=shared) for h in hows]
        fresh = [False] * len(ws)
        key, seen, compared, moved = [str(hows)], [], 0, False
        for i, (k, *op) in enumerate(ops):
            w = ws[k]
            key.append(f"{k}{op[0]}")
            if op[0] in ("verts", "mirror"):
                w.set(vertices(m, op), len(op) > 2 and op[2])
                fresh[k], moved = False, True
                continue
            if op[0] == "share":
                w.mesh.set_vertices(ws[op[1]].mesh.vertices)
                w.own = ws[op[1]].own = None
                fresh[k], moved = False, True
                continue
            if op[0] == "reuse":
                # the client puts its array of faces to another use
                shared["faces"][...] = 0
                continue
            if op[0] == "rows":
                v = vertices(m, None)[:-1]
                try:
                    w.set(v)
                except Exception:  # refusing them at once is fine too
                    pass
                fresh[k] = False
                stats["fault:wrong_size"] = stats.get("fault:wrong_size", 0) + 1
                continue
            if op[0] == "refused":
                v = vertices(m, None)
                v = v.ravel() if op[1] == "1d" else v[:, :2] if op[1] == "2cols" else np.column_stack((v, v[:, :1]))
                try:
                    w.set(v)
                except AssertionError:
                    if w.how == "torch":
                        w.leaf = w.mesh.vertices
                    stats["fault:refused_vertices"] = stats.get("fault:refused_vertices", 0) + 1
                    continue
                return outcome({"sig": "accepted", "msg": f"operation {i}: vertices of shape {v.shape} were accepted"},
                               stats, " ".join(key), True, digest(seen))
            if op[0] == "colors":
                w.mesh.set_vertices_colors(gen.colors_for(m, op[1]))
                continue
            if i in fa and op[0] != "vnb":
                lf = LineFault(fa[i][1], fa[i][2])
                with lf:
                    try:
                        r = attempt(w, op)
                    except KeyboardInterrupt:
                        r = None
                if lf.fired:
                    stats["fault:" + fa[i][2]] = stats.get("fault:" + fa[i][2], 0) + 1
                    key.append("!")
                    fresh[k] = False
                    continue
            else:
                if op[0] == "vnb" and not fresh[k]:
                    attempt(w, ["vn"])
                r = attempt(w, op)
            if op[0] == "vn" or op[0] == "vnb":
                fresh[k] = r[0] == "ok"
            if i not in exp:
                continue
            seen.append(r)
            key.append("+" if r[0] == "ok" else "-")
            v = mismatch(r, exp[i], f"{op[0]} (operation {i}) of mesh {k} ({hows[k]})")
            if v:
                return outcome(v, stats, " ".join(key), True, digest(seen))
            compared += moved
        stats["compared"] = compared
        stats["probe:refused_orientation"] = sum(1 for k in key if k == "-")
        return outcome(None, stats, " ".join(key), compared >= 2, digest([seen, key]))

    def reduce(self, plan):
        for f in list_drops(plan["faults"]):
            yield {**plan, "faults": f}
        for i in reversed(range(len(plan["ops"]))):
            ops = plan["ops"][:i] + plan["ops"][i + 1:]
            if ops:
                yield {**plan, "ops": ops, "faults": [[f[0] - (f[0] > i)] + f[1:] for f in plan["faults"] if f[0] != i]}
        m = plan["mesh"]
        if not m.get("textured") and m["kind"] != "tetra":
            yield {**plan, "mesh": {**m, "kind": "tetra"}}
        if m["nb_colors"] != 1:
            yield {**plan, "mesh": {**m, "nb_colors": 1}}


PROP = Prop()

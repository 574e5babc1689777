"""C03: with PyTorch, the gradient of a rendered view depends only on that view."""
import numpy as np

from .. import gen
from ..actors import move_camera, poses_of
from ..cmp import diff, snap
from ..engine import digest, list_drops, outcome
from .common import Base, NativeFault, reference

LEAVES = ("verts", "colors", "light", "amb")


class World:
    """One mesh, one or two scenes, and the views rendered so far."""

    def __init__(self, spec):
        import torch
        from deodr.pytorch import CameraPytorch, ColoredTriMeshPytorch, Scene3DPytorch
        self.t = torch
        self.spec = spec
        self.m = spec["mesh"]
        a = gen.mesh_arrays(self.m)
        self.leaf = {}
        self.new_leaf("verts", torch.tensor(a["vertices"]))
        self.new_leaf("colors", torch.tensor(a["colors"]))
        r = gen.rs(self.m["seed"] + 3)
        self.new_leaf("light", torch.tensor(r.uniform(-0.6, 0.6, 3)))
        self.new_leaf("amb", torch.tensor(r.uniform(0.1, 0.5), dtype=torch.float64))
        self.mesh = ColoredTriMeshPytorch(a["faces"], self.leaf["verts"][1], clockwise=a["clockwise"],
                                          colors=self.leaf["colors"][1])
        ref = gen.vertices_for(self.m)
        self.cams = []
        for c in spec["cams"]:
            k = gen.make_camera(c, ref)
            self.cams.append(CameraPytorch(k.extrinsic, k.intrinsic, k.height, k.width, k.distortion))
        self.poses = poses_of(self.cams)
        self.scenes = []
        for s in spec["scenes"]:
            sc = Scene3DPytorch()
            sc.sigma = s["sigma"]
            sc.integer_pixel_centers = s["ipc"]
            sc.set_mesh(self.mesh)
            self.scenes.append(sc)
            self.bg(len(self.scenes) - 1, s["bg"])
        self.slots = {}
        self.factor = {}
        self.gone = set()  # views whose gradient can no longer be asked for
        self.hand_over()

    def new_leaf(self, name, value):
        # the leaf itself and a cheap function of it, so that a graph exists below the renderer as well
        v = value.clone().requires_grad_(True)
        self.leaf[name] = (v, v if self.spec.get("use") == "direct" else v + 0.0)

    def in_place(self, name, value):
        """What an optimizer does: the same leaf with another value."""
        v = self.leaf[name][0]
        with self.t.no_grad():
            v.copy_(value)
        self.leaf[name] = (v, v if self.spec.get("use") == "direct" else v + 0.0)
        if self.spec.get("use") == "direct":
            self.gone.update(self.slots)

    def hand_over(self):
        """Gives the current parameters to the mesh and to the scenes."""
        if self.spec.get("use") == "fresh":
            self.leaf = {n: (v[0], v[0] + 0.0) for n, v in self.leaf.items()}
        self.mesh.set_vertices(self.leaf["verts"][1])
        self.mesh.set_vertices_colors(self.leaf["colors"][1])
        for sc in self.scenes:
            sc.set_light(self.leaf["light"][1], self.leaf["amb"][1])

    def bg(self, k, seed):
        r = gen.rs(seed)
        nb = self.m["nb_colors"]
        if seed % 3 == 0:
            c = self.cams[0]
            self.scenes[k].set_background_image(r.uniform(0, 1, (c.height, c.width, nb)))
        else:
            self.scenes[k].set_background_color(r.uniform(0, 1, nb))

    def config(self, op):
        k, t = op[1], self.t
        put = self.new_leaf
        if k[0] == "=":
            k, put = k[1:], self.in_place
        if k == "verts":
            put("verts", t.tensor(gen.vertices_for(self.m, op[2])))
        elif k == "colors":
            put("colors", t.tensor(gen.colors_for(self.m, op[2])))
        elif k == "light":
            r = gen.rs(op[2])
            put("light", t.tensor(r.uniform(-0.6, 0.6, 3)))
            put("amb", t.tensor(r.uniform(0.1, 0.5), dtype=t.float64))
        elif k == "sigma":
            self.scenes[op[3] % len(self.scenes)].sigma = [0, 0.7, 1.0, 2.0][op[2] % 4]
        elif k == "bg":
            self.bg(op[3] % len(self.scenes), op[2])
        elif k == "cam":
            move_camera(self.cams, self.poses, op[1:])  # the graph of an earlier view keeps the pose it was drawn from
        elif k == "look":
            with t.no_grad():
                return snap(self.mesh.vertex_normals if op[2] % 2 else self.mesh.face_normals)
        if not self.spec.get("always", True):
            self.hand_over()

    def render(self, op):
        # op: ["render", slot, scene, cam, depth, preview]
        sc = self.scenes[op[2] % len(self.scenes)]
        cam = self.cams[op[3] % len(self.cams)]
        if self.spec.get("always", True):
            self.hand_over()
        preview = len(op) > 5 and op[5]
        with self.t.set_grad_enabled(not preview):
            im = sc.render_depth(cam, depth_scale=1.5) if op[4] else sc.render(cam)
        self.slots[op[1]] = (im, dict(self.leaf), op)
        if preview:
            self.gone.add(op[1])
        return im

    def post(self, op):
        """The client draws on the image it received, or scales it in place as a step of its own computation."""
        im = self.slots[op[1]][0]
        if op[2] == "draw":
            a = im.detach().numpy()
            a[: (len(a) + 1) // 2] = 0.25
        else:
            im.mul_(-0.5)
            self.factor[op[1]] = self.factor.get(op[1], 1.0) * -0.5

    def grad_out(self, shape, seed, mode):
        t = self.t
        if mode == "plain":
            return t.tensor(gen.image_b(seed, shape))
        if mode == "expand":
            return t.tensor(gen.rs(seed).uniform(-1, 1), dtype=t.float64).expand(shape)
        if mode == "transposed":
            return t.tensor(gen.image_b(seed, (shape[1], shape[0], shape[2]))).transpose(0, 1)
        return t.tensor(gen.image_b(seed, tuple(shape) + (2,)))[..., 1]

    def alive(self, slots):
        return [s for s in slots if s in self.slots and s not in self.gone]

    def grad(self, op, retain=None):
        # op: ["grad", slots, seed, mode, how, retain]; gradients by leaf of each slot
        t = self.t
        sl = self.alive(op[1])
        if not sl:
            return {"modified": False, "grads": []}
        leaves, names = [], []
        for s in sl:
            for n in LEAVES:
                lf = self.slots[s][1][n][0]
                if not any(lf is x for x in leaves):
                    leaves.append(lf)
                    names.append(n)
        shared = {}
        gs = []
        for s in sl:
            sh = tuple(self.slots[s][0].shape)
            if sh not in shared:
                shared[sh] = self.grad_out(sh, op[2], op[3])
            gs.append(shared[sh])
        keep = [g.clone() for g in gs]
        how, keep_graph = op[4:6] if len(op) > 5 else ("grad", True)
        keep_graph = keep_graph if retain is None else retain
        if how == "backward":
            for lf in leaves:
                lf.grad = None
            t.autograd.backward([self.slots[s][0] for s in sl], gs, retain_graph=keep_graph)
            out = [None if lf.grad is None else lf.grad.clone() for lf in leaves]
        else:
            out = t.autograd.grad([self.slots[s][0] for s in sl], leaves, gs, retain_graph=keep_graph,
                                  allow_unused=True)
        if not keep_graph:
            self.gone.update(sl)
        for g, k in zip(gs, keep):
            if not t.equal(g, k):
                return {"modified": True}
        res = []
        for lf, n, g in zip(leaves, names, out):
            who = [s for s in sl if self.slots[s][1][n][0] is lf]
            res.append([n, who, None if g is None else snap(g)])
        return {"modified": False, "grads": res}


def hands_off(ops):
    """The same operations by a client that leaves its own arrays alone."""
    return [["set", "cam", o[2] // 2 * 2] + o[3:] if o[:2] == ["set", "cam"] else o for o in ops]


def _ref_render(spec, configs, op, grads):
    w = World(spec)
    for c in configs:
        w.config(c)
    im = w.render(op[:5])
    out = {"image": snap(im), "grads": []}
    for g in grads:
        r = w.grad(["grad", [op[1]]] + g)
        out["grads"].append({n: x for n, _, x in r["grads"]})
    return out


class Prop(Base):
    ID = "C03"
    TORCH = True
    QUICK_RUNS = 2500
    QUICK_WALL = 150
    THOROUGH_RUNS = 20000
    RULE = ("a run is one seeded history of 4-12 operations on one PyTorch mesh and one or two scenes: views rendered "
            "from several cameras, parameters, settings and poses of cameras replaced in between, gradients of single views and of "
            "sums of views taken later, in any order and repeatedly, with the native engine failing in some passes; "
            "every image and gradient is compared with the same view alone in a pristine process. Non-trivial: a "
            "gradient was taken after another view had been rendered.")
    STATE_MEASURE = "distinct histories of (operation kinds, slots, outcomes)"
    COMPONENTS = {"real": ["deodr Python and PyTorch packages", "native engine built from /repo", "torch autograd"],
                  "stub": ["failing native calls: the engine's entry points raise before or after their work"]}
    TIME_UNIT = "operations executed in the simulated process"

    def gen(self, rng, tier):
        nb = rng.choice([1, 1, 2, 3, 3])
        cams = [gen.camera_spec(rng) for _ in range(rng.randrange(1, 4))]
        if rng.random() < 0.8:
            for c in cams:
                c["w"], c["h"] = cams[0]["w"], cams[0]["h"]
        spec = {"mesh": gen.mesh_spec(rng, textured=False, nb_colors=nb), "cams": cams,
                "use": rng.choice(["kept", "kept", "fresh", "direct"]), "always": rng.random() < 0.5,
                "scenes": [{"sigma": rng.choice([0, 0.8, 1.0, 1.5]), "ipc": rng.random() < 0.7,
                            "bg": rng.randrange(10**6)} for _ in range(rng.choice([1, 1, 2]))]}
        same = all((c["w"], c["h"]) == (cams[0]["w"], cams[0]["h"]) for c in cams)
        if spec["use"] == "fresh":
            spec["always"] = True
        for s in spec["scenes"]:
            if (not same or nb == 1) and s["bg"] % 3 == 0:
                s["bg"] += 1
        ops, nslots = [], 0
        n = rng.randrange(4, 13)
        while len(ops) < n:
            x = rng.random()
            if nslots == 0 or x < 0.4:
                sc = rng.randrange(len(spec["scenes"]))
                depth = nb == 1 and rng.random() < 0.5
                ops.append(["render", nslots, sc, rng.randrange(3), int(depth),
                            int(rng.random() < 0.12)])
                nslots += 1
            elif x < 0.44:
                ops.append(["post", rng.randrange(nslots), rng.choice(["draw", "scale"])])
            elif x < 0.63:
                k = rng.choice(["verts", "colors", "light", "sigma", "sigma", "bg", "=verts", "=verts", "=colors",
                                "=light", "look", "cam", "cam"])
                v = rng.randrange(10**6)
                j = rng.randrange(len(spec["cams"] if k == "cam" else spec["scenes"]))
                if k == "bg" and (v % 3 == 0) != (spec["scenes"][j]["bg"] % 3 == 0):
                    v = v // 3 * 3 + (0 if spec["scenes"][j]["bg"] % 3 == 0 else 1)  # colour stays colour
                ops.append(["set", k, v, j])
            else:
                k = rng.randrange(1, min(3, nslots) + 1)
                sl = sorted(rng.sample(range(nslots), k))
                ops.append(["grad", sl, rng.randrange(50), rng.choice(["plain", "plain", "expand", "transposed",
                                                                       "strided"]),
                            rng.choice(["grad", "grad", "backward"]), rng.random() < 0.7])
        if not any(o[0] == "grad" for o in ops):
            ops.append(["grad", [0], rng.randrange(50), "plain", "grad", True])
        faults = []
        for i, o in enumerate(ops):
            if o[0] in ("render", "grad") and rng.random() < 0.12:
                j = rng.randrange(len(o[1])) if o[0] == "grad" else 0
                faults.append([i, j, rng.choice(["before", "after"]), rng.choice(["MemoryError", "RuntimeError"])])
        return {"spec": spec, "ops": ops, "faults": faults}

    def execute(self, plan):
        spec, ops = plan["spec"], plan["ops"]
        stats = {"sim_steps": len(ops)}
        # the reference of every view
        need = {}
        for o in ops:
            if o[0] == "grad":
                for s in o[1]:
                    need.setdefault(s, [])
                    if o[2:4] not in need[s]:
                        need[s].append(o[2:4])
        exp = {}
        conf = []
        for o in ops:
            if o[0] == "set":
                if o[1] != "look":
                    conf.append(o)
            elif o[0] == "render":
                r = reference(_ref_render, spec, conf, o, need.get(o[1], []))
                if r[0] == "dead":
                    return outcome({"sig": "process-died", "msg": f"view {o} alone: process {r[1]}"}, stats)
                exp[o[1]] = r[1]
        w = World(spec)
        fa = {f[0]: f for f in plan["faults"]}
        hist, seen, nt, last = [], [], False, None
        images = {}
        for i, o in enumerate(ops):
            if o[0] == "set":
                w.config(o)
                hist.append("s" + o[1])
                continue
            if o[0] == "post":
                if o[1] in w.slots:
                    w.post(o)
                    images[o[1]] = snap(w.slots[o[1]][0])
                    hist.append("p" + o[2])
                    stats["probe:image_used_by_client"] = stats.get("probe:image_used_by_client", 0) + 1
                continue
            if i in fa:
                _, j, when, exc = fa[i]
                with NativeFault({j: when}, exc) as nf:
                    try:
                        w.render(o) if o[0] == "render" else w.grad(o, True)
                    except (MemoryError, RuntimeError) as e:
                        if "injected" not in str(e):
                            raise
                if nf.fired:
                    stats["fault:native_" + o[0] + "_" + when] = stats.get("fault:native_" + o[0] + "_" + when, 0) + 1
                    hist.append(o[0][0] + "!")
            if o[0] == "render":
                try:
                    im = w.render(o)
                except RuntimeError as e:
                    return outcome({"sig": "view-failed", "msg": f"operation {i} {o} raised {str(e)[:120]}"}, stats,
                                   " ".join(hist), True, digest(seen))
                images[o[1]] = snap(im)
                seen.append(images[o[1]])
                hist.append("d" if o[4] else "r")
                last = o[1]
                d = diff(images[o[1]], exp[o[1]]["image"])
                if d:
                    return outcome({"sig": "image-differs", "msg": f"operation {i} {o}: {d} from the same view alone"},
                                   stats, " ".join(hist), True, digest(seen))
                continue
            sl = w.alive(o[1])
            if not sl:
                continue
            try:
                r = w.grad(o)
            except RuntimeError as e:
                return outcome({"sig": "gradient-failed", "msg": f"operation {i} {o} raised {str(e)[:120]}"}, stats,
                               " ".join(hist), True, digest(seen))
            hist.append("g" + ",".join(str(s) for s in o[1]) + o[3][0])
            nt = nt or o[1] != [last]
            if r["modified"]:
                return outcome({"sig": "grad-output-modified", "msg": f"operation {i} {o} modified the gradient tensor "
                                "it was given"}, stats, " ".join(hist), nt, digest(seen))
            for n, who, g in r["grads"]:
                seen.append(g)
                e = None
                for s in who:
                    x = exp[s]["grads"][need[s].index(o[2:4])][n]
                    if x is not None:
                        if s in w.factor:
                            x = np.asarray(x * w.factor[s])
                        e = x if e is None else np.asarray(e + x)
                d = diff(g, e, 1e-8)
                if d:
                    return outcome({"sig": "gradient-differs", "msg": f"operation {i} {o}: gradient of {n}: {d} from "
                                    "the same view(s) alone"}, stats, " ".join(hist), nt, digest(seen))
            stats["compared_gradients"] = stats.get("compared_gradients", 0) + len(r["grads"])
            if len(sl) > 1:
                stats["probe:summed_views"] = stats.get("probe:summed_views", 0) + 1
        for s, im in images.items():
            d = diff(snap(w.slots[s][0]), im, 0)
            if d:
                return outcome({"sig": "image-changed-later", "msg": f"the image of view {s} changed after it was "
                                f"returned: {d}"}, stats, " ".join(hist), nt, digest(seen))
        stats["probe:gradient_of_an_earlier_view"] = int(nt)
        return outcome(None, stats, " ".join(hist), nt, digest([seen, hist]))

    def reduce(self, plan):
        for f in list_drops(plan["faults"]):
            yield {**plan, "faults": f}
        for i in reversed(range(len(plan["ops"]))):
            ops = plan["ops"][:i] + plan["ops"][i + 1:]
            if plan["ops"][i][0] == "render":
                s = plan["ops"][i][1]
                ops = [["grad", [k for k in o[1] if k != s]] + o[2:] if o[0] == "grad" else o for o in ops]
                ops = [o for o in ops if (o[0] != "grad" or o[1]) and o[:2] != ["post", s]]
                if len(ops) != len(plan["ops"]) - 1:
                    yield {**plan, "ops": ops, "faults": []}
                    continue
            yield {**plan, "ops": ops, "faults": [[f[0] - (f[0] > i)] + f[1:] for f in plan["faults"] if f[0] != i]}
        s = plan["spec"]
        m = {**s["mesh"], "kind": "tetra"}
        for ch in ({"scenes": s["scenes"][:1]}, {"cams": s["cams"][:1]}, {"mesh": m},
                   {"cams": [{**c, "w": 6, "h": 6, "dist": False} for c in s["cams"]]},
                   {"scenes": [{**c, "sigma": 1.0} for c in s["scenes"]]}):
            if {**s, **ch} != s:
                yield {**plan, "spec": {**s, **ch}}


PROP = Prop()

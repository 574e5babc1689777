"""Simulated clients: small interpreters that drive the package through its API."""
import numpy as np

from . import gen
from .cmp import snap


class Scene2DActor:
    FORWARD = ("render", "rerr")
    CONFIG = ("move", "recolor", "depths", "bg", "tex", "shade", "uv", "edges", "ipc", "strict", "flags", "faces", "clock",
              "cull", "size")

    def __init__(self, spec, shared=None):
        self.spec = spec
        kw = gen.scene2d_kwargs(spec)
        if shared:
            kw.update({k: v for k, v in shared.items() if k in kw})
        from deodr.differentiable_renderer import Scene2D
        self.scene = Scene2D(**kw)
        self.shape = (spec["h"], spec["w"], spec["c"])
        self.bg = None

    def background(self):
        """Sets the background asked for last, in the present size of the image."""
        s = self.scene
        if self.bg is None:
            if s.background_image is None:
                return
            self.bg = self.spec["seed"] * 3 + 1
        if (self.spec["bg"] == "image") == bool(self.bg % 3):
            s.background_image, s.background_color = gen.values(self.bg, self.shape), None
        else:
            s.background_image, s.background_color = None, gen.values(self.bg, self.shape[2])

    def grads(self):
        s = self.scene
        return {"uv_b": snap(s.uv_b), "ij_b": snap(s.ij_b), "shade_b": snap(s.shade_b), "colors_b": snap(s.colors_b),
                "texture_b": snap(s.texture_b)}

    def do(self, op):
        s, k = self.scene, op[0]
        if k == "render":
            im, z = s.render(op[1])
            return {"image": snap(im), "z": snap(z)}
        if k == "rerr":
            im, z, e = s.render_error(gen.image_b(op[1], self.shape), op[2])
            return {"image": snap(im), "z": snap(z), "err": snap(e)}
        if k == "back":
            s.render_backward(gen.image_b(op[1], self.shape), **({} if op[2] else {"make_copies": False}))
            return self.grads()
        if k == "backe":
            s.render_error_backward(gen.image_b(op[1], self.shape[:2]), **({} if op[2] else {"make_copies": False}))
            return self.grads()
        if k == "clear":
            s.clear_gradients()
            return self.grads()
        if k == "rcb":
            mask = gen.values(op[4], self.shape[:2]) if op[4] is not None else None
            im, z, e, err = s.render_compare_and_backward(
                gen.image_b(op[1], self.shape), sigma=op[2], antialiase_error=bool(op[3]), mask=mask)
            return {"image": snap(im), "z": snap(z), "eb": snap(e), "err": err, **self.grads()}
        if k == "move":
            s.ij = gen.rs(op[1]).uniform(-0.2, 1.2, s.ij.shape) * np.array([self.spec["w"], self.spec["h"]])
            return None
        if k == "recolor":
            s.colors = gen.values(op[1], s.colors.shape)
            return None
        if k == "depths":
            s.depths = gen.rs(op[1]).uniform(0.2, 3, s.depths.shape)
            return None
        if k == "bg":
            self.bg = op[1]
            self.background()
            return None
        if k == "size":
            self.shape = (2 + op[1] % 22, 2 + op[1] // 22 % 22, self.shape[2])
            s.height, s.width = self.shape[:2]
            self.background()
            return None
        if k == "flags":
            r = gen.rs(op[1])
            if self.spec["textured"]:
                s.textured = r.uniform(size=s.textured.shape) < (0, 0.5, 1)[op[1] % 3]
            s.shaded = (r.uniform(size=s.shaded.shape) < 0.8) & s.textured
            return None
        if k == "faces":
            r = gen.rs(op[1])
            s.faces = np.stack([r.choice(len(s.ij), 3, replace=False) for _ in s.faces]).astype(np.uint32)
            s.faces_uv = s.faces[:, ::-1].copy() if op[1] % 2 else s.faces.copy()
            return None
        if k == "clock":
            s.clockwise = bool(op[1] % 2)
            return None
        if k == "cull":
            s.backface_culling = bool(op[1] % 3)
            return None
        if k == "tex":
            if self.spec["textured"]:
                s.texture = gen.values(op[1], s.texture.shape)
            return None
        if k == "shade":
            s.shade = gen.rs(op[1]).uniform(0.2, 1, s.shade.shape)
            return None
        if k == "uv":
            s.uv = gen.rs(op[1]).uniform(-0.5, 6, s.uv.shape)
            return None
        if k == "edges":
            s.edgeflags = gen.rs(op[1]).uniform(size=s.edgeflags.shape) < 0.6
            return None
        if k == "ipc":
            s.integer_pixel_centers = bool(op[1] % 2)
            return None
        if k == "strict":
            s.strict_edge = bool(op[1] % 2)
            return None
        if k == "grads":
            return self.grads()
        if k == "poke":
            poke([s.ij, s.depths, s.colors, s.shade, s.uv, s.texture, s.background_image, s.background_color], op[1])
            return None
        raise KeyError(k)


def poke(arrays, seed):
    """Writes into one of the arrays an object holds."""
    a = [x for x in arrays if isinstance(x, np.ndarray) and x.size]
    if a:
        x = a[seed % len(a)]
        x *= gen.rs(seed).uniform(0.8, 1.2, x.shape)


class Scene3DActor:
    FORWARD = ("render", "depth", "deferred")
    CONFIG = ("verts", "colors", "light", "sigma", "bg", "mesh", "ipc", "pc", "cam", "tex", "uv")

    def __init__(self, spec, shared=None):
        from deodr.differentiable_renderer import Scene3D
        self.spec = spec
        self.m = spec["mesh"]
        given = (shared or {}).get("mesh_arrays") or gen.mesh_arrays(self.m)
        self.mesh = gen.make_mesh(self.m, share=given)
        self.given = {"faces": given["faces"]}  # arrays of the client that the scene has copied
        self.meshes = [self.mesh]
        self.ms = [self.m]
        self.own = {}
        if spec.get("mesh2"):
            self.ms.append(spec["mesh2"])
            self.meshes.append(gen.make_mesh(self.ms[1]))
        self.scene = Scene3D(sigma=spec["sigma"], perspective_correct=spec.get("pc", False),
                             integer_pixel_centers=spec.get("ipc", True))
        self.scene.set_mesh(self.mesh)
        ref = gen.vertices_for(self.m)
        self.cams = (shared or {}).get("cams") or [gen.make_camera(c, ref) for c in spec["cams"]]
        self.poses = poses_of(self.cams)
        bg = spec["bg"]
        nb = self.m.get("nb_colors", 3)
        if bg["type"] == "color":
            self.scene.set_background_color(gen.values(bg["seed"], nb))
        else:
            c = self.cams[0]
            self.scene.set_background_image(gen.values(bg["seed"], (c.height, c.width, nb)))
        if spec.get("light") is not None:
            self._light(spec["light"])
        self.last = None

    def _light(self, seed):
        if seed is None:
            self.scene.set_light(None, 0.7)
            return
        r = gen.rs(seed)
        light = self.given["light"] = r.uniform(-0.6, 0.6, 3)
        self.scene.set_light(light, float(r.uniform(0.1, 0.5)))

    def grads(self):
        s, m = self.scene, self.mesh
        g = {"vertices_b": snap(m._vertices_b), "vcolors_b": snap(m.vertices_colors_b)}
        if s.light_directional is not None:
            g["light_directional_b"] = snap(getattr(s, "light_directional_b", None))
        g["light_ambient_b"] = snap(getattr(s, "light_ambient_b", None))
        return g

    def do(self, op):
        s, m, k = self.scene, self.mesh, op[0]
        if k == "verts":
            j = op[2] if len(op) > 2 and len(self.meshes) > 1 else 0
            v = gen.vertices_for(self.ms[j], op[1])
            if self.spec.get("in_place") and op[1] % 2 and self.own.get(j) is self.meshes[j].vertices:
                self.own[j][...] = v  # the client's own array, written into and handed over again
                v = self.own[j]
            self.own[j] = v
            self.meshes[j].set_vertices(v)
            return None
        if k == "colors":
            j = op[2] if len(op) > 2 and len(self.meshes) > 1 else 0
            self.meshes[j].set_vertices_colors(gen.colors_for(self.ms[j], op[1]))
            return None
        if k == "mesh":
            j = op[1] % len(self.meshes)
            self.m, self.mesh = self.ms[j], self.meshes[j]
            s.set_mesh(self.mesh)
            return None
        if k == "bg":
            r, nb = gen.rs(op[1]), self.spec["mesh"].get("nb_colors", 3)
            if self.spec["bg"]["type"] == "color":
                c = gen.values(op[1], nb)
                s.set_background_color(c if op[1] % 2 else tuple(c))
            else:
                c = self.cams[0]
                s.set_background_image(gen.values(op[1], (c.height, c.width, nb)))
            return None
        if k == "badbg":
            # refused: a background of the other kind, or one that is not an image or a colour
            r, nb, c = gen.rs(op[1]), self.spec["mesh"].get("nb_colors", 3), self.cams[0]
            if (self.spec["bg"]["type"] == "image") != bool(op[2]):
                s.set_background_color(r.uniform(0, 1, (2, nb) if op[2] else nb))
            else:
                im = r.uniform(0, 1, (c.height, c.width, nb))
                if op[2]:
                    im = im[:, :, 0] if op[1] % 2 else im.astype(np.float32)
                s.set_background_image(im)
            return None
        if k == "cam":
            # the size of a background image is that of the views
            move_camera(self.cams, self.poses, op, self.spec["bg"]["type"] == "color")
            return None
        if k in ("tex", "uv"):
            j = op[2] if len(self.meshes) > 1 else 0
            m, r = self.meshes[j], gen.rs(op[1])
            if m.texture is not None and k == "tex":
                m.texture = gen.values(op[1], m.texture.shape)
            elif m.uv is not None and k == "uv":
                m.uv = r.uniform(0, max(m.texture.shape[:2]) + 1, m.uv.shape)
            return None
        if k in ("ipc", "pc"):
            setattr(s, {"ipc": "integer_pixel_centers", "pc": "perspective_correct"}[k], op[1] % (2 if k == "ipc" else 5) == 0)
            return None
        if k == "light":
            self._light(op[1])
            return None
        if k == "sigma":
            s.sigma = op[1]
            return None
        if k == "render":
            cam = self.cams[op[1] % len(self.cams)]
            self.last = cam
            im, z = s.render(cam, return_z_buffer=True, backface_culling=bool(op[2]))
            return {"image": snap(im), "z": snap(z)}
        if k == "depth":
            cam = self.cams[op[1] % len(self.cams)]
            self.last = cam
            return {"depth": snap(s.render_depth(cam, depth_scale=op[2]))}
        if k == "deferred":
            cam = self.cams[op[1] % len(self.cams)]
            f = op[2]
            names = ("color", "depth", "face_id", "barycentric", "normal", "luminosity", "uv", "xyz")
            out = s.render_deferred(cam, depth_scale=op[3], **{n: bool(f >> i & 1) for i, n in enumerate(names)})
            return snap(out)
        if k == "back":
            cam = self.last
            s.render_backward(gen.image_b(op[1], (cam.height, cam.width, self.m.get("nb_colors", 3))))
            return self.grads()
        if k == "backd":
            cam = self.last
            s.render_depth_backward(gen.image_b(op[1], (cam.height, cam.width, 1)))
            return {"vertices_b": snap(m._vertices_b)}
        if k == "clear":
            s.clear_gradients()
            return None
        if k == "normals":
            return {"f": snap(m.face_normals), "v": snap(m.vertex_normals)}
        if k == "volume":
            return {"volume": snap(m.compute_volume())}
        if k == "sil":
            cam = self.cams[op[1] % len(self.cams)]
            p, _ = cam.project_points(m.vertices)
            return {"sil": snap(m.edge_on_silhouette(p))}
        if k == "grads":
            return self.grads()
        if k == "poke":
            poke([m.vertices_colors, m.texture, s.light_directional, s.background_image, s.background_color], op[1])
            return None
        if k == "reuse":
            a = self.given.get(op[1])
            if a is not None:
                a[...] = gen.rs(op[2]).uniform(0, self.mesh.nb_vertices, a.shape)
            return None
        raise KeyError(k)


def poses_of(cams):
    return [(np.array(c.extrinsic), np.array(c.intrinsic), c.height, c.width, c.distortion) for c in cams]


def move_camera(cams, poses, op, sizes=False):
    """The client moves a camera away from its first pose, in the camera's own arrays or with other ones."""
    r, j = gen.rs(op[1]), op[2] % len(cams)
    c = cams[j]
    e, i, h, w, dist = poses[j]
    e, i = e.copy(), i.copy()
    if op[1] % 3:
        e[:, 3] += r.uniform(-0.15, 0.15, 3) * np.abs(e[:, 3]).max()
        a = r.uniform(-0.2, 0.2)  # and turns around its axis
        e = np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1]]).dot(e)
    if op[1] % 3 != 1:
        i[:2, :2] *= r.uniform(0.7, 1.3)
        if op[1] % 4 == 0:
            i[:2, 2] += r.uniform(-1, 1, 2)
    if sizes and op[1] % 5 == 0:
        h, w = max(2, h + int(r.randint(-4, 8))), max(2, w + int(r.randint(-4, 8)))
        i[:2, 2] = w / 2, h / 2
    if op[1] % 7 == 0:
        dist = None if dist is not None and op[1] % 2 else r.uniform(-0.05, 0.05, 5)
    c.height, c.width, c.distortion = h, w, dist
    if op[1] % 2:
        c.extrinsic[...], c.intrinsic[...] = e, i
    else:
        c.extrinsic, c.intrinsic = e, i
    return j


QUERY = ("normals", "volume", "sil")
REJECT = ("badbg",)
REUSE = ("reuse",)


def minimal(cls, ops, i):
    """The shortest program whose last operation must behave like ops[i] does after ops[:i]."""
    op = ops[i]
    if op[0] == "tools":
        return [op]
    if op[0] in cls.CONFIG + REUSE:
        return None

    def config(upto):
        last = {}
        for j in range(upto):
            if ops[j][0] in cls.CONFIG:
                key = (ops[j][0],) + tuple(ops[j][2:])
                last.pop(key, None)
                last[key] = ops[j]
        return [last[k] for c in cls.CONFIG for k in last if k[0] == c]

    if op[0] == "pback":
        p = [j for j in range(i) if ops[j][0] == "proj" and ops[j][3] == op[1]]
        return config(p[-1]) + [ops[p[-1]], op] if p else [op]
    if op[0] in cls.FORWARD or op[0] in QUERY + REJECT or op[0] in ("rcb", "info"):
        return config(i) + [op]
    j = i
    start = cls.FORWARD + ("rcb",) if cls is not Scene2DActor else ("clear", "rcb")
    # gradients of a 2D scene are accumulated until they are cleared; a 3D scene starts anew at every forward pass
    while j >= 0 and ops[j][0] not in start:
        j -= 1
    if j < 0:
        return [o for o in ops[: i + 1] if o[0] not in QUERY + REJECT + REUSE]
    pre = []
    if cls is Scene2DActor and ops[j][0] == "clear":
        # the forward pass the next backward pass refers to may come before the clear
        f = j
        while f >= 0 and ops[f][0] not in cls.FORWARD + ("rcb",):
            f -= 1
        if f >= 0:
            pre = [o for o in ops[f:j] if o[0] in cls.CONFIG or o[0] in cls.FORWARD + ("rcb",)]
            return config(f) + pre + ops[j : i + 1]
    return config(j) + [o for o in ops[j : i + 1] if o[0] not in QUERY + REJECT + REUSE]


KINDS = {"scene2d": Scene2DActor, "scene3d": Scene3DActor}


def attempt(actor, op):
    """('ok', observation) or ('raise', exception type)."""
    try:
        return ["ok", actor.do(op)]
    except (KeyboardInterrupt, SystemExit, GeneratorExit):
        raise
    except BaseException as e:  # noqa: the package raises bare BaseException to reject inputs
        if type(e).__name__ in ("_Killed", "StepLimit"):
            raise
        return ["raise", type(e).__name__]


def gen_scene2d_ops(rng, n, err=True):
    ops, fwd, grads = [], None, True
    while len(ops) < n:
        x = rng.random()
        if x < 0.2:
            ops.append([rng.choice(["move", "recolor", "depths"] if rng.random() < 0.4 else list(Scene2DActor.CONFIG)),
                        rng.randrange(10**6)])
            fwd = None
        elif x < 0.45 or fwd is None:
            if err and rng.random() < 0.4:
                ops.append(["rerr", rng.randrange(10**6), rng.choice([0, 0.7, 1.0, 2.5])])
                fwd = "backe"
            else:
                ops.append(["render", rng.choice([0, 0.7, 1.0, 2.5])])
                fwd = "back"
        elif x < 0.75:
            copies = rng.random() < 0.75
            ops.append([fwd, rng.randrange(10**6), copies])
            if not copies:
                fwd = None
        elif x < 0.85:
            ops.append(["clear"])
        else:
            ops.append(["rcb", rng.randrange(10**6), rng.choice([0, 1.0, 2.0]), rng.random() < 0.4,
                        rng.choice([None, rng.randrange(1000)])])
            fwd = None
    return ops


def scene3d_spec(rng, textured=None):
    nb = rng.choice([1, 1, 2, 3, 3, 3])
    m = gen.mesh_spec(rng, textured=textured, nb_colors=nb, loose=True)
    s = {"mesh": m, "sigma": rng.choice([0, 0, 0.6, 1.0, 1.0, 2.0]), "pc": rng.random() < 0.08,
         "ipc": rng.random() < 0.7, "bg": {"type": rng.choice(["color", "color", "image"]),
                                           "seed": rng.randrange(10**6)},
         "light": rng.choice([None, rng.randrange(10**6), rng.randrange(10**6)]),
         "cams": [gen.camera_spec(rng) for _ in range(rng.randrange(1, 4))]}
    if rng.random() < 0.2:
        s["mesh2"] = gen.mesh_spec(rng, textured=textured if textured is not None or rng.random() < 0.5 else
                                   bool(m.get("textured")), nb_colors=nb)
    if s["bg"]["type"] == "image" and rng.random() < 0.85:
        for c in s["cams"]:
            c["w"], c["h"] = s["cams"][0]["w"], s["cams"][0]["h"]
    return s


def gen_scene3d_ops(rng, n, spec, wrong=True):
    """A history; most operations are legal, some are rejected on purpose."""
    ops, fwd = [], None
    sigma = spec["sigma"]
    depth_ok = spec["mesh"].get("nb_colors", 3) == 1 and spec["bg"]["type"] == "color"
    while len(ops) < n:
        x = rng.random()
        if x < 0.22:
            k = rng.choice(["verts", "verts", "colors", "light", "sigma"])
            if rng.random() < 0.3:
                k = rng.choice(["bg", "bg", "ipc", "pc", "badbg"] + ["mesh"] * 4 * ("mesh2" in spec))
                if k == "pc" and rng.random() < 0.6:
                    k = "badbg" if wrong else "bg"
            if k == "badbg" and not wrong:
                k = "bg"
            j = rng.randrange(2) if "mesh2" in spec else 0
            if k == "colors" and (spec["mesh2"] if j else spec["mesh"]).get("textured"):
                k = "verts"
            v = rng.choice([0, 0, 0.8, 1.0]) if k == "sigma" else rng.randrange(10**6)
            if k == "light" and rng.random() < 0.25:
                v = None
            ops.append([k, v] + ([j] if k in ("verts", "colors") and "mesh2" in spec else []))
            if k == "badbg":
                # a refused request leaves no trace: the last forward pass remains the one to differentiate
                ops[-1].append(rng.randrange(2))
                continue
            sigma = v if k == "sigma" else sigma
            fwd = None
        elif x < 0.55 or fwd is None:
            k = rng.choice(["render", "render", "render", "depth", "depth", "deferred"] if depth_ok else
                           ["render", "render", "render", "render", "deferred"])
            if k == "deferred" and sigma > 0 and rng.random() < 0.85:
                ops.append(["sigma", 0])
                sigma = 0
            if wrong and k == "render" and not depth_ok and rng.random() < 0.04:
                k = "depth"
            cam = rng.randrange(3)
            if k == "render":
                ops.append(["render", cam, rng.random() < 0.9])
                fwd = "back"
            elif k == "depth":
                ops.append(["depth", cam, rng.choice([1, 1.0, 2.5])])
                fwd = "backd" if depth_ok else None
            else:
                f = rng.randrange(1, 256) | 2
                if spec["mesh"].get("nb_colors", 3) != 3 and rng.random() < 0.9:
                    f &= ~1
                ops.append(["deferred", cam, f, rng.choice([1, 2.0])])
                fwd = rng.choice(["back", "backd"]) if wrong and rng.random() < 0.15 else None
        elif x < 0.8:
            k = fwd
            if wrong and rng.random() < 0.08:
                k = "back" if fwd == "backd" else "backd"
            ops.append([k, rng.randrange(10**6)])
        elif x < 0.86:
            ops.append(["clear"])
        else:
            ops.append([rng.choice(["normals", "normals", "volume"])] if rng.random() < 0.7 else
                       ["sil", rng.randrange(3)])
    return ops


# -- fitters -------------------------------------------------------------------
class FitterActor:
    """One of the mesh fitters, driven through set_image / step / reset."""

    def __init__(self, spec, shared=None):
        self.spec = spec
        k = spec["fit"]
        m = {"kind": spec["mesh"], "seed": spec["seed"]}
        v, f = gen.base_mesh(m["kind"])
        r = gen.rs(spec["seed"])
        v = gen.vertices_for(m)
        self.torch = k.startswith("torch")
        if self.torch:
            from deodr.pytorch import mesh_fitter_pytorch as mf
        else:
            from deodr import mesh_fitter as mf
        euler = r.uniform(-0.3, 0.3, 3)
        trans = r.uniform(-0.1, 0.1, 3)
        cregu = float(r.choice([10.0, 200.0, 1000.0]))
        opts = dict(spec.get("opts") or {})
        fast = opts.pop("fast", False)
        kind = k.split("_")[-1]
        self.kind = kind
        self.given = v
        self.nf = spec.get("frames", 2)
        if kind == "lbfgs":
            self.f = mf.MeshDepthFitterPytorchOptim(v, f, euler, trans, cregu=cregu)
            self.f.set_max_depth(8.0)
            self.f.set_depth_scale(1.0)
        elif kind == "depth":
            opts = {k: x for k, x in opts.items() if k in ("inertia", "damping")}
            self.f = mf.MeshDepthFitter(v, f, euler, trans, cregu=cregu, **opts)
            self.f.set_max_depth(8.0)
            self.f.set_depth_scale(1.0)
        else:
            color = r.uniform(0.2, 0.9, 3)
            light = r.uniform(-0.5, 0.5, 3)
            amb = float(r.uniform(0.2, 0.6))
            if kind == "rgb":
                self.f = mf.MeshRGBFitterWithPose(v, f, euler, trans, color, light, amb, cregu=cregu, **opts)
            else:
                euler = r.uniform(-0.3, 0.3, (self.nf, 3))
                trans = r.uniform(-0.1, 0.1, (self.nf, 3))
                self.f = mf.MeshRGBFitterWithPoseMultiFrame(v, f, euler, trans, color, light, amb, cregu=cregu, **opts)
            self.f.set_background_color(r.uniform(0, 1, 3))
        if fast:
            # steps large enough to be seen
            for a in [a for a in vars(self.f) if a.startswith("step_factor_")]:
                setattr(self.f, a, getattr(self.f, a) * (30 if "vertices" in a else 10))
        self.image(spec["image"])

    def target(self, seed):
        w, h = self.spec["w"], self.spec["h"]
        if self.spec.get("sizes"):
            w, h = w + seed % 3, h + seed // 3 % 4
        r = gen.rs(seed)
        if self.kind in ("depth", "lbfgs"):
            return r.uniform(-1, 12, (h, w)) if seed % 5 == 0 else r.uniform(1, 7, (h, w))
        if self.kind == "rgb":
            return gen.values(seed, (h, w, 3))
        return [gen.values(seed + i, (h, w, 3)) for i in range(self.nf)]

    def image(self, seed):
        t = self.target(seed)
        focal = gen.rs(seed + 1).choice([0.9, 1.5, 2.0]) * self.spec["w"]
        if seed % 11 == 0 and self.kind != "lbfgs":
            focal = None
        if self.kind == "multi":
            self.f.set_images(t, focal=focal)
        elif self.kind == "lbfgs":
            self.f.set_image(t, focal)
        else:
            d = None
            if self.spec.get("dist"):
                d = gen.rs(seed + 2).uniform(-0.02, 0.02, 5)
            self.f.set_image(t, focal=focal, distortion=d)

    STATE = ("vertices", "speed_vertices", "transform_quaternion", "transform_translation", "speed_translation",
             "speed_quaternion", "mesh_color", "light_directional", "light_ambient", "speed_light_directional",
             "speed_light_ambient", "speed_mesh_color")

    def state(self):
        if self.kind == "lbfgs":
            return {k: snap(p.detach()) for k, p in self.f.energy.named_parameters()}
        out = {k: snap(getattr(self.f, k)) for k in self.STATE if hasattr(self.f, k)}
        v = out["vertices"]
        out["vertices"] = v - v.mean(axis=0)  # every step starts by centering the vertices
        return out

    def do(self, op):
        k = op[0]
        if k == "step":
            e, im, d = self.f.step()
            return {"energy": float(e), "image": snap(im), "diff": snap(d), "state": self.state()}
        if k == "reset":
            if self.kind != "lbfgs":
                self.f.reset()
            return None
        if k == "jump":
            # the fitter's own clock: as if it had already made that many steps
            if hasattr(self.f, "iter"):
                self.f.iter = op[1]
            return None
        if k == "image":
            self.image(op[1])
            return None
        if k == "state":
            return self.state()
        if k == "view":
            if self.torch:
                return None
            # the client's own rendering and gradient
            n = op[1] % self.nf if self.kind == "multi" else None
            if n is not None:
                self.f.clear_gradients()
            im = self.f.render() if n is None else self.f.render(idframe=n)
            out = {"image": snap(im)}
            self.f.render_backward(gen.image_b(op[1], im.shape))
            for a in ("transform_translation_b", "transform_quaternion_b", "mesh_color_b", "light_directional_b", "light_ambient_b"):
                if hasattr(self.f, a):
                    out[a] = snap(getattr(self.f, a))
            return out
        if k == "settings":
            r = gen.rs(op[1])
            if self.kind in ("depth", "lbfgs"):
                self.f.set_max_depth(float(r.uniform(5, 9)))
                self.f.set_depth_scale(float(r.choice([0.9, 1.0, 1.2])))
            else:
                self.f.set_background_color(r.uniform(0, 1, 3))
            return None
        if k == "init":
            r = gen.rs(op[1])
            n = (self.nf, 3) if self.kind == "multi" else 3
            self.f.set_mesh_transform_init(euler=r.uniform(-0.3, 0.3, n), translation=r.uniform(-0.1, 0.1, n))
            return None
        if k == "bad":
            self.bad_image(op[1])
            return None
        if k == "reuse":
            # the client's own array of vertices, put to another use
            self.given[...] = gen.rs(op[1]).uniform(-3, 3, self.given.shape)
            return None
        if k == "poke":
            poke([getattr(self.f, n, None) for n in ("vertices", "mesh_color", "light_directional", "transform_translation",
                                                     "speed_vertices")], op[1])
            return None
        raise KeyError(k)

    def bad_image(self, seed):
        """An image that is refused, at once or by the next step."""
        w, h = self.spec["w"], self.spec["h"]
        r = gen.rs(seed)
        if self.kind in ("depth", "lbfgs"):
            self.f.set_image(r.uniform(1, 7, (h + 1, w, 2)), focal=1.5 * w)
        elif self.kind == "rgb":
            self.f.set_image(r.uniform(0, 1, (h, w, 4) if seed % 2 else (h, w + 2)), focal=1.5 * w)
        else:
            t = self.target(seed)
            k = seed % self.nf
            t[k] = t[k][:, :, :1].repeat(5, axis=2) if seed % 3 else t[k][:-1]
            if self.nf == 1 and seed % 3 == 0:
                t = [t[0][0]]
            self.f.set_images(t, focal=1.5 * w)


FITS = ("np_depth", "np_rgb", "np_multi")
TORCH_FITS = ("torch_depth", "torch_rgb", "torch_lbfgs")


def fitter_spec(rng, kinds=FITS):
    s = {"fit": rng.choice(kinds), "mesh": rng.choice(["tetra", "octa", "box", "ico"]), "seed": rng.randrange(10**6),
            "w": rng.randrange(6, 24), "h": rng.randrange(6, 24), "image": rng.randrange(10**6),
            "frames": rng.randrange(1, 4), "dist": rng.random() < 0.25, "sizes": rng.random() < 0.4}
    if rng.random() < 0.03:
        s["mesh"], s["w"], s["h"] = rng.choice(["ring", "sheet"]), rng.randrange(24, 90), rng.randrange(24, 70)
    if rng.random() < 0.5:
        s["opts"] = {"fast": rng.random() < 0.6, "inertia": rng.choice([0.0, 0.5, 0.9]),
                     "damping": rng.choice([0.0, 0.05, 0.3])}
        if not s["fit"].endswith(("depth", "lbfgs")):
            s["opts"].update(update_lights=rng.random() < 0.6, update_color=rng.random() < 0.6)
            if s["fit"] == "np_multi":
                s["opts"]["cdata"] = rng.choice([1.0, 5.0])
    return s


KINDS["fitter"] = FitterActor


# -- meshes --------------------------------------------------------------------
class MeshActor:
    """A mesh and its lazily computed normals and adjacencies."""

    def __init__(self, spec, shared=None):
        from deodr.triangulated_mesh import ColoredTriMesh
        self.m = spec["mesh"]
        a = dict((shared or {}).get("mesh_arrays") or gen.mesh_arrays(self.m))
        self.mesh = ColoredTriMesh(compute_adjacencies=not spec.get("lazy", False), **a)
        self.bad = spec.get("bad", False)

    def do(self, op):
        m, k = self.mesh, op[0]
        if k == "verts":
            m.set_vertices(gen.vertices_for(self.m, op[1]))
            return None
        if k == "colors":
            m.set_vertices_colors(gen.colors_for(self.m, op[1]))
            return None
        if k == "fn":
            return snap(m.face_normals)
        if k == "vn":
            return snap(m.vertex_normals)
        if k == "vol":
            return float(m.compute_volume())
        if k == "sil":
            r = gen.rs(op[1])
            p = m.vertices.dot(gen.rotation(r).T)[:, :2]
            return snap(np.asarray(m.edge_on_silhouette(p)))
        if k == "vnb":
            before = snap(m._vertices_b)
            m.compute_vertex_normals_backward(gen.rs(op[1]).uniform(-1, 1, (m.nb_vertices, 3)))
            return snap(m._vertices_b) - before
        if k == "adj":
            a = m.adjacencies
            return {"e": snap(a.edges), "c": bool(a.is_closed), "m": bool(a.is_manifold), "l": snap(a.laplacian),
                    "d": snap(a.degree_v_e), "b": bool(a.hasBoundaries)}
        if k == "subdiv":
            s = m.subdivise(op[1])
            return {"v": snap(s.vertices), "f": snap(np.asarray(s.faces)), "n": snap(s.vertex_normals),
                    "cw": bool(s.clockwise), "c": snap(s.vertices_colors)}
        if k == "trimesh":
            t = m.to_trimesh()
            return {"v": snap(np.asarray(t.vertices)), "f": snap(np.asarray(t.faces)), "uv": snap(np.asarray(t.visual.uv))}
        if k == "grads":
            return snap(m._vertices_b)
        if k == "poke":
            poke([m.vertices_colors, m.texture, m.uv], op[1])
            return None
        raise KeyError(k)


def gen_mesh_ops(rng, n, spec):
    ops, fresh = [], False
    tex = spec["mesh"].get("textured")
    while len(ops) < n:
        k = rng.choice(["verts", "verts", "fn", "vn", "vn", "vol", "sil", "sil", "vnb", "vnb", "adj", "colors",
                        "subdiv", "trimesh"])
        if k == "verts":
            ops.append([k, rng.randrange(10**6)])
            fresh = False
        elif k == "vnb":
            if not fresh:
                ops.append(["vn"])
                fresh = True
            ops.append([k, rng.randrange(10**6)])
        elif k == "sil":
            ops.append([k, rng.randrange(10**6)])
        elif k == "colors":
            if not tex:
                ops.append([k, rng.randrange(10**6)])
        elif k == "subdiv":
            if rng.random() < 0.3:
                ops.append([k, rng.choice([0, 1, 1])])
        elif k == "trimesh":
            if tex:
                ops.append([k])
        else:
            fresh = fresh or k == "vn"
            ops.append([k])
    return ops


class EnergyActor:
    """A rigidity energy, possibly shared between clients."""

    def __init__(self, spec, shared=None):
        from deodr.laplacian_rigid_energy import LaplacianRigidEnergy
        self.m = spec["mesh"]
        self.e = (shared or {}).get("energy")
        if self.e is None:
            a = gen.mesh_arrays(self.m)
            self.e = LaplacianRigidEnergy(gen.make_mesh(self.m), a["vertices"], spec["cregu"])

    def do(self, op):
        if op[0] == "poke":
            poke([self.e.vertices_ref], op[1])
            return None
        e, g, h = self.e.evaluate(gen.vertices_for(self.m, op[1]))
        return {"e": float(e), "g": snap(g), "h": snap(h)}


class IoActor:
    """Saves and loads meshes and exports projects in its own directory."""

    def __init__(self, spec, shared=None):
        import os
        self.m = spec["mesh"]
        self.cams = [gen.make_camera(c, gen.vertices_for(self.m)) for c in spec["cams"]]
        self.dir = os.path.join((shared or {})["dir"], spec["name"])
        self.wide = spec.get("wide", False)
        os.makedirs(self.dir, exist_ok=True)
        self.v, self.f = gen.vertices_for(self.m), gen.base_mesh(self.m["kind"])[1]

    def listing(self):
        import os
        import hashlib
        out = {}
        for n in sorted(os.listdir(self.dir)):
            with open(os.path.join(self.dir, n), "rb") as f:
                out[n] = hashlib.sha256(f.read()).hexdigest()
        return out

    def do(self, op):
        import os
        from deodr.meshlab_io import export_meshlab
        from deodr.obj import read_obj, save_obj
        k = op[0]
        if k == "save":
            self.v = gen.vertices_for(self.m, op[1])
            save_obj(os.path.join(self.dir, f"m{op[2]}.obj"), self.v, self.f)
            return self.listing()
        if k == "load":
            f, v = read_obj(os.path.join(self.dir, f"m{op[2]}.obj"))
            return {"f": snap(f), "v": snap(v)}
        if k == "export":
            mesh = gen.make_mesh(self.m)
            lo, hi = (-40, 300) if self.wide else (0, 255)
            ims = [gen.rs(op[1] + i).randint(lo, hi, (c.height, c.width, 3)).astype(float)
                   for i, c in enumerate(self.cams)]
            export_meshlab(os.path.join(self.dir, "p.mlp"), mesh, self.cams, ims)
            return self.listing()
        raise KeyError(k)


KINDS.update({"mesh": MeshActor, "energy": EnergyActor, "io": IoActor})


class CameraActor:
    """Projections, with their gradients taken later and in any order, and the small geometry tools."""

    FORWARD = ("proj",)
    CONFIG = ("cam",)

    def __init__(self, spec, shared=None):
        self.spec = spec
        self.given = []  # arrays of the client that the cameras have copied
        self.cams = (shared or {}).get("cams") or [gen.make_camera(c, gen.vertices_for(spec["mesh"]), self.given)
                                                   for c in spec["cams"]]
        self.poses = poses_of(self.cams)
        self.stores = {}

    def points(self, seed):
        return gen.vertices_for(self.spec["mesh"], seed)

    def do(self, op):
        k = op[0]
        if k == "proj":
            cam = self.cams[op[1] % len(self.cams)]
            st = {}
            r = cam.project_points(self.points(op[2]), store_backward=st if op[3] is not None else None)
            if op[3] is not None:
                self.stores[op[3]] = (cam, st)
            return {"p": snap(r[0]), "d": snap(r[1])}
        if k == "cam":
            cam = self.cams[move_camera(self.cams, self.poses, op, True)]
            # the gradient of a projection is defined at the pose it was made with
            self.stores = {n: st for n, st in self.stores.items() if st[0] is not cam}
            return None
        if k == "pback":
            cam, st = self.stores[op[1]]
            r = gen.rs(op[2])
            n = len(self.points(0))
            d = r.uniform(-1, 1, n) if op[3] else None
            return snap(cam.project_points_backward(r.uniform(-1, 1, (n, 2)), st, depths_b=d))
        if k == "reuse":
            for a in self.given:
                a[...] = 0.1
            return None
        if k == "info":
            cam = self.cams[op[1] % len(self.cams)]
            return {"c": snap(cam.get_center()), "m": snap(cam.camera_to_world_mtx_4x4()), "x": float(cam.xfov),
                    "y": float(cam.yfov), "r": repr(cam), "w": snap(cam.world_to_camera(self.points(op[2])))}
        if k == "tools":
            from deodr import tools
            r = gen.rs(op[1])
            q, v, b = r.normal(size=4), self.points(op[1]), r.uniform(-1, 1, self.points(0).shape)
            qs = r.normal(size=(3, 4))
            u = r.normal(size=v.shape)

            calls = [0]

            def func(x):
                calls[0] += 1
                if calls[0] == op[1] % 40:
                    raise RuntimeError("the function of the client fails")
                return tools.normalize(x[None, :])[0]

            u4 = gen.image_b(op[1] + 1, (4,))
            try:
                jac = snap(tools.jacobian_finite_differences(func, u4))
                tools.check_jacobian_finite_differences(jac, func, u4)
            except RuntimeError:
                jac = calls[0]

            return {"rot": snap(tools.qrot(q, v)), "rots": snap(tools.qrot(qs, v)), "rb": snap(tools.qrot_backward(q, v, b)),
                    "n": snap(tools.normalize(v, axis=1)), "nb": snap(tools.normalize_backward(v, b, axis=1)),
                    "cb": snap(tools.cross_backward(u, v, b)), "j": jac}
        raise KeyError(k)


def camera_actor_spec(rng):
    return {"mesh": gen.mesh_spec(rng, textured=False), "cams": [gen.camera_spec(rng) for _ in range(rng.randrange(1, 4))]}


def gen_camera_ops(rng, n):
    ops, slots = [], 0
    for _ in range(n):
        x = rng.random()
        if slots == 0 or x < 0.4:
            keep = rng.random() < 0.85 or slots == 0
            ops.append(["proj", rng.randrange(3), rng.randrange(10**6), slots if keep else None])
            slots += keep
        elif x < 0.8:
            ops.append(["pback", rng.randrange(slots), rng.randrange(10**6), rng.random() < 0.5])
        else:
            ops.append(rng.choice([["info", rng.randrange(3), rng.randrange(10**6)], ["tools", rng.randrange(10**6)]]))
    return ops


KINDS["camera"] = CameraActor


class ConvertActor:
    """Converts to and from trimesh, subdivides, builds adjacencies, from arrays the client keeps."""

    def __init__(self, spec, shared=None):
        self.m = spec["mesh"]
        self.a = gen.mesh_arrays(self.m)

    def do(self, op):
        from deodr import triangulated_mesh as tm
        k = op[0]
        if k == "from":
            import trimesh
            r = gen.rs(op[1])
            v = gen.vertices_for(self.m, op[1])
            t = trimesh.Trimesh(vertices=v, faces=self.a["faces"], process=False)
            if op[2] == "texture":
                import PIL.Image
                uv = r.uniform(0, 1, (len(v), 2))
                im = PIL.Image.fromarray(r.randint(0, 255, (5, 6, 4 if op[1] % 2 else 3)).astype(np.uint8))
                t.visual = trimesh.visual.TextureVisuals(uv=uv, image=im)
            elif op[2] == "vertex":
                t.visual.vertex_colors = r.randint(0, 255, (len(v), 4)).astype(np.uint8)
            else:
                t.visual.face_colors = r.randint(0, 255, (len(t.faces), 4)).astype(np.uint8)
            m = tm.ColoredTriMesh.from_trimesh(t, compute_adjacencies=bool(op[1] % 3))
            self.mesh = m
            return {"v": snap(m.vertices), "f": snap(np.asarray(m.faces)), "uv": snap(m.uv), "t": snap(m.texture),
                    "fuv": snap(m.faces_uv), "c": snap(m.vertices_colors)}
        if k == "to":
            t = self.mesh.to_trimesh()
            return {"v": snap(np.asarray(t.vertices)), "f": snap(np.asarray(t.faces)), "uv": snap(np.asarray(t.visual.uv))}
        if k == "sub":
            s = tm.loop_subdivision(self.mesh, op[1])
            return {"v": snap(s.vertices), "f": snap(np.asarray(s.faces))}
        if k == "adj":
            a = tm.TriMeshAdjacencies(self.a["faces"], clockwise=self.m["clockwise"])
            v = gen.vertices_for(self.m, op[1])
            fn = a.compute_face_normals(v)
            vn = a.compute_vertex_normals(fn)
            b = gen.rs(op[1]).uniform(-1, 1, vn.shape)
            fb = a.compute_vertex_normals_backward(b)
            a.compute_face_normals_backward(fb)
            e, bd = a.edge_on_silhouette(v[:, :2]), a.boundary_edges()
            return {"fn": snap(fn), "vn": snap(vn), "e": snap(e), "b": snap(np.asarray(bd))}
        raise KeyError(k)


KINDS["convert"] = ConvertActor

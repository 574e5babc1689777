"""C17: the OpenGL renderer draws what it was given last."""
import gc

import numpy as np

from .. import gen
from ..engine import digest, list_drops, outcome
from .common import Base, reference

SEAMS = ("texture", "buffer", "vertex_array", "framebuffer", "renderbuffer", "depth_renderbuffer")


def _texture(seed, h, w):
    t = gen.rs(seed).uniform(0, 1, (h, w, 3))
    t.flags.writeable = False
    return t


def _mesh(spec):
    """spec: mesh spec, and the seed and size of its texture."""
    from deodr.triangulated_mesh import ColoredTriMesh
    m = spec["mesh"]
    v, f = gen.vertices_for(m), gen.base_mesh(m["kind"])[1]
    h, w = spec["tex"][1:]
    r = gen.rs(spec["uv"])
    nuv = int(f.max()) + 1
    uv = r.uniform(0, 1, (nuv, 2)) * np.array([w - 1, h - 1])
    fuv = f if spec["uv"] % 2 else f[::-1].copy()
    return ColoredTriMesh(f, v, faces_uv=fuv, uv=uv, texture=_texture(*spec["tex"]))


def _light(seed):
    r = gen.rs(seed)
    return r.uniform(-0.6, 0.6, 3), float(r.uniform(0.1, 0.5))


def _scene(mesh, s):
    from deodr.differentiable_renderer import Scene3D
    sc = Scene3D(integer_pixel_centers=s["ipc"])
    sc.set_mesh(mesh)
    sc.set_light(*_light(s["light"]))
    sc.set_background_color(gen.rs(s["bg"]).uniform(0, 1, 3))
    return sc


def _camera(c, moves=()):
    cam = gen.make_camera(c, gen.vertices_for({"kind": "tetra", "seed": 0}))
    for m in moves:
        _move(cam, m)
    return cam


def _move(cam, seed):
    """The client moves its camera, in place or by giving it another matrix."""
    r = gen.rs(seed)
    if seed % 4 == 0:
        cam.extrinsic[2, 3] += r.uniform(0.1, 0.6)
    elif seed % 4 == 1:
        e = np.array(cam.extrinsic)
        e[:, 3] += r.uniform(-0.2, 0.2, 3)
        cam.extrinsic = e
    elif seed % 4 == 2:
        cam.intrinsic[0, 0] *= r.uniform(0.8, 1.2)
    else:
        cam.intrinsic = np.array(cam.intrinsic) * np.array([[r.uniform(0.8, 1.2), 1, 1], [1, 1, 1], [1, 1, 1]])


def _new():
    from deodr.opengl.moderngl import OffscreenRenderer
    return OffscreenRenderer()


def _fresh(want, cam, moves):
    """The image of a new renderer. want: what the renderer was given last."""
    r = _new()
    r.set_scene(_scene(_mesh(want["scene"]["m"]), want["scene"]))
    if want.get("mesh"):
        r.set_mesh(_mesh(want["mesh"]))
    if want.get("light") is not None:
        r.set_light(*_light(want["light"]))
    if want.get("tex"):
        r.set_texture(_texture(*want["tex"]))
    return np.array(r.render(_camera(cam, moves)))


def offscreen():
    """OpenGL without a display."""
    import moderngl
    create = moderngl.create_context

    def context(require=None, **k):
        return create(require=require, standalone=True, backend="egl")

    moderngl.create_standalone_context = context
    moderngl.create_context = context
    import deodr.opengl.moderngl  # noqa


class GlActor:
    """Hands scenes to an off-screen renderer and lets it draw; all clients of a process share the renderer."""

    renderer = None

    def __init__(self, spec, shared=None):
        if GlActor.renderer is None:
            GlActor.renderer = _new()
        self.r = GlActor.renderer
        self.scenes = [_scene(_mesh(s["m"]), s) for s in spec["scenes"]]
        self.cams = [_camera(c) for c in spec["cams"]]
        self.r.set_scene(self.scenes[0])

    def do(self, op):
        k = op[0]
        if k == "scene":
            self.r.set_scene(self.scenes[op[1] % len(self.scenes)])
        elif k == "mesh":
            self.r.set_mesh(_mesh(op[1]))
        elif k == "light":
            self.r.set_light(*_light(op[1]))
        elif k == "tex":
            self.r.set_texture(_texture(*op[1]))
        else:
            return np.array(self.r.render(self.cams[op[1] % len(self.cams)]))


def gen_gl(rng, n):
    p = PROP.gen(rng, "quick")
    ops = []
    for o in p["ops"]:
        if o[0] in ("scene", "mesh", "light", "tex", "render"):
            ops.append([o[0], o[2]])
    return {"kind": "gl", "spec": {"scenes": p["scenes"], "cams": p["cams"]}, "ops": ops[-n:]}


class GlFault:
    """The n-th request for an OpenGL resource (or the read-back) fails."""

    def __init__(self, at, length):
        self.at, self.len, self.n, self.failed = at, length, 0, 0

    def __enter__(self):
        import moderngl
        self.mg = moderngl
        self.saved = [(c, n, getattr(c, n)) for c, n in [(moderngl.Context, s) for s in SEAMS] +
                      [(moderngl.Framebuffer, "read")]]

        def wrap(f):
            def g(*a, **k):
                i = self.n
                self.n += 1
                if self.at <= i < self.at + self.len:
                    self.failed += 1
                    raise moderngl.Error("injected: out of memory")
                return f(*a, **k)
            return g

        for c, n, f in self.saved:
            setattr(c, n, wrap(f))
        return self

    def __exit__(self, *a):
        for c, n, f in self.saved:
            setattr(c, n, f)
        return False


class Prop(Base):
    ID = "C17"
    QUICK_RUNS = 700
    QUICK_WALL = 150
    THOROUGH_RUNS = 20000
    RULE = ("a run is one seeded history of 4-14 operations on one to three off-screen renderers alive in one process: "
            "scenes, meshes, lights and textures handed over and dropped, views rendered with cameras of different "
            "sizes, distortions and pixel conventions, moved in between, with requests for OpenGL resources failing and repeated; every "
            "image is compared with that of a new renderer, in a pristine process, given only the current scene. "
            "Non-trivial: an image was rendered after something else had been.")
    STATE_MEASURE = "distinct histories of (operation kinds, renderers, outcomes)"
    COMPONENTS = {"real": ["deodr OpenGL renderer and shaders", "moderngl", "Mesa llvmpipe software rasterizer (single-threaded)"],
                  "stub": ["context creation (EGL without a display instead of X11)", "answers to failing resource requests"]}
    ASSUMPTIONS = Base.ASSUMPTIONS[:1] + ["images are compared exactly", "the OpenGL implementation is Mesa's software "
                                          "rasterizer"]

    def setup(self):
        offscreen()

    def gen(self, rng, tier):
        sizes = [[rng.randrange(2, 9), rng.randrange(2, 9)] for _ in range(2)]

        def mesh():
            return {"mesh": gen.mesh_spec(rng, textured=False), "tex": [rng.randrange(10**6)] + rng.choice(sizes),
                    "uv": rng.randrange(10**6)}

        def cam():
            c = gen.camera_spec(rng)
            c["w"], c["h"] = rng.randrange(10, 40), rng.randrange(10, 40)
            if rng.random() < 0.5 and cams:
                c["w"], c["h"] = cams[0]["w"], cams[0]["h"]
            return c

        cams = []
        for _ in range(rng.randrange(1, 4)):
            cams.append(cam())
        scenes = [{"m": mesh(), "ipc": rng.random() < 0.6, "light": rng.randrange(10**6), "bg": rng.randrange(10**6)}
                  for _ in range(rng.randrange(1, 4))]
        nr = rng.choice([1, 1, 2, 2, 3])
        ops, given = [], set()
        n = rng.randrange(4, 15)
        while len(ops) < n:
            r, x = rng.randrange(nr), rng.random()
            if rng.random() < 0.08:
                ops.append(["move", rng.randrange(len(cams)), rng.randrange(10**6)])
            if r not in given or x < 0.25:
                ops.append(["scene", r, rng.randrange(len(scenes))])
                given.add(r)
            elif x < 0.6:
                ops.append(["render", r, rng.randrange(len(cams))])
            elif x < 0.72:
                ops.append(["light", r, rng.randrange(10**6)])
            elif x < 0.82:
                ops.append(["mesh", r, mesh()])
            elif x < 0.88:
                ops.append(["tex", r, [rng.randrange(10**6)] + rng.choice(sizes)])
            elif x < 0.94:
                ops.append(["change", rng.randrange(len(scenes)), rng.choice(["light", "bg", "ipc", "verts", "m"]),
                            rng.randrange(10**6), mesh()])
            else:
                ops.append(["drop", rng.randrange(len(scenes))])
        ops.append(["render", ops[-1][1] if ops[-1][0] in ("scene", "mesh", "light", "tex") else min(given),
                    rng.randrange(len(cams))])
        faults = [[rng.randrange(len(ops)), rng.randrange(6), rng.choice([1, 1, 2, 100])]
                  for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))]
        return {"cams": cams, "scenes": scenes, "ops": ops, "faults": faults}

    def execute(self, plan):
        import copy
        specs = copy.deepcopy(plan["scenes"])
        scenes = [None] * len(specs)
        rend, want = {}, {}
        fa = {f[0]: f for f in plan["faults"]}
        hist, seen, stats, nt = [], [], {"sim_steps": len(plan["ops"])}, False
        cams = [_camera(c) for c in plan["cams"]]
        done, moves = {}, [[] for _ in cams]

        def inc(k):
            stats[k] = stats.get(k, 0) + 1

        for i, op in enumerate(plan["ops"]):
            k = op[0]
            if k == "change":
                s, what, v = specs[op[1]], op[2], op[3]
                sc = scenes[op[1]]
                if what == "light":
                    s["light"] = v
                    if sc:
                        sc.set_light(*_light(v))
                elif what == "bg":
                    s["bg"] = v
                    if sc:
                        sc.set_background_color(gen.rs(v).uniform(0, 1, 3))
                elif what == "ipc":
                    s["ipc"] = bool(v % 2)
                    if sc:
                        sc.integer_pixel_centers = s["ipc"]
                elif what == "m":
                    s["m"] = op[4]
                    if sc:
                        sc.set_mesh(_mesh(op[4]))
                else:
                    s["m"] = {**s["m"], "mesh": {**s["m"]["mesh"], "seed": v}}
                    if sc:
                        sc.mesh.set_vertices(gen.vertices_for(s["m"]["mesh"]))
                hist.append("c" + what)
                continue
            if k == "move":
                _move(cams[op[1]], op[2])
                moves[op[1]].append(op[2])
                hist.append("v")
                continue
            if k == "drop":  # the arrays of the scene go away; what comes next may be given the same memory
                scenes[op[1]] = None
                gc.collect()
                hist.append("x")
                continue
            r = op[1]
            if r not in rend:
                rend[r] = _new()
            if k == "scene":
                j = op[2] % len(specs)
                if scenes[j] is None:
                    scenes[j] = _scene(_mesh(specs[j]["m"]), specs[j])
                do = (lambda: rend[r].set_scene(scenes[j]))
                new = {"scene": copy.deepcopy(specs[j])}
            elif r not in want:
                continue
            elif k == "mesh":
                do = (lambda m=_mesh(op[2]): rend[r].set_mesh(m))
                new = {**want[r], "mesh": op[2], "tex": None}
            elif k == "light":
                do = (lambda: rend[r].set_light(*_light(op[2])))
                new = {**want[r], "light": op[2]}
            elif k == "tex":
                # the coordinates handed over with the mesh are relative to the size of its texture
                do = (lambda t=_texture(*op[2]): rend[r].set_texture(t))
                new = {**want[r], "tex": op[2]}
            else:
                do = (lambda: np.array(rend[r].render(cams[op[2]])))
                new = want[r]
            got = None
            if i in fa:
                with GlFault(*fa[i][1:]) as f:
                    try:
                        got = do()
                    except BaseException as e:  # noqa
                        if "injected" not in str(e):
                            return outcome({"sig": "other-exception", "msg": f"operation {i} {op}: {type(e).__name__}: {e}, "
                                            "when a request for a resource failed"}, stats, " ".join(hist), nt)
                        got = "failed"
                if f.failed:
                    inc("fault:opengl_" + k)
                    hist.append(k[0] + "!")
                if isinstance(got, str):
                    got = None
                    try:
                        got = do()
                    except BaseException as e:  # noqa
                        return outcome({"sig": "retry-failed:" + k, "msg": f"operation {i} {op} repeated after a failed "
                                        f"request: {type(e).__name__}: {e}"}, stats, " ".join(hist), nt)
            else:
                try:
                    got = do()
                except Exception as e:
                    return outcome({"sig": "raised:" + k, "msg": f"operation {i} {op}: {type(e).__name__}: {e}"}, stats,
                                   " ".join(hist), nt)
            want[r] = new
            hist.append(f"{k[0]}{r}")
            if k == "render":
                key = repr((new, op[2], moves[op[2]]))
                if key not in done:
                    e = reference(_fresh, new, plan["cams"][op[2]], moves[op[2]])
                    if e[0] == "dead":
                        return outcome({"sig": "process-died", "msg": f"view {op} by a new renderer: process {e[1]}"}, stats)
                    done[key] = e[1]
                e = done[key]
                seen.append(got)
                inc("compared")
                if got.shape != e.shape or not np.array_equal(got, e):
                    what = (f"{int(np.sum(got != e))} of {got.size} values differ" if got.shape == e.shape else
                            f"shape {got.shape} instead of {e.shape}")
                    return outcome({"sig": "image-differs", "msg": f"operation {i} {op}: {what} from a new renderer with "
                                    "the same scene and camera"}, stats, " ".join(hist), nt, digest(seen))
                inc("probe:renderers_alive_%d" % len(rend))
                nt = nt or len(hist) > 2
        return outcome(None, stats, " ".join(hist), nt, digest([seen, hist]))

    def reduce(self, plan):
        for f in list_drops(plan["faults"]):
            yield {**plan, "faults": f}
        for i in reversed(range(len(plan["ops"]))):
            if len(plan["ops"]) > 1:
                yield {**plan, "ops": plan["ops"][:i] + plan["ops"][i + 1:],
                       "faults": [[f[0] - (f[0] > i)] + f[1:] for f in plan["faults"] if f[0] != i]}


PROP = Prop()

"""C18: the interactive viewer shows what its controls select."""
import gc
import os
import pickle
import types

import numpy as np

from .. import gen, shim
from ..cmp import diff
from ..engine import digest, list_drops, outcome
from . import c17
from .common import Base, NativeFault, Scratch, reference

KEYS = "rrrplllaaadssttthxcc"
LBUTTON, RBUTTON, MBUTTON, CTRL, SHIFT = 1, 2, 4, 8, 16
RED = np.array([0, 0, 255])


class Stuck(Exception):
    pass


class Window:
    """Window system, video encoder and clock of a viewer. Each call to waitKey delivers the events of one frame."""

    def __init__(self, frames, gl=None):
        import cv2
        self.real = cv2
        self.frames = frames
        self.at = 0  # frames delivered
        self.open = False
        self.size = None
        self.cb = None
        self.now = 100.0
        self.shown = []
        self.writers = []
        self.on_show = None
        self.on_key = None

    # what the viewer calls
    def __getattr__(self, name):
        return getattr(self.real, name)

    def namedWindow(self, name, flags=0):
        self.open = True

    def resizeWindow(self, name, w, h):
        if self.size is None:
            self.size = [w, h]

    def setMouseCallback(self, name, cb, param=None):
        self.cb = cb

    def getWindowProperty(self, name, prop):
        return 0.0 if self.open else -1.0

    def getWindowImageRect(self, name):
        return (0, 0, self.size[0], self.size[1]) if self.open else (-1, -1, -1, -1)

    def destroyWindow(self, name):
        self.open = False

    def destroyAllWindows(self):
        self.open = False

    def imshow(self, name, image):
        self.shown.append(np.array(image))
        if self.on_show:
            self.on_show(self.shown[-1])

    def waitKey(self, delay=0):
        if self.at >= len(self.frames):
            self.open = False
            return -1
        f = self.frames[self.at]
        self.at += 1
        self.now += f["dt"]
        if f.get("size"):
            self.size = list(f["size"])
        for e in f["mouse"]:
            self.cb(*e, None)
        k = f.get("key")
        if k is None:
            return -1
        if self.on_key:
            self.on_key(k)
        return ord(k)

    waitKeyEx = waitKey

    def pollKey(self):
        return self.waitKey(1)

    def VideoWriter(self, path, fourcc, fps, size, *a):
        w = Writer(path, tuple(size))
        self.writers.append(w)
        return w

    def VideoWriter_fourcc(self, *a):
        return self.real.VideoWriter.fourcc(*a)

    def perf_counter(self):
        return self.now

    def install(self):
        import deodr.examples.mesh_viewer as mv
        mv.cv2 = self
        t = types.ModuleType("time")
        import time
        t.__dict__.update({k: v for k, v in vars(time).items() if not k.startswith("__")})
        t.perf_counter = t.monotonic = t.time = self.perf_counter
        mv.time = t
        return mv


class Writer:
    """Like the real one, it silently ignores images of another size."""

    fourcc = None

    def __init__(self, path, size):
        self.path, self.size, self.released = path, size, False
        self.frames, self.dropped = [], 0
        for _ in range(9):
            try:
                open(path, "ab").close()
                break
            except OSError:
                pass

    def isOpened(self):
        return not self.released

    def write(self, image):
        if self.released:
            self.dropped += 1
        elif (image.shape[1], image.shape[0]) != self.size or image.dtype != np.uint8:
            self.dropped += 1
        else:
            self.frames.append(np.array(image))

    def release(self):
        self.released = True


def _mesh(s):
    if s["textured"]:
        return c17._mesh(s["m"])
    from deodr.triangulated_mesh import ColoredTriMesh
    m = s["m"]["mesh"]
    v, f = gen.vertices_for(m), gen.base_mesh(m["kind"])[1]
    return ColoredTriMesh(f, v, colors=gen.rs(s["m"]["uv"]).uniform(0.1, 1, (len(v), 3)), nb_colors=3)


def _viewer(mv, s, gl):
    r = gen.rs(s["light"])
    return mv.Viewer(_mesh(s), display_texture_map=False, width=s["w"], height=s["h"], display_fps=s["fps"],
                     title="simulated", use_moderngl=gl, light_directional=tuple(r.uniform(-0.3, 0.3, 3)),
                     light_ambient=float(r.uniform(0.2, 0.4)), background_color=tuple(r.uniform(0, 1, 3)),
                     use_antialiasing=s["aa"], use_light=s["lit"])


def _cam(c):
    return {"extrinsic": np.array(c.extrinsic, copy=True), "intrinsic": np.array(c.intrinsic, copy=True), "width": int(c.width), "height": int(c.height)}


def _cameras(s, frames):
    """The camera of a new viewer at every image, given only what the mouse, the window and the mode key do."""
    quiet = []
    for f in frames:
        f = {**f, "dt": 0.04, "key": f["key"] if f.get("key") in ("t", "c") else None}
        if f.get("size") and 0 in f["size"]:
            f["size"] = None
        quiet.append(f)
    w = Window(quiet)
    mv = w.install()
    cur, out = [None], {}
    w.on_show = lambda im: out.update({w.at: _cam(cur[0].camera)})

    def new():
        # a recentered viewer is like a new one
        wh = w.size or [s["w"], s["h"]]
        v = _viewer(mv, {**s, "w": wh[0], "h": wh[1]}, False)
        v.start(print_help=False, loop=False)
        v.register_key("c", new)
        cur[0] = v

    new()
    while w.open:
        cur[0].refresh()
    return out


def _views(s, items):
    """Images of new scenes. items: (OpenGL, lit, antialiased, perspective correct, camera)"""
    from deodr.differentiable_renderer import Camera, Scene3D
    r = gen.rs(s["light"])
    d, a, bg = r.uniform(-0.3, 0.3, 3), float(r.uniform(0.2, 0.4)), tuple(r.uniform(0, 1, 3))
    out = []
    for gl, lit, aa, persp, c in items:
        sc = Scene3D(sigma=1.0 if aa else 0.0, perspective_correct=persp)
        sc.set_mesh(_mesh(s))
        sc.set_light(*((d, a) if lit else (np.zeros(3), 1.0)))
        sc.set_background_color(bg)
        cam = Camera(extrinsic=c["extrinsic"], intrinsic=c["intrinsic"], width=c["width"], height=c["height"],
                     distortion=[0, 0, 0, 0, 0])
        if gl:
            g = c17._new()
            g.set_scene(sc)
            im = np.array(g.render(cam))
        else:
            im = (sc.render(cam) * 255).astype(np.uint8)
        out.append(im[:, :, ::-1])
    return out


class Prop(Base):
    ID = "C18"
    SHIM = True
    QUICK_RUNS = 700
    QUICK_WALL = 150
    THOROUGH_RUNS = 20000
    RULE = ("a run is one seeded session of 4-24 frames with a viewer: key presses (one of them registered by the program to recentre the camera), mouse drags with buttons and modifier "
            "keys, window resizes and minimisation, a clock that stands still or jumps, and failing rendering, graphics "
            "resources and files. Every image shown is compared with that of a new scene in a pristine process for the "
            "selected renderer, lights, antialiasing and texture mapping, every camera with that of a new viewer that "
            "only met the mouse and the window, every recording with the images shown meanwhile. Non-trivial: a control "
            "was used and an image shown afterwards.")
    STATE_MEASURE = "distinct sessions of (keys, mouse modes, sizes, failures)"
    TIME_UNIT = "frames of the simulated window system"
    COMPONENTS = {"real": ["deodr viewer and interactor", "deodr renderers", "moderngl", "Mesa llvmpipe software rasterizer",
                           "OpenCV drawing functions"],
                  "stub": ["window system (windows, mouse, keyboard) and its event loop", "clock", "video encoder",
                           "answers to failing resource requests and file operations"]}
    ASSUMPTIONS = Base.ASSUMPTIONS[:1] + ["images are compared up to one grey level, outside what is drawn over them"]

    def setup(self):
        c17.offscreen()
        shim.prepare()
        import deodr.examples.mesh_viewer  # noqa

    def gen(self, rng, tier):
        # Sessions that do not meet the recorded findings (known_findings.jsonl): no window without area, a clock that
        # does not stand still, lights and antialiasing on at the start, lights not switched once OpenGL was in use,
        # no failing set-up of OpenGL, no change of size while recording, recordings stopped before the window is
        # closed, either recentring or the mouse. The findings have sessions of their own.
        textured = rng.random() < 0.75
        s = {"m": {"mesh": gen.mesh_spec(rng, textured=False), "tex": [rng.randrange(10**6), rng.randrange(2, 9), rng.randrange(2, 9)],
                   "uv": rng.randrange(10**6)}, "textured": textured, "light": rng.randrange(10**6),
             "w": rng.randrange(20, 60), "h": rng.randrange(20, 60), "fps": rng.random() < 0.3, "aa": True,
             "lit": True, "gl": textured and rng.random() < 0.35, "loop": rng.random() < 0.5}
        frames, down, x, y = [], 0, 10, 10
        last = [s["w"], s["h"]]
        sizes = [last]
        hands = rng.random() < 0.8
        used_gl = s["gl"]
        recording = False
        for _ in range(rng.randrange(4, 25)):
            f = {"dt": rng.choice([0.04] * 6 + [-0.5, 1e-3, 1e6]), "mouse": [], "key": None}
            if not recording and rng.random() < 0.18:
                x0 = rng.random()
                # a window turned by a quarter, one restored to an earlier size, or any other
                f["size"] = (last[::-1] if x0 < 0.3 else rng.choice(sizes) if x0 < 0.5 else
                             [rng.randrange(8, 60), rng.randrange(8, 60)])
                last = f["size"]
                sizes.append(last)
            if hands:
                mod = rng.choice([0, 0, 0, CTRL, SHIFT])
                for _ in range(rng.choice([0, 0, 1, 2, 4])):
                    x, y = x + rng.randrange(-20, 21), y + rng.randrange(-20, 21)
                    if down and rng.random() < 0.3:
                        f["mouse"].append([{LBUTTON: 4, RBUTTON: 5, MBUTTON: 6}[down], x, y, mod])
                        down = 0
                    elif not down and rng.random() < 0.5:
                        down = rng.choice([LBUTTON, LBUTTON, RBUTTON, MBUTTON])
                        f["mouse"].append([{LBUTTON: 1, RBUTTON: 2, MBUTTON: 3}[down], x, y, down | mod])
                    else:
                        f["mouse"].append([0, x, y, down | mod])
            if rng.random() < 0.5:
                k = rng.choice(KEYS)
                if not (k == "c" and hands or k == "r" and not textured or k == "l" and used_gl or
                        k == "s" and "size" in f):
                    f["key"] = k
                if f["key"] == "r":
                    used_gl = True
                recording ^= f["key"] == "s"
            frames.append(f)
        frames.append({"dt": 0.04, "mouse": [], "key": "s" if recording else None})
        frames.append({"dt": 0.04, "mouse": [], "key": None, "size": [rng.randrange(20, 60), rng.randrange(20, 60)]})
        frames.append({"dt": 0.04, "mouse": [], "key": None})
        faults = []
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            i = rng.randrange(len(frames))
            k = rng.choice(["gl", "gl", "native", "file"])
            at = [j for j, f in enumerate(frames) if f["key"] == "d"]
            if at and k == "file" and rng.random() < 0.8:
                i = rng.choice(at)
            if frames[i]["key"] == {"gl": "r", "file": "s"}.get(k, ""):
                continue
            faults.append([i, k, rng.randrange(6)] if k != "native" else
                          [i, k, rng.choice(["before", "after"]), rng.choice(["MemoryError", "KeyboardInterrupt"])])
        return {"spec": s, "frames": frames, "faults": faults}

    def execute(self, plan):
        with Scratch() as d:
            here = os.getcwd()
            os.chdir(d)
            try:
                return self._execute(plan, d)
            finally:
                os.chdir(here)

    def _execute(self, plan, scratch):
        s, frames = plan["spec"], plan["frames"]
        stats = {"sim_steps": len(frames)}
        hist = ["gl" if s["gl"] else "cpu"]

        def inc(k):
            stats[k] = stats.get(k, 0) + 1

        def bad(sig, msg):
            return outcome({"sig": sig, "msg": msg}, stats, " ".join(hist), True, digest(hist))

        r = reference(_cameras, s, frames)
        if r[0] == "dead":
            return bad("process-died", f"a viewer that only meets the mouse and resizes: process {r[1]}")
        cameras = r[1]
        w = Window(frames)
        mv = w.install()
        v = _viewer(mv, s, s["gl"])
        v.register_key("c", v.recenter_camera)
        st = {"gl": s["gl"], "lit": s["lit"], "aa": s["aa"], "persp": False}
        fa = {}
        for f in plan["faults"]:
            fa.setdefault(f[0], f)
        items, got, rec, saved, pending = [], [], [], [], [None]
        active = None

        def on_show(im):
            items.append((w.at, dict(st), _cam(v.camera)))
            got.append(im)
            if active is not None:
                active["shown"].append(len(items) - 1)

        def apply(k):
            """The key has been handled without a failure."""
            nonlocal active
            if k == "r":
                st["gl"] = not st["gl"]
            elif k == "l":
                st["lit"] = not st["lit"]
            elif k == "a" and not st["gl"]:
                st["aa"] = not st["aa"]
            elif k == "p" and not st["gl"]:
                st["persp"] = not st["persp"]
            elif k == "s":
                if active is None:
                    active = {"writer": w.writers[-1] if w.writers else None, "shown": []}
                    rec.append(active)
                else:
                    active = None
            elif k == "d":
                with open("scene.pickle", "rb") as f:
                    sc = pickle.load(f)
                with open("camera.pickle", "rb") as f:
                    cam = pickle.load(f)
                im = (sc.render(cam) * 255).astype(np.uint8)[:, :, ::-1]
                saved.append((len(got), im, _cam(cam), dict(st), _cam(v.camera)))
            inc("probe:key_" + k)

        def settle():
            k, pending[0] = pending[0], None
            if k is not None:
                hist.append(k)
                apply(k)

        def after(at):
            """Bookkeeping once a frame has passed without a failure."""
            if pending[0] == "r" and not s["textured"]:
                # an untextured mesh cannot be drawn by the other renderer: refusing is as good as raising
                pending[0] = None
                hist.append("r-")
            settle()
            if w.at == at:
                idle.append(at)
                if idle.count(at) > 3:
                    raise Stuck()
                return
            f = frames[at]
            if f.get("size"):
                hist.append("z" if 0 in f["size"] else "R")
                inc("fault:minimised" if 0 in f["size"] else "probe:resized")
            if f["dt"] <= 0:
                inc("fault:clock_not_advancing")
            if f["mouse"]:
                hist.append("m" + "".join(str(e[0]) for e in f["mouse"]))

        w.on_show, w.on_key = on_show, lambda k: pending.__setitem__(0, k)
        v.start(print_help=False, loop=False)
        idle, refresh = [], v.refresh

        def hooked():
            at = w.at
            refresh()
            if w.at <= len(frames) and w.open:
                after(at)

        while w.open:
            at, f, ctx = w.at, fa.pop(w.at, None), None
            if f:
                ctx = (c17.GlFault(f[2], 1) if f[1] == "gl" else NativeFault({0: f[2]}, f[3]) if f[1] == "native" else
                       shim.Fs(scratch, [[f[2], "err", 28]]))
            fired = False
            try:
                if ctx:
                    try:
                        with ctx:
                            refresh()
                    finally:
                        fired = bool(getattr(ctx, "fired", 0) or getattr(ctx, "failed", 0))
                        if fired:
                            inc("fault:" + f[1])
                    after(at)
                elif s["loop"] and not fa:
                    v.refresh = hooked
                    v.start(print_help=False, loop=True)  # the viewer's own loop
                else:
                    hooked()
            except Stuck:
                return bad("viewer-stuck", f"frame {at}: no more events are taken; session {' '.join(hist)}")
            except BaseException as e:  # noqa
                if isinstance(e, (SystemExit, GeneratorExit)):
                    raise
                k, pending[0] = pending[0], None
                if not fired and not (k == "r" and not s["textured"]):
                    return bad("viewer-failed:" + (k or "image"), f"frame {at}, key {k!r}: {type(e).__name__}: {e}; "
                               f"session {' '.join(hist)}")
                hist.append((k or "image") + "!")
        # images
        r = reference(_views, s, [(i["gl"], i["lit"], i["aa"], i["persp"], c) for _, i, c in items] +
                      [(False, i["lit"], i["aa"], i["persp"], c) for *_, i, c in saved])
        if r[0] == "dead":
            return bad("process-died", f"views of new scenes: process {r[1]}")
        exp = r[1]
        if not items:
            return bad("nothing-shown", f"no image was shown in {len(frames)} frames; session {' '.join(hist)}")
        for n, ((at, i, c), g, e) in enumerate(zip(items, got, exp)):
            x = cameras.get(at)
            if x is not None:
                d = diff(c, x, 1e-7)
                if d:
                    return bad("camera-differs", f"image {n} (frame {at}): camera{d} from that of a viewer that only met the mouse "
                               f"and the window; session {' '.join(hist)}")
            if g.shape != e.shape:
                return bad("image-differs", f"image {n} (frame {at}): shape {g.shape}, expected {e.shape}")
            off = (np.abs(g.astype(int) - e.astype(int)) > 1).any(axis=2)
            if s["fps"] or any(n in k["shown"] for k in rec):
                off &= ~(g == RED).all(axis=2)
            if off.any():
                return bad("image-differs", f"image {n} (frame {at}): {int(off.sum())} of {off.size} pixels differ from a new scene "
                           f"with {i}; session {' '.join(hist)}")
            inc("compared_images")
        for n, im, c, i, x in saved:
            if diff(c, x):
                return bad("saved-camera-differs", f"saved after image {n}: camera{diff(c, x)}")
        for (n, im, c, i, x), e in zip(saved, exp[len(items):]):
            if im.shape != e.shape or (np.abs(im.astype(int) - e.astype(int)) > 1).any():
                return bad("saved-scene-differs", f"the scene saved after image {n} gives another image than a new scene with {i}")
        for k in rec:
            wr = k["writer"]
            if wr is None:
                continue
            if wr.dropped or len(wr.frames) != len(k["shown"]):
                return bad("recording-incomplete", f"{len(k['shown'])} images shown while recording, {len(wr.frames)} recorded, "
                           f"{wr.dropped} ignored by the encoder; session {' '.join(hist)}")
            for fr, n in zip(wr.frames, k["shown"]):
                e = exp[n]
                if fr.shape == e.shape and (np.abs(fr.astype(int) - e.astype(int)) > 1).any():
                    return bad("recording-differs", f"recorded image {n} is not the image of the scene; session {' '.join(hist)}")
            if k is not active and not wr.released:
                return bad("recording-open", f"a stopped recording was not closed; session {' '.join(hist)}")
            if s["loop"] and not wr.released:
                return bad("recording-open", f"the recording was not closed with the window; session {' '.join(hist)}")
            inc("probe:recordings")
        nt = len(hist) > 2
        gc.collect()
        return outcome(None, stats, " ".join(hist), nt, digest([hist, got, [c for _, _, c in items]]))

    def reduce(self, plan):
        for f in list_drops(plan["faults"]):
            yield {**plan, "faults": f}
        fr = plan["frames"]
        for i in reversed(range(len(fr))):
            if len(fr) > 1:
                yield {**plan, "frames": fr[:i] + fr[i + 1:],
                       "faults": [[f[0] - (f[0] > i)] + f[1:] for f in plan["faults"] if f[0] != i]}
        for i, f in enumerate(fr):
            for ch in ({"mouse": []}, {"key": None}, {"size": None}, {"dt": 0.04}):
                if {**f, **ch} != f:
                    yield {**plan, "frames": fr[:i] + [{**f, **ch}] + fr[i + 1:]}
        for ch in ({"fps": False}, {"loop": False}, {"w": 30}, {"h": 24}, {"gl": False}, {"lit": True}, {"aa": True}):
            if {**plan["spec"], **ch} != plan["spec"]:
                yield {**plan, "spec": {**plan["spec"], **ch}}


PROP = Prop()

"""C04: a failing or rejected pass is an exception, and nothing more."""
from .. import actors, gen, shim
from ..cmp import diff
from ..engine import digest, list_drops, outcome
from .common import Base, mismatch, reference, small_specs


def _last(kind, spec, ops):
    a = actors.KINDS[kind](spec)
    r = None
    for op in ops:
        r = actors.attempt(a, op)
    return r


def _inputs(a):
    """The arrays the caller gave to the scene."""
    import numpy as np
    out = {}
    objs = [("scene", a.scene)]
    if hasattr(a, "meshes"):
        objs += [(f"mesh{j}", m) for j, m in enumerate(a.meshes)] + [(f"cam{j}", c) for j, c in enumerate(a.cams)]
    names = ("faces", "faces_uv", "ij", "depths", "textured", "uv", "shade", "colors", "shaded", "edgeflags", "texture",
             "background_image", "background_color", "light_directional", "vertices", "vertices_colors", "extrinsic",
             "intrinsic", "distortion", "_faces", "_faces_uv")
    for n, o in objs:
        for k in names:
            if n == "scene" and len(objs) > 1 and k not in ("background_image", "background_color", "light_directional"):
                continue
            v = getattr(o, k, None)
            if isinstance(v, np.ndarray):
                out[n + "." + k] = v.copy()
    return out


class _InNative(shim.NewFault):
    """Fails the n-th operator new counted inside calls of the native engine only."""

    def __enter__(self):
        import deodr.differentiable_renderer_cython as c
        self.c, self.saved = c, (c.renderSceneCpp, c.renderSceneBCpp)
        v = self.v
        super().__enter__()
        v["shim_new_armed"].value = 0

        def wrap(f):
            def g(*x, **k):
                v["shim_new_armed"].value = 1
                try:
                    return f(*x, **k)
                finally:
                    v["shim_new_armed"].value = 0
            return g

        c.renderSceneCpp, c.renderSceneBCpp = wrap(self.saved[0]), wrap(self.saved[1])
        return self

    def __exit__(self, *a):
        self.c.renderSceneCpp, self.c.renderSceneBCpp = self.saved
        return super().__exit__(*a)


def _bad_2d(a, op):
    """A pass that must be rejected. op: ["bad", what, how, seed]."""
    import numpy as np
    s, (_, what, how, seed) = a.scene, op
    h, w, c = a.shape
    shape = {"rows": (h + 1, w, c), "cols": (h, w + 1, c), "chan": (h, w, c + 1), "less": (h, w, c - 1),
             "dim": (h, w), "long": (h * 2, w, c), "f4": (h, w, c), "str": (h, w, c), "none": (h, w, c)}[how]
    im = gen.image_b(seed, shape)
    if how == "f4":
        im = im.astype(np.float32)
    elif how == "str":
        im = "image"
    elif how == "none":
        im = None
    if what == "back":
        s.render_backward(im)
    elif what == "rerr":
        s.render_error(im, 1.0)
    elif what == "rcb":
        s.render_compare_and_backward(im, sigma=1.0)
    elif what == "sigma":
        s.render("wide")
    elif what == "backe":
        s.render_error_backward(im if how in ("f4", "str", "none") else gen.image_b(seed, shape[:2] + (1,)))


class Prop(Base):
    ID = "C04"
    SHIM = True
    QUICK_RUNS = 4000
    QUICK_WALL = 150
    THOROUGH_RUNS = 60000
    RULE = ("a run is one seeded history of 3-10 operations on one scene in which 1-4 passes fail: the n-th native "
            "allocation, the n-th large Python or NumPy allocation, or the input is one the engine has to reject. Each "
            "failed pass is retried at once without the fault. Non-trivial: at least one pass failed.")
    STATE_MEASURE = "distinct histories of (operation kinds, fault kinds, outcomes)"
    COMPONENTS = {"real": ["deodr Python package", "native engine built from /repo", "numpy", "scipy"],
                  "stub": ["allocator answers (operator new, and malloc of at least 600 bytes)"]}

    def setup(self):
        shim.prepare()

    def gen(self, rng, tier):
        kind = rng.choice(["scene2d", "scene2d", "scene3d"])
        n = rng.randrange(3, 11)
        if kind == "scene2d":
            spec = gen.scene2d_spec(rng)
            spec["pc"] = rng.random() < 0.08
            spec["cull"] = rng.random() < 0.92
            ops = actors.gen_scene2d_ops(rng, n)
            for o in ops:
                if o[0] in ("back", "backe"):
                    o[2] = True  # without copies the image is consumed by a pass that fails
            out = []
            for o in ops:
                out.append(o)
                if rng.random() < 0.12:
                    what = rng.choice(["back", "back", "rerr", "rcb", "sigma", "backe"])
                    how = rng.choice(["rows", "cols", "chan", "less", "dim", "long", "str", "none"] +
                                     (["f4"] if what in ("back", "backe") else []))
                    # a rejected forward pass leaves backward passes unspecified: only before another forward pass
                    out.append(["bad", what, how, rng.randrange(10**6)])
            ops = out
        else:
            spec = actors.scene3d_spec(rng, textured=None if rng.random() < 0.3 else False)
            ops = actors.gen_scene3d_ops(rng, n, spec)
        faults = []
        for _ in range(rng.randrange(1, 5)):
            k = rng.choice(["new", "new", "mal"])
            at = rng.choice([rng.randrange(3), rng.randrange(12), rng.randrange(60)])
            faults.append([rng.randrange(len(ops)), k, at, rng.choice([1, 1, 2, 1000])])
        return {"kind": kind, "spec": spec, "ops": ops, "faults": faults}

    def execute(self, plan):
        kind, spec, ops = plan["kind"], plan["spec"], plan["ops"]
        cls = actors.KINDS[kind]
        good = [o for o in ops if o[0] != "bad"]
        fa = {f[0]: f for f in plan["faults"] if f[0] < len(ops) and ops[f[0]][0] != "bad"
              and ops[f[0]][0] not in cls.CONFIG + ("clear",) + actors.REJECT}
        stats = {"sim_steps": len(ops)}
        # Reference results: of every operation after the first fault (earlier ones are C02's business)
        exp = {}
        g = -1
        first = min([i for i in fa] + [i for i, o in enumerate(ops) if o[0] == "bad"] + [len(ops)])
        for i, op in enumerate(ops):
            if op[0] == "bad":
                continue
            g += 1
            if i < first:
                continue
            prog = actors.minimal(cls, good, g)
            if prog is not None:
                r = reference(_last, kind, spec, prog)
                if r[0] == "dead":
                    return outcome({"sig": "process-died", "msg": f"operation {i} {op} on fresh objects: process {r[1]}"},
                                   stats)
                exp[i] = r[1]
        a = cls(spec)
        hist, got, failed = [], [], 0
        valid = True

        def bail(sig, msg):
            return outcome({"sig": sig, "msg": msg}, stats, " ".join([kind] + hist), True, digest([got, hist]))

        def inc(k):
            stats[k] = stats.get(k, 0) + 1

        for i, op in enumerate(ops):
            if op[0] == "bad":
                before, given = a.grads(), _inputs(a)
                try:
                    _bad_2d(a, op)
                    r = "accepted"
                except (SystemExit, GeneratorExit):
                    raise
                except BaseException as e:  # noqa
                    r = type(e).__name__
                hist.append(f"bad:{op[1]}:{op[2]}:{'accepted' if r == 'accepted' else 'raised'}")
                if op[1] != "back" and op[1] != "backe":
                    valid = False
                if r == "accepted":
                    # some of these are legal after all (e.g. sizes that broadcast): only the process must survive
                    return outcome(None, stats, " ".join([kind] + hist), failed > 0, digest([got, hist]))
                failed += 1
                inc("fault:rejected_input")
                d = diff(_inputs(a), given, 0)
                if d:
                    return bail("inputs-changed", f"operation {i} {op} was rejected ({r}) but changed the scene: {d}")
                if op[1] != "rcb":
                    d = diff(a.grads(), before, 0)
                    if d:
                        return bail("gradients-changed", f"operation {i} {op} was rejected ({r}) but changed the "
                                    f"gradients: {d}")
                else:
                    # unspecified: the comparison clears the gradients and may then fail
                    break
                continue
            fwd = op[0] in cls.FORWARD or op[0] == "rcb"
            if op[0] in ("back", "backe", "backd") and not valid:
                break  # a backward pass after a rejected forward pass, and what it accumulates, is unspecified
            if i in fa:
                _, k, at, ln = fa[i]
                before = a.grads() if kind == "scene2d" else None
                given = _inputs(a)
                if kind == "scene3d" and op[0] in ("back", "backd"):
                    # a 3D backward pass that fails after the native one has accumulated is unspecified
                    k, f = "new", _InNative(at, ln)
                else:
                    f = shim.NewFault(at, ln) if k == "new" else shim.MalFault(at, ln, 600)
                with f:
                    r = actors.attempt(a, op)
                if f.failed:
                    inc("fault:" + ("operator_new" if k == "new" else "malloc"))
                    hist.append(f"{op[0]}!{k}" + ("-" if r[0] == "raise" else "+"))
                    if r[0] == "raise":
                        failed += 1
                        inc("probe:failed_" + op[0])
                        d = diff(_inputs(a), given, 0)
                        if d:
                            return bail("inputs-changed", f"operation {i} {op} failed ({r[1]}) but changed what the "
                                        f"caller gave to the scene: {d}")
                        if kind == "scene2d" and op[0] in ("render", "rerr", "back", "backe"):
                            d = diff(a.grads(), before, 0)
                            if d:
                                return bail("gradients-changed", f"operation {i} {op} failed ({r[1]}) but changed the "
                                            f"gradients: {d}")
                        r = actors.attempt(a, op)
                        hist.append("retry")
                    # else: it completed all the same, so its result must be the right one
            else:
                r = actors.attempt(a, op)
            got.append(r)
            hist.append(op[0] + ("+" if r[0] == "ok" else "-"))
            if fwd:
                valid = True
            if i not in exp or op[0] == "clear":
                continue
            m = mismatch(r, exp[i], f"{op[0]} (operation {i} {op}, compared with the same operation on fresh objects, "
                         f"after {failed} failed passes)")
            if m:
                return bail(m["sig"], m["msg"])
            inc("compared")
        return outcome(None, stats, " ".join([kind] + hist), failed > 0, digest([got, hist]))

    def reduce(self, plan):
        for f in list_drops(plan["faults"]):
            yield {**plan, "faults": f}
        for i in reversed(range(len(plan["ops"]))):
            if len(plan["ops"]) > 1:
                yield {**plan, "ops": plan["ops"][:i] + plan["ops"][i + 1:],
                       "faults": [[f[0] - (f[0] > i)] + f[1:] for f in plan["faults"] if f[0] != i]}
        for s in small_specs(plan["kind"], plan["spec"]):
            yield {**plan, "spec": s}


PROP = Prop()

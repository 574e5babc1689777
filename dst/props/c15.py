"""C15: gradients add up: whatever the order, whatever failed in between, each pass counts exactly once."""
import numpy as np

from .. import actors, gen
from ..cmp import snap
from ..engine import digest, list_drops, outcome
from .common import Base, NativeFault, reference, small_specs


# -- 2D scenes: the accumulators live until they are cleared -------------------
def _conf2d(s, spec, conf):
    for k, seed in conf:
        if k == "move":
            s.ij = gen.rs(seed).uniform(-0.2, 1.2, s.ij.shape) * np.array([spec["w"], spec["h"]])
        elif k == "recolor":
            s.colors = gen.rs(seed).uniform(0, 1, s.colors.shape)
        else:
            s.depths = gen.rs(seed).uniform(0.2, 3, s.depths.shape)


def _grads2d(s):
    return {k: snap(getattr(s, k)) for k in ("uv_b", "ij_b", "shade_b", "colors_b", "texture_b")}


def _forward2d(s, fwd, shape):
    if fwd[0] == "rerr":
        return s.render_error(gen.image_b(fwd[1], shape), fwd[2])
    return s.render(fwd[2])


def _ref2d(spec, conf, fwd, seeds, copies=True):
    """The gradients of one pass with the sum of the given output gradients."""
    s = gen.make_scene2d(spec)
    _conf2d(s, spec, conf)
    shape = (spec["h"], spec["w"], spec["c"])
    _forward2d(s, fwd, shape)
    s.clear_gradients()
    if fwd[0] == "rerr":
        s.render_error_backward(sum(w * gen.image_b(b, shape[:2]) for b, w in seeds))
    else:
        s.render_backward(sum(w * gen.image_b(b, shape) for b, w in seeds))
    return _grads2d(s)


def _ref_rcb(spec, conf, op):
    a = actors.Scene2DActor(spec)
    _conf2d(a.scene, spec, conf)
    return a.do(op)


# -- 3D scenes: every forward pass starts anew ---------------------------------
def _conf3d(a, conf):
    for op in conf:
        a.do(op)


def _grads3d(a):
    return {k: v for k, v in a.grads().items() if v is not None}


def _ref3d(spec, conf, fwd, seeds):
    a = actors.Scene3DActor(spec)
    _conf3d(a, conf)
    a.do(fwd)
    cam = a.last
    if fwd[0] == "depth":
        a.scene.render_depth_backward(sum(w * gen.image_b(b, (cam.height, cam.width, 1)) for b, w in seeds))
        return {"vertices_b": snap(a.mesh._vertices_b)}
    nb = spec["mesh"].get("nb_colors", 3)
    a.scene.render_backward(sum(w * gen.image_b(b, (cam.height, cam.width, nb)) for b, w in seeds))
    return _grads3d(a)


# -- PyTorch: .grad of the leaves ----------------------------------------------
def _ref_torch(spec, conf, op, seed):
    from .c03 import World
    w = World(spec)
    for c in conf:
        w.config(c)
    im = w.render(op[:5])
    im.backward(w.grad_out(tuple(im.shape), seed, "plain"))
    return {n: snap(w.leaf[n][0].grad) for n in ("verts", "colors", "light", "amb")}


# -- multi-frame fitters -------------------------------------------------------
def _fit(spec, order, steps):
    """Outcomes of a multi-frame fit whose frames are given in another order (a permutation, or repeats)."""
    from deodr.mesh_fitter import MeshRGBFitterWithPoseMultiFrame
    r = gen.rs(spec["seed"])
    m = {"kind": spec["mesh"], "seed": spec["seed"]}
    v, f = gen.vertices_for(m), gen.base_mesh(spec["mesh"])[1]
    nf = spec["frames"]
    euler, trans = r.uniform(-0.3, 0.3, (nf, 3)), r.uniform(-0.1, 0.1, (nf, 3))
    color, light, amb, bg = r.uniform(0.2, 0.9, 3), r.uniform(-0.5, 0.5, 3), float(r.uniform(0.2, 0.6)), r.uniform(0, 1, 3)
    imgs = [r.uniform(0, 1, (spec["h"], spec["w"], 3)) for _ in range(nf)]
    ft = MeshRGBFitterWithPoseMultiFrame(v, f, euler[order], trans[order], color, light, amb, cregu=spec["cregu"])
    ft.set_background_color(bg)
    ft.set_images([imgs[k] for k in order], focal=1.5 * spec["w"])
    out = []
    for _ in range(steps):
        e, im, d = ft.step()
        out.append({"energy": float(e), "vertices": snap(ft.vertices), "q": snap(ft.transform_quaternion),
                    "t": snap(ft.transform_translation), "light": snap(ft.light_directional),
                    "ambient": float(ft.light_ambient), "color": snap(ft.mesh_color), "images": snap(im), "diffs": snap(d)})
    return out


# -- multi-frame fitters: the gradients of views of several frames --------------
FIT_GRADS = ("_vertices_b", "transform_quaternion_b", "transform_translation_b", "mesh_color_b", "light_directional_b",
             "light_ambient_b")


def _fitter(spec):
    a = actors.FitterActor({"fit": "np_multi", "image": spec["seed"], **spec})
    a.f.nb_frames = spec["frames"]
    a.f.clear_gradients()
    return a.f


def _fit_view(f, spec, frame, seed):
    f.render(idframe=frame)
    f.render_backward(gen.image_b(seed, (spec["h"], spec["w"], 3)))


def _fit_grads(f):
    return {k: snap(np.asarray(getattr(f, k))) for k in FIT_GRADS}


def _ref_view(spec, frame, seed):
    f = _fitter(spec)
    if frame is None:
        e, im, d = f.energy_data(f.vertices)
        return {**_fit_grads(f), "energy": float(e), "images": np.stack(im), "diffs": np.stack(d)}
    _fit_view(f, spec, frame, seed)
    return _fit_grads(f)


def _add(total, g, scale):
    for k, v in g.items():
        if v is None:
            continue
        v = np.asarray(v, float)
        total[k] = total[k] + v if k in total else v.copy()
        if v.size:
            scale[k] = max(scale.get(k, 0.0), float(np.max(np.abs(v), where=np.isfinite(v), initial=0)))


def _differs(got, total, scale, rtol):
    for k, v in got.items():
        if v is None:
            continue
        v = np.asarray(v, float)
        e = total.get(k)
        if e is None:
            e = np.zeros_like(v)
        if v.shape != e.shape:
            return f"{k}: shape {v.shape} instead of {e.shape}"
        if v.size == 0:
            continue
        ok = np.isfinite(v)
        if not np.array_equal(ok, np.isfinite(e)):  # the gradient of a vertex without faces is not a number
            return f"{k}: finite in {int(ok.sum())} entries, the sum in {int(np.isfinite(e).sum())}"
        d = float(np.max(np.abs(np.where(ok, v, 0) - np.where(ok, e, 0))))
        if not d <= rtol * max(scale.get(k, 0.0), float(np.max(np.abs(e), where=ok, initial=0)), 1e-5):
            return f"{k}: {d:.6g} away from the sum, at scale {scale.get(k, 0.0):.6g}"
    return None


class Prop(Base):
    ID = "C15"
    TORCH = True
    QUICK_RUNS = 3000
    QUICK_WALL = 110
    THOROUGH_RUNS = 40000
    RULE = ("a run is one seeded history of forward passes, backward passes in any number and order, clears, passes that "
            "fail before the engine works and rejected passes, on a 2D scene, a 3D scene or PyTorch leaves, whose "
            "accumulated gradients are compared after every operation with sums of gradients of single passes with "
            "merged output gradients in pristine processes; or of views and energies of a multi-frame fitter; or a multi-frame fit with its frames reordered or repeated. "
            "Non-trivial: at least two contributions were added.")
    STATE_MEASURE = "distinct histories of (operation, outcome)"
    COMPONENTS = {"real": ["deodr Python and PyTorch packages", "native engine built from /repo", "torch autograd"],
                  "stub": ["failing native calls: the engine's entry points raise before their work"]}
    ASSUMPTIONS = ["sums are compared with a tolerance of 1e-9 relative to the largest contribution (fits: 1e-7)",
                   "a backward pass is linear in the output gradient, so passes over one forward pass may be merged"]

    def gen(self, rng, tier):
        kind = rng.choice(["scene2d", "scene2d", "scene2d", "scene3d", "scene3d", "scene3d", "torch", "frames", "mviews"])
        if kind == "mviews":
            nf = rng.randrange(1, 4)
            ops = []
            for _ in range(rng.randrange(3, 10)):
                x = rng.random()
                if x < 0.15:
                    ops.append(["clear"])
                elif x < 0.3:
                    ops.append(["energy"])
                else:
                    ops.append(["view", rng.randrange(nf), rng.randrange(10**6),
                                [rng.randrange(2), rng.choice(["before", "after"])] if rng.random() < 0.2 else None])
            return {"kind": kind, "ops": ops,
                    "spec": {"mesh": rng.choice(["tetra", "octa", "box", "ico"]), "seed": rng.randrange(10**6),
                             "frames": nf, "w": rng.randrange(6, 20), "h": rng.randrange(6, 20)}}
        if kind == "frames":
            nf = rng.randrange(1, 5)
            order = list(range(nf))
            how = rng.choice(["permute", "permute", "repeat"])
            if how == "permute":
                rng.shuffle(order)
                steps = rng.randrange(1, 5)
            else:
                order = order * rng.randrange(2, 4)
                rng.shuffle(order)
                steps = 1
            return {"kind": kind, "how": how, "order": order, "steps": steps,
                    "spec": {"mesh": rng.choice(["tetra", "octa", "box", "ico"]), "seed": rng.randrange(10**6),
                             "frames": nf, "w": rng.randrange(6, 20), "h": rng.randrange(6, 20),
                             "cregu": rng.choice([10.0, 500.0])}}
        if kind == "torch":
            from . import c03
            p = c03.PROP.gen(rng, tier)
            ops, n = [], 0
            for o in p["ops"]:
                if o[0] in ("grad", "post"):
                    continue
                ops.append(o)
                n += o[0] == "render"
            # gradients of the same leaves only: no replaced leaves
            ops = [o if o[0] == "render" or o[1] in ("sigma", "bg", "look") or o[1][0] == "=" else
                   [o[0], "=" + o[1]] + o[2:] for o in ops]
            slots = [o[1] for o in ops if o[0] == "render"]
            out = list(ops)
            for s in slots:
                for _ in range(rng.randrange(0, 3)):
                    at = rng.randrange(out.index([o for o in out if o[0] == "render" and o[1] == s][0]) + 1, len(out) + 1)
                    out.insert(at, ["back", s, rng.randrange(10**6), rng.random() < 0.2])
            return {"kind": kind, "spec": p["spec"], "ops": out}
        n = rng.randrange(4, 14)
        ops, fwd = [], None
        if kind == "scene2d":
            spec = gen.scene2d_spec(rng)
            while len(ops) < n:
                x = rng.random()
                if x < 0.12:
                    ops.append(["conf", rng.choice(["move", "recolor", "depths"]), rng.randrange(10**6)])
                    fwd = None
                elif x < 0.3 or fwd is None:
                    fwd = rng.choice(["render", "render", "rerr"])
                    ops.append([fwd, rng.randrange(10**6), rng.choice([0, 0.7, 1.0, 2.5])])
                elif x < 0.72:
                    ops.append(["back", rng.randrange(10**6), rng.random() < 0.8])
                    if not ops[-1][2]:
                        fwd = None
                elif x < 0.8:
                    ops.append(["fail", rng.randrange(10**6), rng.choice(["MemoryError", "RuntimeError"])])
                elif x < 0.86:
                    ops.append(["reject", rng.randrange(10**6), rng.choice(["rows", "chan", "1d", "f4"])])
                elif x < 0.92:
                    ops.append(["clear"])
                else:
                    ops.append(["rcb", rng.randrange(10**6), rng.choice([0, 1.0]), rng.random() < 0.4, None, rng.random() < 0.4])
                    fwd = None
        else:
            spec = actors.scene3d_spec(rng, textured=False)
            spec["pc"] = False
            depth_ok = spec["mesh"].get("nb_colors", 3) == 1 and spec["bg"]["type"] == "color"
            while len(ops) < n:
                x = rng.random()
                if x < 0.12:
                    k = rng.choice(["verts", "colors", "light", "sigma"])
                    ops.append(["conf", k, rng.choice([0, 0.8, 1.0]) if k == "sigma" else rng.randrange(10**6)])
                    fwd = None
                elif x < 0.3 or fwd is None:
                    fwd = "depth" if depth_ok and rng.random() < 0.4 else "render"
                    ops.append([fwd, rng.randrange(3), True if fwd == "render" else rng.choice([1.0, 2.5])])
                elif x < 0.75:
                    ops.append(["back", rng.randrange(10**6)])
                elif x < 0.85:
                    ops.append(["fail", rng.randrange(10**6), rng.choice(["MemoryError", "RuntimeError"])])
                elif x < 0.92:
                    ops.append(["reject", rng.randrange(10**6), rng.choice(["rows", "chan", "1d", "f4"])])
                else:
                    ops.append(["clear"])
        return {"kind": kind, "spec": spec, "ops": ops}

    def execute(self, plan):
        stats = {"sim_steps": len(plan.get("ops", [])) or plan.get("steps", 0)}
        return getattr(self, "_" + plan["kind"])(plan, stats)

    # ------------------------------------------------------------------
    def _bad(self, b, how):
        if how == "rows":
            return b[:-1]
        if how == "chan":
            return np.concatenate([b, b], axis=-1) if b.ndim == 3 else b[:, :-1]
        if how == "1d":
            return b.ravel()
        return b.astype(np.float32)

    def _scene2d(self, plan, stats):
        spec = plan["spec"]
        shape = (spec["h"], spec["w"], spec["c"])
        a = actors.Scene2DActor(spec)
        s = a.scene
        conf, fwd, merged = [], None, []
        total, scale = {}, {}
        hist, seen, added = ["2d"], [], 0

        def inc(k):
            stats[k] = stats.get(k, 0) + 1

        def bail(sig, msg):
            return outcome({"sig": sig, "msg": msg}, stats, " ".join(hist), True, digest(seen))

        closed = []  # gradients of earlier forward passes since the last clear

        def expect():
            t, sc = {}, {}
            for g in closed:
                _add(t, g, sc)
            if merged:
                for b in merged:
                    _add({}, _ref2d_cached(b), sc)
                _add(t, _refc(merged), sc)
            return t, sc

        cache = {}

        def _refc(seeds):
            key = repr((conf, fwd, seeds))
            if key not in cache:
                r = reference(_ref2d, spec, list(conf), fwd, list(seeds))
                if r[0] == "dead":
                    raise RuntimeError("reference died: " + r[1])
                cache[key] = r[1]
            return cache[key]

        def _ref2d_cached(b):
            return _refc([b])

        def close():
            if merged:
                closed.append(_refc(merged))
                merged.clear()

        for i, op in enumerate(plan["ops"]):
            k = op[0]
            hist.append(k)
            if k == "conf":
                close()
                fwd = None
                conf.append(op[1:])
                _conf2d(s, spec, [op[1:]])
                continue
            if k in ("render", "rerr"):
                close()
                fwd = op
                _forward2d(s, op, shape)
            elif k == "clear":
                s.clear_gradients()
                closed.clear()
                merged.clear()
            elif k == "rcb":
                close()
                fwd = None
                mask = None
                r = reference(_ref_rcb, spec, list(conf), ["rcb", op[1], op[2], op[3], None])
                if r[0] == "dead":
                    return bail("process-died", f"reference of operation {i} {op}: process {r[1]}")
                if op[5]:
                    s.render_compare_and_backward(gen.image_b(op[1], shape), sigma=op[2], antialiase_error=bool(op[3]),
                                                  mask=mask, clear_gradients=False)
                    inc("probe:comparison_added_to_gradients")
                else:
                    s.render_compare_and_backward(gen.image_b(op[1], shape), sigma=op[2], antialiase_error=bool(op[3]),
                                                  mask=mask)
                    closed.clear()
                closed.append({g: r[1][g] for g in ("uv_b", "ij_b", "shade_b", "colors_b", "texture_b")})
                added += 1
            elif fwd is None:
                continue
            else:
                err = fwd[0] == "rerr"
                b = gen.image_b(op[1], shape[:2] if err else shape)
                f = s.render_error_backward if err else s.render_backward
                if k == "back":
                    f(b, **({} if op[2] else {"make_copies": False}))
                    merged.append([op[1], 1.0])
                    added += 1
                    if not op[2]:
                        close()
                        fwd = None
                elif k == "fail":
                    with NativeFault({0: "before"}, op[2]):
                        try:
                            f(b)
                        except (MemoryError, RuntimeError) as e:
                            if "injected" not in str(e):
                                raise
                    inc("fault:native_before")
                else:
                    try:
                        f(self._bad(b, op[2]))
                    except BaseException as e:  # noqa: the package rejects with bare BaseException
                        if type(e).__name__ == "KeyboardInterrupt":
                            raise
                        inc("fault:rejected_input")
                    else:
                        return outcome(None, stats, " ".join(hist), added > 1, digest(seen))  # legal after all
            t, sc = expect()
            got = _grads2d(s)
            seen.append(got)
            d = _differs(got, t, sc, 1e-9)
            if d:
                return bail("sum-differs:" + k, f"operation {i} {op} of a 2D scene: {d}")
            inc("compared")
        stats["probe:contributions"] = added
        return outcome(None, stats, " ".join(hist), added > 1, digest([hist, seen]))

    def _scene3d(self, plan, stats):
        spec = plan["spec"]
        a = actors.Scene3DActor(spec)
        conf, fwd, merged = [], None, []
        hist, seen, added = ["3d"], [], 0
        nb = spec["mesh"].get("nb_colors", 3)
        cache = {}

        def inc(k):
            stats[k] = stats.get(k, 0) + 1

        def bail(sig, msg):
            return outcome({"sig": sig, "msg": msg}, stats, " ".join(hist), True, digest(seen))

        def ref(seeds):
            key = repr((conf, fwd, seeds))
            if key not in cache:
                r = reference(_ref3d, spec, list(conf), fwd, list(seeds))
                if r[0] == "dead":
                    raise RuntimeError("reference died: " + r[1])
                cache[key] = r[1]
            return cache[key]

        for i, op in enumerate(plan["ops"]):
            k = op[0]
            hist.append(k)
            if k == "conf":
                conf.append(op[1:])
                _conf3d(a, [op[1:]])
                fwd = None
                continue
            if k in ("render", "depth"):
                if fwd is None or True:
                    r = actors.attempt(a, op)
                fwd, merged = (op, []) if r[0] == "ok" else (None, [])
                continue
            if fwd is None:
                continue
            if k == "clear":
                a.scene.clear_gradients()
                merged = []
                continue
            cam = a.last
            b = gen.image_b(op[1], (cam.height, cam.width, 1 if fwd[0] == "depth" else nb))
            f = a.scene.render_depth_backward if fwd[0] == "depth" else a.scene.render_backward
            if k == "fail":
                with NativeFault({0: "before"}, op[2]):
                    try:
                        f(b)
                    except (MemoryError, RuntimeError) as e:
                        if "injected" not in str(e):
                            raise
                inc("fault:native_before")
                continue
            if k == "reject":
                try:
                    f(self._bad(b, op[2]))
                except BaseException as e:  # noqa
                    if type(e).__name__ == "KeyboardInterrupt":
                        raise
                    inc("fault:rejected_input")
                    continue
                return outcome(None, stats, " ".join(hist), added > 1, digest(seen))
            f(b)
            merged.append([op[1], 1.0])
            added += 1
            total, scale = {}, {}
            for m in merged:
                _add({}, ref([m]), scale)
            _add(total, ref(merged), {})
            got = {"vertices_b": snap(a.mesh._vertices_b)} if fwd[0] == "depth" else _grads3d(a)
            got = {n: v for n, v in got.items() if n in total}
            seen.append(got)
            d = _differs(got, total, scale, 1e-8)
            if d:
                return bail("sum-differs:" + fwd[0], f"operation {i} {op} of a 3D scene, {len(merged)} contributions: {d}")
            inc("compared")
        stats["probe:contributions"] = added
        return outcome(None, stats, " ".join(hist), added > 1, digest([hist, seen]))

    def _torch(self, plan, stats):
        from .c03 import World
        spec = plan["spec"]
        w = World(spec)
        conf, total, scale = [], {}, {}
        hist, seen, added, views = ["torch"], [], 0, {}
        for i, op in enumerate(plan["ops"]):
            hist.append(op[0] + str(op[1]))
            if op[0] == "set":
                conf.append(op)
                w.config(op)
                continue
            if op[0] == "render":
                views[op[1]] = (list(conf), op)
                w.render(op)
                continue
            if op[1] not in views or not w.alive([op[1]]):
                continue
            im = w.slots[op[1]][0]
            g = w.grad_out(tuple(im.shape), op[2], "plain")
            if op[3]:
                with NativeFault({0: "before"}, "MemoryError"):
                    try:
                        im.backward(g, retain_graph=True)
                    except MemoryError as e:
                        if "injected" not in str(e):
                            raise
                stats["fault:native_before"] = stats.get("fault:native_before", 0) + 1
            else:
                r = reference(_ref_torch, spec, views[op[1]][0], views[op[1]][1], op[2])
                if r[0] == "dead":
                    return outcome({"sig": "process-died", "msg": f"operation {i} {op} alone: process {r[1]}"}, stats)
                try:
                    im.backward(g, retain_graph=True)
                except RuntimeError as e:
                    return outcome({"sig": "failed:torch", "msg": f"operation {i} {op} raised {str(e)[:120]}"}, stats,
                                   " ".join(hist), True, digest(seen))
                _add(total, r[1], scale)
                added += 1
            got = {n: snap(w.leaf[n][0].grad) for n in total}
            seen.append(got)
            d = _differs(got, total, scale, 1e-8)
            if d:
                return outcome({"sig": "sum-differs:torch", "msg": f"operation {i} {op} on PyTorch leaves, {added} "
                                f"contributions: {d}"}, stats, " ".join(hist), True, digest(seen))
            stats["compared"] = stats.get("compared", 0) + 1
        stats["probe:contributions"] = added
        return outcome(None, stats, " ".join(hist), added > 1, digest([hist, seen]))

    def _mviews(self, plan, stats):
        spec = plan["spec"]
        f = _fitter(spec)
        total, scale, hist, seen, added = {}, {}, ["mviews"], [], 0
        for i, op in enumerate(plan["ops"]):
            hist.append(op[0] + ("!" if op[0] == "view" and op[3] else ""))
            if op[0] == "clear":
                f.clear_gradients()
                total, scale = {}, {}
            elif op[0] == "view" and op[3]:
                nf = NativeFault({op[3][0]: op[3][1]}, "MemoryError")
                with nf:
                    try:
                        _fit_view(f, spec, op[1], op[2])
                    except MemoryError as e:
                        if "injected" not in str(e):
                            raise
                stats["fault:native_" + op[3][1]] = stats.get("fault:native_" + op[3][1], 0) + nf.fired
            else:
                ref = [spec, None, None] if op[0] == "energy" else [spec, op[1], op[2]]
                r = reference(_ref_view, *ref)
                if r[0] == "dead":
                    return outcome({"sig": "process-died", "msg": f"operation {i} {op} alone: process {r[1]}"}, stats)
                e = r[1]
                if op[0] == "energy":
                    en, im, d = f.energy_data(f.vertices)
                    got = {"energy": float(en), "images": np.stack(im), "diffs": np.stack(d)}
                    bad = _differs(got, {k: np.asarray(e.pop(k)) for k in got}, {}, 1e-9)
                    if bad:
                        return outcome({"sig": "energy-differs", "msg": f"operation {i} {op} of a multi-frame fitter: {bad}"},
                                       stats, " ".join(hist), True, digest(seen))
                    total, scale = {}, {}  # an evaluation starts from zero
                else:
                    _fit_view(f, spec, op[1], op[2])
                _add(total, e, scale)
                added += 1
            got = _fit_grads(f)
            seen.append(got)
            d = _differs(got, total, scale, 1e-9)
            if d:
                return outcome({"sig": "sum-differs:multi-frame", "msg": f"operation {i} {op} of a multi-frame fitter: {d}"},
                               stats, " ".join(hist), True, digest(seen))
            stats["compared"] = stats.get("compared", 0) + 1
        stats["probe:contributions"] = added
        return outcome(None, stats, " ".join(hist), added > 1, digest([hist, seen]))

    def _frames(self, plan, stats):
        from ..cmp import diff
        spec, order, steps = plan["spec"], plan["order"], plan["steps"]
        r = reference(_fit, spec, list(range(spec["frames"])), steps)
        if r[0] == "dead":
            return outcome({"sig": "process-died", "msg": f"fit: process {r[1]}"}, stats)
        exp = r[1]
        got = _fit(spec, order, steps)
        hist = ["frames", plan["how"], str(order), str(steps)]
        for i, (g, e) in enumerate(zip(got, exp)):
            e = dict(e)
            if plan["how"] == "permute":
                e["q"], e["t"] = e["q"][order], e["t"][order]
                e["images"] = [e["images"][k] for k in order]
                e["diffs"] = [e["diffs"][k] for k in order]
            else:
                # the poses of repeated frames are theirs alone; everything shared is an average over the frames
                for x in ("q", "t", "images", "diffs"):
                    e.pop(x)
                    g.pop(x)
            d = diff(g, e, 1e-7)
            if d:
                return outcome({"sig": "frame-order:" + plan["how"], "msg": f"step {i} with frames {order}: {d} from the "
                                "fit with its frames in their first order"}, stats, " ".join(hist), True, digest(got))
        stats["probe:reordered_fits"] = 1
        return outcome(None, stats, " ".join(hist), len(order) > 1, digest(got))

    def reduce(self, plan):
        if plan["kind"] == "frames":
            if plan["steps"] > 1:
                yield {**plan, "steps": plan["steps"] - 1}
            s = plan["spec"]
            for ch in ({"mesh": "tetra"}, {"w": 6}, {"h": 6}):
                if {**s, **ch} != s:
                    yield {**plan, "spec": {**s, **ch}}
            return
        for i in reversed(range(len(plan["ops"]))):
            if len(plan["ops"]) > 1:
                yield {**plan, "ops": plan["ops"][:i] + plan["ops"][i + 1:]}
        if plan["kind"] == "mviews":
            s = plan["spec"]
            for ch in ({"mesh": "tetra"}, {"w": 6}, {"h": 6}):
                if {**s, **ch} != s:
                    yield {**plan, "spec": {**s, **ch}}
        elif plan["kind"] != "torch":
            for s in small_specs(plan["kind"], plan["spec"]):
                yield {**plan, "spec": s}


PROP = Prop()

"""C05: corrupted scene data cannot make the native engine touch memory it was not given."""
import numpy as np

from .. import gen
from ..cmp import diff, snap
from ..engine import digest, list_drops, outcome
from .common import Base, reference

FLOATS = ("ij", "depths", "uv", "shade", "colors", "texture", "background_image", "background_color", "obs", "image_b")
INTS = ("faces", "faces_uv")
FLAGS = ("textured", "shaded", "edgeflags")
BUFS = ("uv_b", "ij_b", "shade_b", "colors_b", "texture_b")
VALUES = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf, "huge": 1e300, "-huge": -1e300, "i32": 2.0**31, "i16": 32768.5,
          "-i16": -32769.0, "tiny": 5e-324, "zero": 0.0, "-one": -1.0, "big": 1e6,
          "w16": 65538.0, "-w16": -65535.0, "40k": 40000.5, "-40k": -40000.5, "-i32": -2.0**31 - 1, "w32": 2.0**32 + 2}
SHAPES = ("trunc0", "ext0", "trunc1", "ext1", "transpose", "flat", "dim", "empty", "empty1", "rev", "strided", "one",
          "broadcast", "reshape")
DTYPES = ("float32", "int64", "int8", "complex128", "object", "U3", "bool", "uint8", "int32", "uint64")
INDEX = {"n": lambda n: n, "n1": lambda n: n + 1, "max": lambda n: 2**32 - 1, "half": lambda n: 2**31,
         "wrap": lambda n: 2**32 - 2, "far": lambda n: n + 1000}


def damage(x, how, seed):
    """One corruption of an array; unchanged when it does not apply."""
    try:
        return _damage(x, how, seed)
    except (TypeError, ValueError, OverflowError, IndexError):
        return x


def _damage(x, how, seed):
    r = gen.rs(seed)
    k, v = how
    if k == "set":
        return v
    if not isinstance(x, np.ndarray):
        return x
    if k == "value":
        y = np.array(x, float)
        if y.size:
            n = r.choice([1, 1, 2, max(1, y.size // 2), y.size])
            y.reshape(-1)[r.randint(0, y.size, n)] = VALUES[v]
        return y
    if k == "sprinkle":
        y = np.array(x, float)
        if y.size:
            m = r.uniform(size=y.shape) < r.choice([0.02, 0.1, 0.5])
            y[m] = r.choice([np.nan, np.inf, -np.inf, 0.5], size=int(m.sum()), p=[0.6, 0.15, 0.15, 0.1])
        return y
    if k == "equal":
        y = np.array(x, float)
        y[:] = y.reshape(-1)[0] if y.size else 0
        return y
    if k == "index":
        y = np.array(x).astype(np.uint32)
        n = int(x.max()) + 1 if x.size else 1
        if y.size:
            y.reshape(-1)[r.randint(0, y.size)] = INDEX[v](n) % 2**32
        return y
    if k == "negative":
        y = np.array(x).astype(np.int64)
        if y.size:
            y.reshape(-1)[r.randint(0, y.size)] = -int(r.choice([1, 2, 100]))
        return y
    if k == "flagval":
        return np.where(np.asarray(x), int(v), 0).astype(np.uint8)
    if k == "dtype":
        try:
            return x.astype(v)
        except (ValueError, TypeError):
            return x
    if k == "shape":
        if v == "trunc0":
            return x[: max(0, len(x) - r.randint(1, 3))] if x.ndim else x
        if v == "ext0":
            return np.concatenate([x, x[:1]]) if x.ndim and len(x) else x
        if v == "trunc1":
            return x[..., :-1] if x.ndim else x
        if v == "ext1":
            return np.concatenate([x, x[..., :1]], -1) if x.ndim and x.shape[-1] else x
        if v == "transpose":
            return x.T
        if v == "flat":
            return x.reshape(-1)
        if v == "dim":
            return x[None]
        if v == "empty":
            return x[:0]
        if v == "empty1":
            return x[..., :0]
        if v == "rev":
            return x[::-1]
        if v == "strided":
            return np.repeat(x, 2, axis=0)[::2] if x.ndim else x
        if v == "one":
            return x[:1, :1] if x.ndim > 1 else x[:1]
        if v == "broadcast":
            return np.broadcast_to(x[:1], x.shape) if x.ndim and len(x) else x
        if v == "reshape":
            return x.reshape(x.shape[::-1])
    return x


def _healthy(spec):
    s = gen.make_scene2d(spec)
    im, z = s.render(1.0)
    s.render_backward(gen.image_b(3, im.shape))
    return {"image": snap(im), "z": snap(z), "ij_b": snap(s.ij_b), "colors_b": snap(s.colors_b)}


class _Swap:
    """Mixin: the field returns another array from its k-th read on, as if another thread had replaced it."""


def _swap_class(base, field, at, other):
    class S(base):
        pass
    key = "_swapped_" + field

    def get(self):
        n = self.__dict__.get(key + "_n", 0)
        self.__dict__[key + "_n"] = n + 1
        return other if self.__dict__.get(key + "_on") and n >= at else self.__dict__.get(key)

    def put(self, v):
        self.__dict__[key] = v

    setattr(S, field, property(get, put))
    return S, key


class Prop(Base):
    ID = "C05"
    ASAN = True
    QUICK_RUNS = 9000
    QUICK_WALL = 150
    THOROUGH_RUNS = 150000
    run_timeout = 30.0
    RULE = ("a run is one scene whose arrays are corrupted in 1-3 seeded ways (values, indices, shapes, types, sizes, "
            "gradient buffers, settings), or replaced by other arrays between two reads of the same call, followed by "
            "1-3 passes on the engine compiled with AddressSanitizer; afterwards a healthy scene must still compute the "
            "reference result in the same process. Non-trivial: at least one pass reached the native code or was "
            "rejected because of the corruption.")
    STATE_MEASURE = "distinct (corruptions, passes, outcomes)"
    COMPONENTS = {"real": ["deodr Python package", "native engine built from /repo's working tree with AddressSanitizer",
                           "numpy"],
                  "stub": ["the scene's attribute reads in the concurrent-replacement runs"]}
    ASSUMPTIONS = ["AddressSanitizer detects the invalid accesses (accesses that stay inside another live block of the "
                   "same scene are not seen)", "a pass that has not finished after 30 s is counted as not terminating"]

    def gen(self, rng, tier):
        spec = gen.scene2d_spec(rng)
        if rng.random() < 0.3:
            spec["nf"] = rng.choice([rng.randrange(17, 60), rng.randrange(60, 150)])  # above the insertion-sort threshold of std::sort
        if rng.random() < 0.3:
            spec["pc"] = True
        spec["cull"] = rng.random() < 0.8
        spec["tex"] = [rng.randrange(1, 6), rng.randrange(1, 6)]
        cor = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            f = rng.choice(["float", "float", "float", "int", "int", "flag", "buf", "set", "shape", "shape"])
            if f == "float":
                name = rng.choice(FLOATS)
                cor.append([name, ["value", rng.choice(list(VALUES))], rng.randrange(10**6)])
                if rng.random() < 0.1:
                    cor[-1][1] = ["equal", 0]
                elif rng.random() < 0.15:
                    cor[-1][1] = ["sprinkle", 0]
            elif f == "int":
                name = rng.choice(INTS)
                cor.append([name, rng.choice([["index", rng.choice(list(INDEX))], ["negative", 0],
                                              ["dtype", rng.choice(DTYPES)]]), rng.randrange(10**6)])
            elif f == "flag":
                cor.append([rng.choice(FLAGS), rng.choice([["flagval", 255], ["flagval", 2],
                                                           ["dtype", rng.choice(DTYPES)]]), rng.randrange(10**6)])
            elif f == "buf":
                cor.append([rng.choice(BUFS), rng.choice([["shape", rng.choice(SHAPES)], ["dtype", rng.choice(DTYPES)],
                                                          ["set", None], ["value", "nan"]]), rng.randrange(10**6)])
            elif f == "set":
                name = rng.choice(["height", "width", "nb_colors", "texture", "background_image", "background_color",
                                   "uv", "colors", "clockwise", "strict_edge", "faces"])
                v = rng.choice([0, -1, 1, 2, 100, 40000, None, 3.7, "x"]) if name in ("height", "width", "nb_colors") \
                    else None
                cor.append([name, ["set", v], 0])
            else:
                cor.append([rng.choice(FLOATS + INTS + FLAGS), ["shape", rng.choice(SHAPES)], rng.randrange(10**6)])
        if rng.random() < 0.2:
            cor = []
        swap = None
        if not cor or rng.random() < 0.1:
            swap = [rng.choice(("ij", "depths", "uv", "shade", "colors", "texture", "background_image",
                                "background_color", "faces", "faces_uv", "textured", "shaded", "edgeflags", "uv_b",
                                "ij_b", "colors_b", "shade_b", "texture_b", "height", "width")),
                    rng.choice([1, 2, 3, 4, 5, 6, 8, 10]),
                    rng.choice([["shape", s] for s in SHAPES] + [["index", k] for k in INDEX] + [["dtype", "object"]]),
                    rng.randrange(10**6)]
        passes = []
        for _ in range(rng.randrange(1, 4)):
            passes.append(rng.choice(["render", "render", "rerr", "back", "backe", "rcb", "rcbe"]))
        if passes[0] in ("back", "backe"):
            passes.insert(0, {"back": "render", "backe": "rerr"}[passes[0]])
        when = rng.choice([0, 0, 0, 1])  # corrupt before the first pass, or between the first and the second
        return {"spec": spec, "corrupt": cor, "swap": swap, "passes": passes, "when": when,
                "sigma": rng.choice([0, 0.7, 1, 2.5, 2.5, "inf", "nan", -1, 1e9, 1e300, 1e-300, 40])}

    def execute(self, plan):
        spec = plan["spec"]
        hspec = {**spec, "pc": False, "cull": True, "nf": min(spec["nf"], 6)}
        ref = reference(_healthy, hspec)
        stats = {"sim_steps": len(plan["passes"])}
        if ref[0] == "dead":
            return outcome({"sig": "process-died", "msg": f"a healthy scene: process {ref[1]}"}, stats)
        from deodr.differentiable_renderer import Scene2D
        kw = gen.scene2d_kwargs(spec)
        h, w, c = kw["height"], kw["width"], kw["nb_colors"]
        cls, key = Scene2D, None
        if plan["swap"]:
            f, at, how, seed = plan["swap"]
            base = kw.get(f)
            if f in BUFS:
                base = np.zeros_like(kw[f[:-2]], dtype=float)
            if f in ("height", "width"):
                other = base + (1 if seed % 2 else -1)
            else:
                other = damage(base, how, seed) if base is not None else None
            cls, key = _swap_class(Scene2D, f, at, other)
        s = cls(**kw)
        if key:
            s.__dict__[key + "_on"] = True
            stats["fault:replaced_while_in_use"] = 1
        inp = {"obs": gen.image_b(spec["seed"], (h, w, c)), "image_b": gen.image_b(spec["seed"] + 1, (h, w, c))}
        sigma = {"inf": np.inf, "nan": np.nan}.get(plan["sigma"], plan["sigma"])

        def corrupt():
            for name, how, seed in plan["corrupt"]:
                if name in inp:
                    inp[name] = damage(inp[name], how, seed)
                elif how[0] == "set" or getattr(s, name, None) is not None:
                    setattr(s, name, damage(getattr(s, name, None), how, seed))
                stats["fault:" + how[0]] = stats.get("fault:" + how[0], 0) + 1

        hist = []
        reached = False
        for i, p in enumerate(plan["passes"]):
            if i == plan["when"] or (i == 0 and plan["when"] >= len(plan["passes"])):
                corrupt()
            if key:
                s.__dict__[key + "_n"] = 0
            try:
                if s.height is not None and isinstance(s.height, int) and isinstance(s.width, int) and \
                        isinstance(s.nb_colors, int) and s.height * s.width * max(1, s.nb_colors) > 4 * 10**6:
                    raise MemoryError("not simulated: too big")
                if p == "render":
                    s.render(sigma)
                elif p == "rerr":
                    s.render_error(inp["obs"], sigma)
                elif p == "back":
                    s.render_backward(inp["image_b"])
                elif p == "backe":
                    e = inp["image_b"]
                    s.render_error_backward(np.ascontiguousarray(e[..., 0]) if isinstance(e, np.ndarray) and e.ndim and
                                            e.shape[-1] else e)
                elif p == "rcb":
                    s.render_compare_and_backward(inp["obs"], sigma=sigma)
                else:
                    s.render_compare_and_backward(inp["obs"], sigma=sigma, antialiase_error=True)
                hist.append(p + "+")
                reached = True
            except (SystemExit, GeneratorExit):
                raise
            except BaseException as e:  # noqa
                hist.append(p + "-" + type(e).__name__)
                stats["probe:rejected"] = stats.get("probe:rejected", 0) + 1
                reached = True
        stats["probe:completed_passes"] = sum(h.endswith("+") for h in hist)
        d = diff(_healthy(hspec), ref[1])
        viol = None
        if d:
            viol = {"sig": "contaminated", "msg": f"a healthy scene rendered afterwards: {d}"}
        k = " ".join([c[0] + ":" + str(c[1]) for c in plan["corrupt"]] + [str(plan["swap"] and plan["swap"][:3])] + hist)
        return outcome(viol, stats, k, reached, digest(hist))

    def reduce(self, plan):
        for x in list_drops(plan["corrupt"]):
            yield {**plan, "corrupt": x}
        if plan["swap"] and plan["corrupt"]:
            yield {**plan, "swap": None}
        for x in list_drops(plan["passes"]):
            if x:
                yield {**plan, "passes": x}
        if plan["sigma"] != 1:
            yield {**plan, "sigma": 1}
        for ch in ({"nf": 1}, {"nf": max(1, plan["spec"]["nf"] // 2)}, {"h": 4}, {"w": 4}, {"c": 1}, {"textured": False},
                   {"pc": False}):
            n = {**plan["spec"], **ch}
            if n != plan["spec"]:
                yield {**plan, "spec": n}


PROP = Prop()

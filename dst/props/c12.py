"""C12: data given to the package and results it returned are never modified behind the caller's back."""
import numpy as np

from .. import actors, gen, shim
from ..engine import digest, list_drops, outcome
from ..faults import LineFault
from ..ledger import Ledger
from . import c17, fitlib
from .c03 import World
from .common import Base, NativeFault, Scratch, gen_client, small_specs

KINDS = ("scene2d", "scene3d", "fitter", "mesh", "energy", "io", "camera", "world", "convert", "gl")
MUTATORS = actors.Scene2DActor.CONFIG + actors.Scene3DActor.CONFIG + ("set", "poke", "badbg", "image", "reset", "settings", "init",
                                                                      "bad", "clear")


class WorldActor:
    def __init__(self, spec, shared=None):
        self.w = World(spec)

    def do(self, op):
        if op[0] == "set":
            return self.w.config(op)
        return self.w.render(op) if op[0] == "render" else self.w.grad(op)


def _gen(rng, n, kind):
    if kind == "world":
        from . import c03
        p = c03.PROP.gen(rng, "quick")
        # the client itself leaves its arrays alone here
        ops = [[o[0], o[1].lstrip("=")] + o[2:] if o[0] == "set" else o for o in c03.hands_off(p["ops"])]
        return {"kind": kind, "spec": p["spec"], "ops": ops}
    if kind == "gl":
        return c17.gen_gl(rng, n)
    if kind == "fitter":
        s = actors.fitter_spec(rng, fitlib.ALL)
        ops = []
        for _ in range(max(2, n // 2)):
            ops.append(rng.choice([["step"], ["step"], ["step"], ["reset"], ["image", rng.randrange(10**6)],
                                   ["settings", rng.randrange(10**6)], ["init", rng.randrange(10**6)],
                                   ["bad", rng.randrange(10**6)], ["view", rng.randrange(10**6)]]))
        return {"kind": kind, "spec": s, "ops": ops}
    c = gen_client(rng, n, (kind,))
    if kind == "io":
        c["spec"]["wide"] = rng.random() < 0.3
    return c


class Prop(Base):
    ID = "C12"
    TORCH = True
    SHIM = True
    QUICK_RUNS = 4000
    QUICK_WALL = 120
    THOROUGH_RUNS = 40000
    RULE = ("a run is 1-3 simulated clients of one process (scenes, fitters, meshes, energies, cameras, files, "
            "conversions, PyTorch views, an off-screen OpenGL renderer), their operations interleaved by a seeded order, with passes failing in the "
            "native engine or in a file operation, interrupted or rejected; every array that was passed to or returned by the public API is "
            "recorded with a copy and compared after every operation. Non-trivial: at least 10 arrays were watched "
            "over at least 3 operations.")
    STATE_MEASURE = "distinct histories of (client, operation, outcome)"
    ASSUMPTIONS = ["gradient accumulators are not results; with make_copies=False the image and the error buffer of that "
                   "scene's last pass may be overwritten, as documented",
                   "the arrays are watched by value, at the end of each operation"]
    COMPONENTS = {"real": ["deodr Python and PyTorch packages", "native engine built from /repo", "numpy, torch, trimesh"],
                  "stub": ["failing native calls and file operations", "asynchronous interrupt delivery", "a recorder around the public API"]}

    def setup(self):
        shim.prepare()
        c17.offscreen()

    def gen(self, rng, tier):
        clients = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            clients.append(_gen(rng, rng.randrange(3, 10), rng.choice(KINDS)))
        left = [list(range(len(c["ops"]))) for c in clients]
        order = []
        while any(left):
            k = rng.choice([i for i, x in enumerate(left) if x])
            for _ in range(rng.randrange(1, 4)):
                if left[k]:
                    order.append(k)
                    left[k].pop()
        faults = []
        if rng.random() < 0.6:
            for _ in range(rng.randrange(1, 4)):
                i = rng.randrange(len(order))
                if clients[order[i]]["kind"] == "io" and rng.random() < 0.6:
                    faults.append([i, "file", rng.choice([rng.randrange(4), rng.randrange(12)]), rng.choice([5, 28])])
                    continue
                if rng.random() < 0.5:
                    faults.append([i, "native", rng.choice(["before", "after"]), rng.choice(["MemoryError", "RuntimeError"]),
                                   rng.randrange(2)])
                else:
                    faults.append([i, "line", rng.choice([rng.randrange(20), rng.randrange(200)]),
                                   rng.choice(["KeyboardInterrupt", "MemoryError"])])
        return {"clients": clients, "order": order, "faults": faults}

    def execute(self, plan):
        with Scratch() as d:
            return self._execute(plan, d)

    def _execute(self, plan, scratch):
        cl = plan["clients"]
        stats = {"sim_steps": len(plan["order"])}
        fa = {f[0]: f for f in plan["faults"]}
        hist, ran = [], 0
        with Ledger() as led:
            acts = [None] * len(cl)
            pos = [0] * len(cl)
            for i, k in enumerate(plan["order"]):
                c = cl[k]
                if pos[k] >= len(c["ops"]):
                    continue
                op = c["ops"][pos[k]]
                pos[k] += 1
                if acts[k] is None:
                    cls = {"world": WorldActor, "gl": c17.GlActor}.get(c["kind"]) or actors.KINDS[c["kind"]]
                    acts[k] = cls(c["spec"], {"dir": scratch} if c["kind"] == "io" else None)
                f = fa.get(i)
                if f and (f[1] == "file" and c["kind"] != "io" or f[1] == "native" and c["kind"] == "io"):
                    f = None
                if f and f[1] != "file" and (op[0] in MUTATORS or (f[1] == "line" and c["kind"] in ("fitter", "world", "gl"))):
                    f = None
                ctx = None
                if f:
                    ctx = (NativeFault({f[4]: f[2]}, f[3]) if f[1] == "native" else LineFault(f[2], f[3]) if f[1] == "line"
                           else shim.Fs(scratch, [[f[2], "err", f[3]]]))
                try:
                    if ctx:
                        with ctx:
                            r = actors.attempt(acts[k], op)
                    else:
                        r = actors.attempt(acts[k], op)
                except KeyboardInterrupt:
                    r = ["raise", "KeyboardInterrupt"]
                if ctx is not None and ctx.fired:
                    n = "fault:" + (f"native_{f[2]}" if f[1] == "native" else f[3] if f[1] == "line" else "file_error")
                    stats[n] = stats.get(n, 0) + 1
                if r[0] == "raise":
                    stats["probe:rejected_or_failed"] = stats.get("probe:rejected_or_failed", 0) + 1
                if isinstance(r[1], np.ndarray):
                    led.add(r[1], f"the value returned to client {k} by {op[0]}")
                led.depth = 0
                ran += 1
                hist.append(f"{c['kind']}{k}.{op[0]}{'+' if r[0] == 'ok' else '-'}")
                v = led.check()
                if v:
                    return outcome({"sig": "modified:" + v[0].split("[")[0].replace(" ", "-"),
                                    "msg": f"operation {i} ({c['kind']}.{op[0]} of client {k}, "
                                    f"{'completed' if r[0] == 'ok' else 'raised ' + str(r[1])}) modified {v[0]}: {v[1]}"},
                                   stats, " ".join(hist), True, digest(hist))
            stats["watched_arrays"] = len(led.entries)
            stats["api_calls"] = led.calls
            n = len(led.entries)
        return outcome(None, stats, " ".join(hist), n >= 10 and ran >= 3, digest([hist, n]))

    def reduce(self, plan):
        for f in list_drops(plan["faults"]):
            yield {**plan, "faults": f}
        cl, order = plan["clients"], plan["order"]
        for k in range(len(cl)):
            if len(cl) > 1:
                keep = [i for i, o in enumerate(order) if o != k]
                yield {**plan, "clients": cl[:k] + cl[k + 1:], "order": [order[i] - (order[i] > k) for i in keep],
                       "faults": [[keep.index(f[0])] + f[1:] for f in plan["faults"] if f[0] in keep]}
        for i in reversed(range(len(order))):
            k = order[i]
            j = sum(1 for o in order[:i] if o == k)
            ops = cl[k]["ops"]
            if j < len(ops) and len(order) > 1:
                yield {**plan, "clients": cl[:k] + [{**cl[k], "ops": ops[:j] + ops[j + 1:]}] + cl[k + 1:],
                       "order": order[:i] + order[i + 1:],
                       "faults": [[f[0] - (f[0] > i)] + f[1:] for f in plan["faults"] if f[0] != i]}
        for k, c in enumerate(cl):
            if c["kind"] in ("world", "convert", "io", "gl"):
                continue
            for s in small_specs(c["kind"], c["spec"]):
                yield {**plan, "clients": cl[:k] + [{**c, "spec": s}] + cl[k + 1:]}


PROP = Prop()

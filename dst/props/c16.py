"""C16: repeating a sequence of operations does not make the process hold more and more memory or files."""
import array
import gc
import os
import sys

from .. import actors, shim
from ..engine import digest, list_drops, outcome
from . import c17, fitlib
from .c04 import _bad_2d
from .c12 import WorldActor, _gen
from .common import Base, NativeFault, Scratch, small_specs

KINDS = ("scene2d", "scene2d", "scene3d", "scene3d", "fitter", "mesh", "energy", "io", "camera", "convert", "world", "gl")
FORWARD = ("render", "rerr", "rcb", "depth", "deferred", "step")
WARM, MEASURED, WINDOW, CONFIRM = 3, 6, 5, 200


class _Actor:
    def __init__(self, c, d):
        cls = {"world": WorldActor, "gl": c17.GlActor}.get(c["kind"]) or actors.KINDS[c["kind"]]
        self.a = cls(c["spec"], {"dir": d} if c["kind"] == "io" else None)

    def run(self, ops, faults, d):
        """One cycle: all operations, with the faults of the plan. Counters of what was injected."""
        a, cnt = self.a, {}
        for i, op in enumerate(ops):
            f = faults.get(i)
            ctx = None
            if f is None:
                pass
            elif f[1] == "native":
                ctx = NativeFault({f[4]: f[2]}, f[3])
            elif f[1] == "new":
                ctx = shim.NewFault(f[2], f[3])
            elif f[1] == "malloc":
                ctx = shim.MalFault(f[2], f[3], 600)
            elif f[1] == "gl":
                ctx = c17.GlFault(f[2], f[3])
            elif f[1] == "fs":
                ctx = shim.Fs(d, [[f[2], f[3], f[4]]])
            if op[0] == "bad" and isinstance(a, actors.Scene2DActor):
                try:
                    _bad_2d(a, op)
                except (SystemExit, GeneratorExit, KeyboardInterrupt):
                    raise
                except BaseException:  # noqa: the package rejects with bare BaseException
                    cnt["rejected_input"] = cnt.get("rejected_input", 0) + 1
                continue
            if ctx is None:
                r = actors.attempt(a, op)
            else:
                with ctx:
                    r = actors.attempt(a, op)
                hit = (ctx.fired if f[1] == "native" else sum(ctx.fired.values()) if f[1] == "fs" else ctx.failed)
                if hit:
                    n = {"native": "native_" + str(f[2]), "new": "operator_new", "malloc": "malloc", "gl": "opengl",
                         "fs": "file_" + str(f[3])}[f[1]]
                    cnt[n] = cnt.get(n, 0) + 1
            if r[0] == "raise":
                cnt["raised"] = cnt.get("raised", 0) + 1
            r = None
        return cnt


class Prop(Base):
    ID = "C16"
    SHIM = True
    TORCH = True
    QUICK_RUNS = 2000
    QUICK_WALL = 80
    THOROUGH_RUNS = 20000
    RULE = ("a run repeats one seeded sequence of operations (scenes, fitters, meshes, energies, files, conversions, "
            "PyTorch views, an off-screen OpenGL renderer), on one set of objects or on a new one each time, with passes failing before, inside "
            "(allocation) or after the engine's work, rejected inputs and file errors; after 3 repetitions the live heap "
            "blocks and bytes, the interpreter's blocks and the open files are counted over 6 repetitions, and over up to "
            "200 more as long as the least of every 5 grows. Non-trivial: at least 20 operations were executed while counting.")
    STATE_MEASURE = "distinct repeated sequences (operation kinds and faults)"
    TIME_UNIT = "operations executed in the simulated process"
    COMPONENTS = {"real": ["deodr Python and PyTorch packages", "native engine built from /repo", "malloc, Python allocator",
                           "moderngl on Mesa llvmpipe"],
                  "stub": ["allocator answers and accounting (preloaded)", "file system answers", "failing native calls"]}
    ASSUMPTIONS = ["memory that stops growing within 206 repetitions is a cache, not a leak",
                   "reference cycles are collected before counting"]

    def setup(self):
        shim.prepare()
        c17.offscreen()
        for n in ("shim_live_armed", "shim_live_bytes", "shim_live_blocks"):
            shim.get(n)

    def gen(self, rng, tier):
        kind = rng.choice(KINDS)
        c = c17.gen_gl(rng, rng.randrange(3, 9)) if kind == "gl" else _gen(rng, rng.randrange(3, 9), kind)
        ops = c["ops"]
        if kind == "scene2d":
            out = []
            for o in ops:
                out.append(o)
                if rng.random() < 0.15:
                    out.append(["bad", rng.choice(["back", "rerr", "rcb", "sigma", "backe"]),
                                rng.choice(["rows", "chan", "dim", "f4", "str", "none"]), rng.randrange(10**6)])
            ops = c["ops"] = out
        faults = []
        torch = kind == "world" or (kind == "fitter" and c["spec"]["fit"] not in fitlib.NP)
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            i = rng.randrange(len(ops))
            if ops[i][0] == "bad":
                continue
            x = rng.random()
            if kind == "io":
                faults.append([i, "fs", rng.randrange(12), rng.choice(["err", "short", "eintr"]), rng.choice([28, 5, 24])])
            elif kind == "gl":
                faults.append([i, "gl", rng.randrange(6), rng.choice([1, 1, 2, 100])])
            elif x < 0.4 or torch:
                faults.append([i, "native", rng.choice(["before", "after"]), "MemoryError", rng.randrange(2)])
            elif x < 0.75:
                faults.append([i, "new", rng.choice([rng.randrange(4), rng.randrange(60)]), rng.choice([1, 1, 1000])])
            elif kind in ("scene2d", "scene3d"):  # elsewhere NumPy itself may not survive it
                faults.append([i, "malloc", rng.choice([rng.randrange(4), rng.randrange(60)]), 1])
        return {"client": c, "faults": faults, "fresh": rng.random() < 0.4}

    def execute(self, plan):
        with Scratch() as d:
            return self._execute(plan, d)

    def _execute(self, plan, d):
        c = plan["client"]
        fa = {f[0]: f for f in plan["faults"]}
        stats = {}
        gc.collect()
        gc.freeze()  # what is here before the first operation need not be looked at again
        bts, blk = shim._v("shim_live_bytes"), shim._v("shim_live_blocks")
        total = [0]
        box = [None if plan["fresh"] else _Actor(c, d)]

        def cycle():
            a = box[0] or _Actor(c, d)
            cnt = a.run(c["ops"], fa, d)
            del a
            for _ in range(2):
                gc.collect()
            sys._clear_type_cache()  # keeps the names of attributes looked up
            for k, v in cnt.items():
                k = "probe:raised" if k == "raised" else "fault:" + k
                stats[k] = stats.get(k, 0) + v
            total[0] += len(c["ops"])

        def state(a, i):
            # in preallocated memory, so that counting does not count itself
            a[4 * i] = blk.value
            a[4 * i + 1] = bts.value
            a[4 * i + 3] = len(os.listdir("/proc/self/fd"))
            a[4 * i + 2] = sys.getallocatedblocks()

        names = ("heap blocks", "heap bytes", "interpreter blocks", "open files")
        shim.put("shim_live_armed", 1)
        for _ in range(WARM):
            cycle()

        def measure(n):
            a = array.array("q", [0] * (4 * n + 4))
            state(a, 0)
            for i in range(n):
                cycle()
                state(a, i + 1)
            return [list(a[4 * i:4 * i + 4]) for i in range(n + 1)]

        pts = measure(MEASURED)
        grown = [k for k in range(4) if pts[-1][k] > pts[0][k]]
        viol = None
        if grown:
            stats["probe:confirmed"] = 1
            first, n, low = pts[0], 0, [min(p[k] for p in pts) for k in range(4)]
            while grown and n < CONFIRM:  # caches fill up slowly, but they do; what is in use goes up and down
                p2 = measure(WINDOW)
                n += WINDOW
                now = [min(p[k] for p in p2) for k in range(4)]
                grown = [k for k in grown if now[k] > low[k]]
                low = now
            if grown:
                k = grown[0]
                per = (p2[-1][k] - first[k]) / (n + MEASURED)
                viol = {"sig": "grows:" + names[k].replace(" ", "-"),
                        "msg": f"every repetition of {len(c['ops'])} operations on {'new' if plan['fresh'] else 'the same'} "
                        f"{c['kind']} objects leaves {per:.1f} more {names[k]}"}
        stats["sim_steps"] = total[0]
        hist = [c["kind"], "new" if plan["fresh"] else "same"] + [o[0] for o in c["ops"]] + [str(f[:2]) for f in plan["faults"]]
        return outcome(viol, stats, " ".join(hist), len(c["ops"]) * MEASURED >= 20, digest(hist))

    def reduce(self, plan):
        for f in list_drops(plan["faults"]):
            yield {**plan, "faults": f}
        c = plan["client"]
        for i in reversed(range(len(c["ops"]))):
            if len(c["ops"]) > 1:
                yield {**plan, "client": {**c, "ops": c["ops"][:i] + c["ops"][i + 1:]},
                       "faults": [[f[0] - (f[0] > i)] + f[1:] for f in plan["faults"] if f[0] != i]}
        if c["kind"] not in ("world", "convert", "gl"):
            for s in small_specs(c["kind"], c["spec"]):
                yield {**plan, "client": {**c, "spec": s}}


PROP = Prop()

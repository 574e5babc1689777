"""C08: copies and snapshots of live objects are faithful and independent."""
import copy
import os
import pickle

from .. import actors, forks
from ..actors import attempt
from ..engine import digest, list_drops, outcome
from .common import Base, Scratch, gen_client, mismatch, reference, small_specs, solo

KINDS = ("scene2d", "scene3d", "scene3d", "fitter", "mesh", "energy")


def _duplicate(a, how):
    if how == "deepcopy":
        return copy.deepcopy(a)
    return pickle.loads(pickle.dumps(a, protocol={"pickle5": 5, "pickle2": 2}[how]))


class _Crash:
    """The process dies at its n-th native call."""

    def __init__(self, n):
        self.left = n

    def __enter__(self):
        import deodr.differentiable_renderer_cython as c

        def wrap(f, after):
            def g(*a, **k):
                self.left -= 1
                if self.left == 0 and not after:
                    os._exit(forks.CRASH_EXIT)
                r = f(*a, **k)
                if self.left == 0:
                    os._exit(forks.CRASH_EXIT)
                return r
            return g

        c.renderSceneCpp, c.renderSceneBCpp = wrap(c.renderSceneCpp, False), wrap(c.renderSceneBCpp, True)

    def __exit__(self, *a):
        os._exit(forks.CRASH_EXIT)


def _life(kind, spec, path, ops, ckpts, crash):
    """One life of the process: resumes from the checkpoint, dies at the crash point or completes.
    Outcomes are only as durable as the checkpoint they are stored in."""
    if os.path.exists(path):
        with open(path, "rb") as f:
            a, done = pickle.load(f)
    else:
        a, done = actors.KINDS[kind](spec), []
    for i in range(len(done), len(ops)):
        if crash is not None and crash[0] == i:
            with _Crash(crash[1]):
                attempt(a, ops[i])
        done.append(attempt(a, ops[i]))
        if i in ckpts:
            with open(path + ".tmp", "wb") as f:
                pickle.dump((a, done), f, protocol=4)
            os.replace(path + ".tmp", path)
    return done


class Prop(Base):
    ID = "C08"
    TORCH = True
    QUICK_RUNS = 3000
    QUICK_WALL = 150
    THOROUGH_RUNS = 30000
    RULE = ("a run is one seeded history on a scene, mesh, rigidity energy or fitter. In copy runs 1-3 copies are made "
            "(deep copy or pickle) at arbitrary points and all of them go on interleaved, some objects being dropped; "
            "each must behave like an object that has lived that history alone in a pristine process. In restart runs "
            "the process checkpoints by pickling, is killed 1-2 times (between operations or inside a native call), "
            "and the restarted processes must continue exactly as an uninterrupted one. Non-trivial: at least one "
            "operation was compared after a copy or a restart.")
    STATE_MEASURE = "distinct (kind, interleaving of operations and copies, crash points)"
    TIME_UNIT = "operations executed in the simulated processes"

    def gen(self, rng, tier):
        if rng.random() < 0.12:
            spec = actors.fitter_spec(rng, actors.TORCH_FITS[:2])  # torch's own LBFGS cannot be pickled
            c = {"kind": "fitter", "spec": spec, "ops": [rng.choice([["step"], ["step"], ["image", rng.randrange(10**6)]])
                                                         for _ in range(6)]}
            torch = True
        else:
            c, torch = gen_client(rng, 10, KINDS), False
            c["ops"] = spice(rng, c["kind"], c["ops"])
        ops = c["ops"]
        if rng.random() < 0.35:
            n = len(ops)
            crashes = [[rng.randrange(n), rng.randrange(0, 4)] for _ in range(rng.choice([1, 1, 2]))]
            ck = sorted(rng.sample(range(n), rng.randrange(1, min(4, n) + 1)))
            return {"mode": "restart", "kind": c["kind"], "spec": c["spec"], "ops": ops, "ckpts": ck, "crashes": crashes}
        n = len(ops)
        more = [gen_ops(rng, c, 6) for _ in range(3)]
        if not torch:
            more = [spice(rng, c["kind"], o) for o in more]
        k = rng.randrange(0, max(1, n))
        ev = [["op", 0, o] for o in ops[:k]]
        q = {0: list(ops[k:])}
        left = rng.randrange(1, 4)
        hows = ["pickle5", "pickle2"] if torch else ["deepcopy", "deepcopy", "pickle5", "pickle2"]
        nxt = 1
        while (q and any(q.values())) or left:
            live = sorted(q)
            if left and (rng.random() < 0.4 or not any(q.values())):
                s = rng.choice(live)
                ev.append(["copy", s, nxt, rng.choice(hows)])
                q[nxt] = list(q[s]) if rng.random() < 0.3 else more[nxt - 1]
                nxt += 1
                left -= 1
                continue
            s = rng.choice([x for x in live if q[x]] or live)
            if q[s]:
                ev.append(["op", s, q[s].pop(0)])
            if len(live) > 1 and rng.random() < 0.12:
                d = rng.choice(live)
                ev.append(["drop", d])
                del q[d]
        return {"mode": "copy", "kind": c["kind"], "spec": c["spec"], "ops": ev}

    def execute(self, plan):
        return self._restart(plan) if plan["mode"] == "restart" else self._copy(plan)

    def _copy(self, plan):
        stats = {"sim_steps": len(plan["ops"]), "copy_runs": 1}
        objs, hist, own, first = {0: None}, {0: []}, {0: []}, {}
        for e in plan["ops"]:
            if e[0] == "op" and e[1] in hist:
                hist[e[1]].append(e[2])
            elif e[0] == "copy" and e[1] in hist:
                hist[e[2]] = list(hist[e[1]])
        exp = {}
        for k, h in hist.items():
            r = reference(solo, plan["kind"], plan["spec"], h)
            if r[0] == "dead":
                return outcome({"sig": "process-died", "msg": f"the history alone: process {r[1]}"}, stats)
            exp[k] = r[1]
        objs[0] = actors.KINDS[plan["kind"]](plan["spec"])
        pos = {0: 0}
        key, seen, nt = [plan["kind"]], [], False
        for i, e in enumerate(plan["ops"]):
            if e[0] == "drop":
                objs.pop(e[1], None)
                key.append(f"x{e[1]}")
                continue
            if e[1] not in objs:
                continue
            if e[0] == "copy":
                try:
                    objs[e[2]] = _duplicate(objs[e[1]], e[3])
                except Exception as x:
                    return outcome({"sig": "copy-failed", "msg": f"{e[3]} of a {plan['kind']} object failed: "
                                    f"{type(x).__name__}: {x}"}, stats, " ".join(key), True, digest(seen))
                pos[e[2]] = pos[e[1]]
                key.append(f"{e[1]}>{e[2]}{e[3][0]}{e[3][-1]}")
                stats["probe:copy_" + e[3]] = stats.get("probe:copy_" + e[3], 0) + 1
                continue
            r = attempt(objs[e[1]], e[2])
            key.append(f"{e[1]}:{e[2][0]}")
            seen.append(r)
            v = mismatch(r, exp[e[1]][pos[e[1]]], f"{e[2][0]} (event {i}) on object {e[1]} of {len(hist)} "
                         f"({plan['kind']})")
            pos[e[1]] += 1
            if v:
                return outcome(v, stats, " ".join(key), True, digest(seen))
            nt = nt or len(pos) > 1
        return outcome(None, stats, " ".join(key), nt, digest([seen, key]))

    def _restart(self, plan):
        ops = plan["ops"]
        stats = {"sim_steps": len(ops), "restart_runs": 1}
        r = reference(solo, plan["kind"], plan["spec"], ops)
        if r[0] == "dead":
            return outcome({"sig": "process-died", "msg": f"the history alone: process {r[1]}"}, stats)
        exp = r[1]
        key, done, deaths = [plan["kind"]], None, 0
        with Scratch() as d:
            path = os.path.join(d, "state")
            for crash in plan["crashes"] + [None]:
                try:
                    done = forks.call(_life, plan["kind"], plan["spec"], path, ops, plan["ckpts"], crash)
                    break
                except forks.ChildDied as e:
                    if not (os.WIFEXITED(e.status) and os.WEXITSTATUS(e.status) == forks.CRASH_EXIT):
                        return outcome({"sig": "process-died", "msg": f"a life of the process ended unexpectedly: "
                                        f"{e.how()}"}, stats, " ".join(key), True)
                    deaths += 1
                    stats["fault:crash"] = stats.get("fault:crash", 0) + 1
                    key.append(f"crash{crash}" + ("+" if os.path.exists(path) else "-"))
                except forks.ChildError as e:
                    if "pickle" in str(e):
                        return outcome({"sig": "snapshot-failed", "msg": f"a {plan['kind']} object could not be "
                                        f"snapshotted or restored: {str(e)[-300:]}"}, stats, " ".join(key), True)
                    raise
        key += [o[0] for o in ops]
        for i, (g, x) in enumerate(zip(done, exp)):
            v = mismatch(g, x, f"{ops[i][0]} (operation {i}, {plan['kind']}) after {deaths} restarts")
            if v:
                return outcome(v, stats, " ".join(map(str, key)), True, digest(done))
        stats["probe:restarted_from_snapshot"] = int(any(k.endswith("+") for k in key if isinstance(k, str)))
        return outcome(None, stats, " ".join(map(str, key)), deaths > 0, digest(done))

    def reduce(self, plan):
        if plan["mode"] == "restart":
            for c in list_drops(plan["crashes"]):
                yield {**plan, "crashes": c}
            for i in reversed(range(len(plan["ops"]))):
                ops = plan["ops"][:i] + plan["ops"][i + 1:]
                if ops:
                    sh = [k - (k > i) for k in plan["ckpts"] if k != i or i > 0]
                    yield {**plan, "ops": ops, "ckpts": sorted(set(max(0, k) for k in sh)),
                           "crashes": [[c[0] - (c[0] > i), c[1]] for c in plan["crashes"]]}
        else:
            for ops in list_drops(plan["ops"]):
                if ops:
                    yield {**plan, "ops": ops}
        for s in small_specs(plan["kind"], plan["spec"]):
            yield {**plan, "spec": s}


def spice(rng, kind, ops):
    """Adds reading of accumulated gradients and writing into the arrays an object holds."""
    out = []
    for o in ops:
        if rng.random() < 0.12 and kind not in ("energy", "fitter"):
            out.append(["grads"])
        if o[0] in ("render", "rerr", "rcb", "depth", "deferred", "eval", "step", "subdiv", "trimesh") and rng.random() < 0.2:
            out.append(["poke", rng.randrange(10**6)])
        out.append(o)
    return out


def gen_ops(rng, c, n):
    """More operations for an object of the same description."""
    k, s = c["kind"], c["spec"]
    if k == "scene2d":
        return actors.gen_scene2d_ops(rng, n)
    if k == "scene3d":
        return actors.gen_scene3d_ops(rng, n, s)
    if k == "mesh":
        return actors.gen_mesh_ops(rng, n, s)
    if k == "energy":
        return [["eval", rng.randrange(10**6)] for _ in range(n)]
    if s["fit"].startswith("torch"):
        return [rng.choice([["step"], ["step"], ["image", rng.randrange(10**6)]]) for _ in range(3)]
    return [rng.choice([["step"], ["step"], ["reset"], ["settings", rng.randrange(10**6)], ["view", rng.randrange(10**6)],
                        ["image", rng.randrange(10**6)]]) for _ in range(3)]


PROP = Prop()

"""C01: concurrent callers with their own objects do not influence each other."""
import copy
import math

from .. import actors, gen, sched
from ..engine import digest, list_drops, outcome
from .common import Base, Scratch, gen_client, mismatch, reference, small_specs

CAM = ("scene3d", "camera")  # kinds that can share cameras


def _shared(plan):
    """Read-only data several clients are given: cameras and mesh arrays."""
    sh = {}
    if plan.get("share") and plan["share"] != "pool":
        c0 = next((c for c in plan["clients"] if c["kind"] in CAM), None)
        if c0 is not None:
            m = c0["spec"]["mesh"]
            ref = gen.vertices_for(m)
            sh["cams"] = [gen.make_camera(c, ref) for c in c0["spec"]["cams"]]
            if c0["kind"] == "scene3d":
                sh["mesh_arrays"] = gen.mesh_arrays(m)
        e0 = next((c for c in plan["clients"] if c["kind"] == "energy"), None)
        if e0 is not None:
            sh["energy"] = actors.EnergyActor(e0["spec"]).e
    return sh


def _program(client, shared, out):
    if client["kind"] in ("scene2d", "fitter", "mesh", "torchfit", "world", "ambient"):
        shared = None
    a = actors.KINDS[client["kind"]](client["spec"], shared)
    for op in client["ops"]:
        out.append(actors.attempt(a, op))


def _alone(client, mode):
    """Reference, and where the scheduling points of the client are: {location: [local steps]}."""
    out, log = [], []
    with Scratch() as d:
        s = sched.Scheduler([lambda: _program(client, {"dir": d}, out)], mode=mode, log=log)
        s.run()
    if s.errors[0] is not None:
        raise s.errors[0]
    where = {}
    for i, loc in enumerate(log):
        k = where.setdefault(loc, [])
        if len(k) < 64:
            k.append(i + 1)
    return out, s.step, list(where.values())


def _twin(x, rng, key=None):
    """The same structure with other data."""
    if isinstance(x, dict):
        return {k: _twin(v, rng, k) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_twin(v, rng, key) for v in x]
    if type(x) is int and x >= 1000 or key in ("seed", "image"):
        return rng.randrange(20, 16000) * 60 + x % 60  # what depends on the seed modulo something stays
    return x


def _normalise(plan):
    """Clients that share data use the spec of the first one."""
    cl = plan["clients"]
    if plan.get("share") == "pool":
        first = {}
        out = []
        for c in cl:
            s = first.setdefault(c["kind"], c["spec"])
            if c["kind"] == "io":
                s = {**s, "name": c["spec"]["name"]}
            out.append({**c, "spec": s})
        return out
    if plan.get("share"):
        c0 = next((c for c in cl if c["kind"] in CAM), None)
        if c0 is not None:
            s0 = c0["spec"]
            cl = [{**c, "spec": {**c["spec"], "mesh": s0["mesh"], "cams": s0["cams"]}} if c["kind"] in CAM else c
                  for c in cl]
        e0 = next((c for c in cl if c["kind"] == "energy"), None)
        if e0 is not None:
            cl = [{**c, "spec": e0["spec"]} if c["kind"] == "energy" else c for c in cl]
    return cl


def _twins(clients, rng):
    """Other data of the same shapes: the same code, and whatever it keeps between calls."""
    clients = [clients[0]] + [_twin(clients[0], rng) for _ in clients[1:]]
    for i, c in enumerate(clients):
        if c["kind"] == "io":
            c["spec"] = {**c["spec"], "name": f"d{i}"}
    return clients


class Prop(Base):
    ID = "C01"
    SHIM = True
    POINTS = True
    QUICK_RUNS = 6000
    LATE_RUNS = (125, 250)  # per thousand, with PyTorch
    THOROUGH_RUNS = 60000
    QUICK_WALL = 200
    RULE = ("a run is 2-4 simulated client threads, each with its own scene or fitter (sharing at most read-only "
            "arrays and cameras), interleaved by a seeded schedule of up to 24 preemptions at source-line or "
            "native-call granularity, spread over the run or over the distinct locations it passes; non-trivial: at least one preemption took effect inside package code.")
    TIME_UNIT = "scheduling points (source lines and native calls of package code)"
    STATE_MEASURE = "distinct interleavings (hash of the sequence of switches)"
    COMPONENTS = {"real": Base.COMPONENTS["real"] + ["real threads, released one at a time"],
                  "stub": ["the choice of who runs (seeded scheduler)", "locks created by the package"]}

    def gen(self, rng, tier):
        n = rng.choice([2, 2, 2, 3, 3, 4])
        kinds = rng.choice([("scene3d",), ("scene2d",), ("scene2d", "scene3d", "fitter"), ("fitter",), ("mesh",), ("energy",), ("io",), ("camera",), ("convert",),
                            ("scene2d", "scene3d", "fitter", "mesh", "energy", "io", "camera", "convert"),
                            ("scene2d", "scene3d", "fitter")])
        clients = [gen_client(rng, rng.randrange(2, 7), kinds) for _ in range(n)]
        if rng.random() < 0.35:  # same program in several clients: same code paths, different data
            for c in clients[1:]:
                if c["kind"] == clients[0]["kind"]:
                    c["ops"] = copy.deepcopy(clients[0]["ops"])
        twins = rng.random() < 0.5
        if twins:
            clients = _twins(clients, rng)
        if rng.random() < 0.12:
            clients[-1] = gen_client(rng, rng.randrange(1, 4), ("ambient",))
        mode = "call" if rng.random() < 0.5 else "line"
        k = rng.choice([1, 2, 3, 6, 12, 24])
        pre = sorted([round(rng.random(), 9), rng.randrange(n)] for _ in range(k))
        if rng.random() < 0.25:  # a burst: switch at almost every point of a short window
            a = rng.random()
            pre += [[min(0.999999999, a + j * 1e-4), rng.randrange(n)] for j in range(24)]
        at = []
        if rng.random() < 0.5:
            # stopped at a location chosen among all those the client passes, however rarely, while others go on
            for _ in range(rng.choice([1, 1, 2, 3, 4])):
                at.append([rng.randrange(n), round(rng.random(), 9), round(rng.random(), 9), rng.randrange(n)])
            pre = pre[:0] if rng.random() < 0.8 else pre
        share = rng.random()
        share = "pool" if share < 0.3 else share < 0.3 + 0.7 * (0.15 if twins else 0.4)
        if share == "pool" and rng.random() < 0.7:  # and the arguments of their operations
            for c in clients[1:]:
                if c["kind"] == clients[0]["kind"]:
                    c["ops"] = copy.deepcopy(clients[0]["ops"])
        return {"clients": clients, "mode": mode, "preempt": sorted(pre), "at": at, "first": rng.randrange(n),
                "share": share}

    def gen_torch(self, rng, tier):
        p = self.gen(rng, tier)
        p["torch"] = True
        kinds = rng.choice([("world",), ("torchfit",), ("world", "torchfit"), ("world", "torchfit", "scene3d", "fitter")])
        p["clients"] = [gen_client(rng, rng.randrange(2, 7), kinds) for _ in p["clients"]]
        if rng.random() < 0.7:
            p["clients"][0] = gen_client(rng, rng.randrange(2, 7), kinds[:2])
        if rng.random() < 0.5:
            p["clients"] = _twins(p["clients"], rng)
        if rng.random() < 0.25 and len(p["clients"]) > 2:
            p["clients"][-1] = gen_client(rng, rng.randrange(1, 4), ("ambient",))
        p["share"] = False
        return p

    def execute(self, plan):
        with Scratch() as d:
            return self._execute(plan, d)

    def _execute(self, plan, scratch):
        clients = _normalise(plan)
        stats = {}
        refs, total, where = [], 0, []
        for c in clients:
            r = reference(_alone, c, plan["mode"])
            if r[0] == "dead":
                return outcome({"sig": "process-died", "msg": f"a client running alone: process {r[1]}"}, stats)
            refs.append(r[1][0])
            total += r[1][1]
            where.append(r[1][2])
        shared = _shared({**plan, "clients": clients})
        shared["dir"] = scratch
        outs = [[] for _ in clients]
        bodies = [(lambda c=c, o=o: _program(c, shared, o)) for c, o in zip(clients, outs)]
        pre = [[1 + math.floor(f * total), t] for f, t in plan["preempt"]]
        at = []
        for t, f, g, to in plan.get("at", ()):
            if t < len(clients) and where[t]:
                steps = where[t][int(f * len(where[t]))]
                at.append([t, steps[int(g * len(steps))], to if to != t else (t + 1) % len(clients)])
        s = sched.Scheduler(bodies, preempt=pre, at=at, mode=plan["mode"], max_steps=5 * total + 10000)
        pool = gen.Pool()
        if plan["share"] == "pool":
            with pool:
                s.run(plan["first"])
            stats["probe:pooled_inputs"] = len(pool.made)
        else:
            s.run(plan["first"])
        stats.update({"sim_steps": s.step, "probe:preemptions": s.switches, "fault:preemption": s.switches,
                      "probe:native_call_points": int(plan["mode"] == "call"),
                      "probe:points_without_interpreter_lock": s.native_points, "clients": len(clients),
                      "probe:shared_read_only_data": int(len(shared) > 1)})
        viol = None
        if s.deadlock:
            viol = {"sig": "deadlock", "msg": "all clients blocked for ever"}
        elif s.limit_hit:
            viol = {"sig": "no-progress", "msg": f"{s.step} scheduling points, {total} when run alone"}
        else:
            for t, c in enumerate(clients):
                if s.errors[t] is not None:
                    viol = {"sig": f"raised:{c['kind']}",
                            "msg": f"client {t} died with {type(s.errors[t]).__name__}: {s.errors[t]}"}
                    break
                for i, (g, e) in enumerate(zip(outs[t], refs[t])):
                    m = mismatch(g, e, f"{c['kind']}.{c['ops'][i][0]} (client {t}, operation {i}, compared with the "
                                 "same client alone)")
                    if m:
                        viol = m
                        break
                if viol:
                    break
        if viol is None and plan["share"] == "pool" and pool.changed():
            viol = {"sig": "shared-input-changed", "msg": f"inputs the clients share ({pool.changed()}) were modified"}
        return outcome(viol, stats, f"{s.trace_hash:x}", s.switches > len(clients) - 1, digest([outs, s.step, s.trace_hash]))

    def reduce(self, plan):
        for p in list_drops(plan["preempt"]):
            yield {**plan, "preempt": p}
        for p in list_drops(plan.get("at", [])):
            yield {**plan, "at": p}
        cl = plan["clients"]
        if plan["share"]:
            yield {**plan, "share": False, "clients": _normalise(plan)}
        if len(cl) > 2:
            for i in range(len(cl)):
                yield {**plan, "clients": cl[:i] + cl[i + 1 :]}
        for i, c in enumerate(cl):
            for ops in list_drops(c["ops"]):
                if ops:
                    yield {**plan, "clients": cl[:i] + [{**c, "ops": ops}] + cl[i + 1 :]}
        if plan["mode"] == "call":
            yield {**plan, "mode": "line"}
        for i, c in enumerate(cl):
            for s in small_specs(c["kind"], c["spec"]):
                yield {**plan, "clients": cl[:i] + [{**c, "spec": s}] + cl[i + 1 :]}


PROP = Prop()

"""C02: what a scene computes does not depend on its history."""
from .. import actors, gen
from ..cmp import diff
from ..engine import digest, list_drops, outcome
from ..faults import LineFault
from .common import reference


def _solo(kind, spec, ops):
    """Runs a program on fresh objects; the outcome of its last operation."""
    a = actors.KINDS[kind](spec)
    r = None
    for op in ops:
        r = actors.attempt(a, op)
    return r


class Prop:
    ID = "C02"
    QUICK_RUNS = 4000
    THOROUGH_RUNS = 40000
    RULE = ("a run is one seeded history of 4-14 operations on one scene object, with rejected operations and "
            "asynchronous interrupts; every observable of every operation is compared with the same operation on "
            "fresh objects in a pristine process. Non-trivial: at least two render passes were compared.")
    TIME_UNIT = "operations executed on simulated scenes"
    STATE_MEASURE = "distinct (operation kinds, outcomes) histories"
    COMPONENTS = {"real": ["deodr Python package", "native engine built from /repo", "numpy", "scipy"],
                  "stub": ["asynchronous interrupt delivery (raised by the tracer at a chosen event)"]}
    ASSUMPTIONS = ["the reference is the same code on fresh objects in a process that has done nothing else"]

    def gen(self, rng, tier):
        kind = rng.choice(["scene2d", "scene2d", "scene3d", "scene3d", "scene3d", "scene3d", "camera"])
        n = rng.randrange(4, 15)
        if kind == "camera":
            spec = actors.camera_actor_spec(rng)
            ops = actors.gen_camera_ops(rng, n)
            if rng.random() < 0.3:
                ops.insert(rng.randrange(n), ["reuse"])
        elif kind == "scene2d":
            spec = gen.scene2d_spec(rng)
            ops = actors.gen_scene2d_ops(rng, n)
        else:
            spec = actors.scene3d_spec(rng)
            spec["in_place"] = rng.random() < 0.5
            ops = actors.gen_scene3d_ops(rng, n, spec)
            if rng.random() < 0.3:
                # the caller puts arrays that the scene has copied to another use
                for _ in range(rng.randrange(1, 3)):
                    ops.insert(rng.randrange(n), ["reuse", rng.choice(["light", "light", "faces"]), rng.randrange(10**6)])
                ops = ops[:n]
        if kind != "scene2d" and rng.random() < 0.35:
            for _ in range(rng.randrange(1, 4)):
                at = rng.choice([i for i, o in enumerate(ops) if o[0] in actors.KINDS[kind].FORWARD + ("info",)] or [0])
                if kind == "scene3d" and spec["mesh"].get("textured") and rng.random() < 0.5:
                    ops.insert(at, [rng.choice(["tex", "uv"]), rng.randrange(10**6), rng.randrange(2)])
                    continue
                ops.insert(at, ["cam", rng.randrange(10**6), rng.randrange(len(spec["cams"]))])
            n = len(ops)
        faults = []
        if rng.random() < 0.5:
            for _ in range(rng.randrange(1, 4)):
                faults.append([rng.randrange(n), rng.choice([rng.randrange(12), rng.randrange(80), rng.randrange(400)]),
                               rng.choice(["KeyboardInterrupt", "MemoryError"])])
        return {"kind": kind, "spec": spec, "ops": ops, "faults": faults}

    def execute(self, plan):
        kind, spec, ops = plan["kind"], plan["spec"], plan["ops"]
        cls = actors.KINDS[kind]
        fa = {f[0]: f for f in plan["faults"] if f[0] < len(ops)
              and ops[f[0]][0] in cls.FORWARD + ("back", "backe", "backd", "rcb", "pback", "info", "tools") + actors.QUERY}
        stats = {"sim_steps": len(ops)}
        exp = {}
        for i, op in enumerate(ops):
            prog = actors.minimal(cls, ops, i)
            if prog is not None:
                r = reference(_solo, kind, spec, prog)
                if r[0] == "dead":
                    return outcome({"sig": "process-died", "msg": f"operation {i} {op} on fresh objects: process {r[1]}"},
                                   stats)
                exp[i] = r[1]
        a = cls(spec)
        got, viol, hist = [], None, []
        valid = True  # False while the last forward pass was interrupted: backward results are then unspecified
        dirty = False  # a backward pass had an unspecified effect on accumulated gradients
        compared = 0
        for i, op in enumerate(ops):
            lf = None
            if i in fa:
                with LineFault(fa[i][1], fa[i][2]) as lf:
                    try:
                        r = actors.attempt(a, op)
                    except KeyboardInterrupt:
                        r = ["raise", "KeyboardInterrupt"]
                if lf.fired:
                    stats["fault:" + fa[i][2]] = stats.get("fault:" + fa[i][2], 0) + 1
                    hist.append(op[0] + "!")
                    if op[0] == "proj":
                        a.stores.pop(op[3], None)
                    if op[0] not in actors.QUERY:
                        valid, dirty = False, True
                    got.append(r)
                    continue
            else:
                r = actors.attempt(a, op)
            got.append(r)
            hist.append(op[0] + ("+" if r[0] == "ok" else "-"))
            if op[0] in cls.FORWARD or op[0] == "rcb":
                valid = True
            if op[0] in ("clear", "rcb"):
                dirty = r[0] != "ok"
            elif op[0] in ("back", "backe", "backd") and not valid:
                dirty = True
            if r[0] == "raise":
                stats["probe:rejected_operation"] = stats.get("probe:rejected_operation", 0) + 1
            if i not in exp or (op[0] in ("back", "backe", "backd") and not valid):
                continue
            if op[0] == "clear" and (kind == "scene3d" or not valid):
                continue
            if op[0] in ("back", "backd", "backe") and kind == "scene2d" and dirty:
                continue
            if op[0] == "pback" and op[1] not in a.stores:
                continue
            e = exp[i]
            compared += 1
            if e[0] != r[0]:
                viol = {"sig": f"outcome-differs:{op[0]}",
                        "msg": f"operation {i} {op} {'raised ' + r[1] if r[0] == 'raise' else 'completed'} after the "
                               f"history but {'raises ' + e[1] if e[0] == 'raise' else 'completes'} on fresh objects"}
                break
            if r[0] == "ok":
                d = diff(r[1], e[1])
                if d:
                    viol = {"sig": f"result-differs:{op[0]}", "msg": f"operation {i} {op}: {d} from the same "
                            "operation on fresh objects"}
                    break
        stats["probe:render_after_fault"] = int(any(h.endswith("!") for h in hist[:-1]))
        stats["compared"] = compared
        return outcome(viol, stats, " ".join([kind] + hist), compared >= 2, digest([got, hist]))

    def reduce(self, plan):
        for f in list_drops(plan["faults"]):
            yield {**plan, "faults": f}
        n = len(plan["ops"])
        for i in reversed(range(n)):
            ops = plan["ops"][:i] + plan["ops"][i + 1 :]
            yield {**plan, "ops": ops, "faults": [[f[0] - (f[0] > i), f[1], f[2]] for f in plan["faults"] if f[0] != i]}
        s = plan["spec"]
        if plan["kind"] == "camera":
            return
        if plan["kind"] == "scene3d":
            for ch in ({"mesh2": None} if s.get("mesh2") else {}, {"sigma": 0}, {"pc": False}, {"ipc": True}, {"cams": s["cams"][:1]}, {"light": None},
                       {"mesh": {**s["mesh"], "kind": "tetra"}},
                       {"cams": [{**c, "w": min(c["w"], 6), "h": min(c["h"], 6), "dist": False} for c in s["cams"]]}):
                if {**s, **ch} != s:
                    yield {**plan, "spec": {**s, **ch}}
        else:
            for ch in ({"nf": 1}, {"nf": max(1, s["nf"] // 2)}, {"h": 4}, {"w": 4}, {"c": 1}, {"textured": False}):
                if {**s, **ch} != s:
                    yield {**plan, "spec": {**s, **ch}}


PROP = Prop()

"""C07: a failed optimisation step changes nothing and can be retried."""
from ..actors import attempt
from ..cmp import diff
from ..engine import digest, list_drops, outcome
from .common import Base, mismatch, reference, solo
from .fitlib import ALL, FitterActor, failed_step, fitter_spec, gen_fault, small_fit


def _vertices(a):
    """A copy of the vertices of the fitter, or None."""
    v = getattr(a.f, "vertices", None)
    return None if v is None else v.detach().clone() if hasattr(v, "detach") else v.copy()


def _put_back(a, kept):
    """Every step first centres the vertices. Centring them once more when the step is repeated rounds them differently,
    and an unstable optimisation makes any difference large: the vertices, whose shape has just been found unchanged,
    are put back exactly."""
    if kept is not None:
        a.f.vertices = kept


class Prop(Base):
    ID = "C07"
    TORCH = True
    QUICK_RUNS = 2400
    QUICK_WALL = 150
    THOROUGH_RUNS = 24000
    RULE = ("a run is one seeded optimisation of 2-8 operations with 1-4 failures injected into its steps (native "
            "forward or backward pass of any frame, or the rigidity energy, failing before or after doing its work; "
            "refused images); after every failure the state of the fitter is compared with the state before the "
            "step, the step is retried, and the whole trajectory is compared with a failure-free run in a pristine "
            "process. Non-trivial: at least one failure fired.")
    STATE_MEASURE = "distinct (fitter, operations, failure positions)"
    COMPONENTS = {"real": ["mesh fitters (NumPy and PyTorch)", "native engine built from /repo", "torch autograd"],
                  "stub": ["failing native calls and rigidity energy: the entry points raise before or after their work"]}
    TIME_UNIT = "fitter operations"

    def gen(self, rng, tier):
        spec = fitter_spec(rng, ALL if rng.random() < 0.6 else ALL[:3])
        ops = []
        for _ in range(rng.randrange(2, 7)):
            ops.append(rng.choice([["step"]] * 5 + [["image", rng.randrange(10**6)], ["settings", rng.randrange(10**6)],
                                                    ["reset"], ["jump", rng.choice([498, 499, 500])], ["view", rng.randrange(10**6)]]))
        if ["step"] not in ops:
            ops.append(["step"])
        ops.append(["step"])
        steps = [i for i, o in enumerate(ops) if o[0] == "step"]
        faults = []
        for i in rng.sample(steps, rng.randrange(1, min(3, len(steps)) + 1)):
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                if rng.random() < 0.12:
                    faults.append([i, ["image", rng.randrange(10**6)]])
                else:
                    faults.append([i, gen_fault(rng, spec)])
        return {"spec": spec, "ops": ops, "faults": faults}

    def execute(self, plan):
        spec, ops = plan["spec"], plan["ops"]
        stats = {"sim_steps": len(ops) + len(plan["faults"])}
        r = reference(solo, "fitter", spec, ops)
        if r[0] == "dead":
            return outcome({"sig": "process-died", "msg": f"the optimisation alone: process {r[1]}"}, stats)
        exp = r[1]
        a = FitterActor(spec)
        image = spec["image"]
        hist, seen, nt = [spec["fit"]], [], False
        for i, o in enumerate(ops):
            done = None
            if o[0] == "image":
                image = o[1]
            for f in [f[1] for f in plan["faults"] if f[0] == i and o[0] == "step"]:
                before, it, kept = a.state(), getattr(a.f, "iter", None), _vertices(a)
                if f[0] == "image":
                    # a refused image: the step that meets it fails, then the proper image is set again
                    b = attempt(a, ["bad", f[1]])
                    c = attempt(a, ["step"]) if b[0] == "ok" else b
                    if c[0] == "ok":
                        # accepted after all: nothing is required, and the trajectories are no longer comparable
                        return outcome(None, stats, " ".join(hist) + " accepted", nt, digest([seen, hist]))
                    d = diff(a.state(), before)
                    _put_back(a, kept)
                    a.image(image)
                    if it is not None:
                        a.f.iter = it  # giving an image starts the count anew
                    fired, what = True, "a refused image"
                    k = "fault:refused_image"
                else:
                    fired, res = failed_step(a, f)
                    what = f"a failure {f[1]} the " + ("rigidity energy" if f[0] == "rigid" else f"native call {f[3]}")
                    k = f"fault:{f[0]}_{f[1]}"
                    if res[0] == "ok":
                        if fired:
                            return outcome({"sig": "failure-swallowed", "msg": f"step {i} completed in spite of {what}"},
                                           stats, " ".join(hist), True, digest(seen))
                        done = res
                        break
                    d = diff(a.state(), before)
                    if d is None and getattr(a.f, "iter", None) != it:
                        d = f".iter: {getattr(a.f, 'iter', None)} vs {it}"
                    _put_back(a, kept)
                stats[k] = stats.get(k, 0) + 1
                hist.append("!" + f[0][0] + str(f[3] if len(f) > 3 else "") + (f[1][0] if f[0] != "image" else ""))
                nt = True
                if d:
                    return outcome({"sig": "state-changed-by-failed-step", "msg": f"{spec['fit']}: step {i} failed with "
                                    f"{what} and changed the state{d}"}, stats, " ".join(hist), True, digest(seen))
            res = done or attempt(a, o)
            hist.append(o[0])
            seen.append(res)
            v = mismatch(res, exp[i], f"{o[0]} (operation {i}) of a {spec['fit']} fitter, retried after failures,")
            if v:
                return outcome(v, stats, " ".join(hist), nt, digest(seen))
        stats["probe:retried_then_compared"] = int(nt)
        return outcome(None, stats, " ".join(hist), nt, digest([seen, hist]))

    def reduce(self, plan):
        for f in list_drops(plan["faults"]):
            yield {**plan, "faults": f}
        for i in reversed(range(len(plan["ops"]))):
            ops = plan["ops"][:i] + plan["ops"][i + 1:]
            if ops:
                yield {**plan, "ops": ops, "faults": [[f[0] - (f[0] > i)] + f[1:] for f in plan["faults"] if f[0] != i]}
        for s in small_fit(plan["spec"]):
            yield {**plan, "spec": s}


PROP = Prop()

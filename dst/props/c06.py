"""C06: after reset() and set_image() a fitter behaves like a new one."""
from ..actors import attempt
from ..engine import digest, list_drops, outcome
from .common import Base, mismatch, reference
from .fitlib import RESETTABLE as ALL, FitterActor, failed_step, fitter_spec, gen_fault, small_fit

SETUP = ("settings", "init")


def _fresh(spec, image, setup, ops):
    a = FitterActor({**spec, "image": image})
    for o in setup:
        a.do(o)
    if any(o[0] == "init" for o in setup):
        a.do(["reset"])
    return [attempt(a, o) for o in ops]


class Prop(Base):
    ID = "C06"
    TORCH = True
    QUICK_RUNS = 1600
    QUICK_WALL = 150
    THOROUGH_RUNS = 16000
    RULE = ("a run is one seeded history of a mesh fitter (NumPy depth, colour and multi-frame, PyTorch depth and "
            "colour): optimisation steps, new images, changed settings, refused images, the caller's array "
            "of vertices put to another use and steps that fail inside the "
            "native engine or the rigidity energy, interrupted by 1-3 resets; everything after each reset is compared "
            "with a new fitter in a pristine process that was given the same image and settings. Non-trivial: at least "
            "one step was compared after a reset that followed a step.")
    STATE_MEASURE = "distinct histories of (fitter, operation kinds, failures)"
    COMPONENTS = {"real": ["mesh fitters (NumPy and PyTorch)", "native engine built from /repo", "torch autograd"],
                  "stub": ["failing native calls and rigidity energy: the entry points raise before or after their work"]}
    TIME_UNIT = "fitter operations"

    def gen(self, rng, tier):
        spec = fitter_spec(rng, ALL if rng.random() < 0.6 else ALL[:3])
        ops, faults = [], []

        def tail(n):
            for _ in range(n):
                x = rng.random()
                if x < 0.72:
                    ops.append(["step"])
                    if rng.random() < 0.1:
                        faults.append([len(ops) - 1, gen_fault(rng, spec)])
                elif x < 0.78:
                    ops.append(["view", rng.randrange(10**6)])
                elif x < 0.84:
                    ops.append(["image", rng.randrange(10**6)])
                elif x < 0.93:
                    ops.append(["settings", rng.randrange(10**6)])
                elif x < 0.95:
                    ops.append(["jump", rng.choice([498, 499, 500, 1000])])
                elif x < 0.975:
                    ops.append(["reuse", rng.randrange(10**6)])
                else:
                    ops.append(["bad", rng.randrange(10**6)])
                    ops.append(["step"])
                    ops.append(["image", rng.randrange(10**6)])

        tail(rng.randrange(1, 6))
        for _ in range(rng.randrange(1, 4)):
            how = rng.randrange(5)
            if rng.random() < 0.25:
                ops.append(["init", rng.randrange(10**6)])
            if how < 2:
                ops += [["reset"], ["image", rng.randrange(10**6)]]
            elif how < 4:
                ops += [["image", rng.randrange(10**6)], ["reset"]]
            else:
                ops += [["reset"]]
            ops.append(["step"])
            tail(rng.randrange(0, 4))
        return {"spec": spec, "ops": ops, "faults": faults}

    def execute(self, plan):
        spec, ops = plan["spec"], plan["ops"]
        stats = {"sim_steps": len(ops)}
        fa = {f[0]: f[1] for f in plan["faults"]}
        # episodes: what a new fitter has to do after each reset
        image, setup, eps, bad = spec["image"], [], [], False
        for i, o in enumerate(ops):
            if o[0] == "image":
                image, bad = o[1], False
            if o[0] == "bad":
                bad = True
            if o[0] in SETUP:
                setup = [s for s in setup if s[0] != o[0]] + [o]
            if o[0] == "reset":
                eps.append({"at": i, "image": image, "setup": list(setup), "ops": [], "bad": bad})
            elif eps:
                eps[-1]["ops"].append(o)
        exp = {}
        for e in eps:
            if e["bad"]:
                continue
            # nothing is required of the operations that follow a failed step
            cut = len(e["ops"])
            for j in range(len(e["ops"])):
                if e["at"] + 1 + j in fa or e["ops"][j][0] == "bad":
                    cut = j
                    break
            # an image set right after the reset is the image the new fitter starts with
            first = e["ops"][:cut]
            r = reference(_fresh, spec, e["image"], e["setup"], first)
            if r[0] == "dead":
                return outcome({"sig": "process-died", "msg": f"a new fitter alone: process {r[1]}"}, stats)
            for j, x in enumerate(r[1]):
                exp[e["at"] + 1 + j] = x
        a = FitterActor(spec)
        hist, seen, nt, stepped = [spec["fit"]], [], False, False
        for i, o in enumerate(ops):
            if i in fa and o[0] == "step":
                fired, r = failed_step(a, fa[i])
                if fired:
                    k = f"fault:{fa[i][0]}_{fa[i][1]}"
                    stats[k] = stats.get(k, 0) + 1
                    hist.append("step!")
                    stepped = True
                    continue
                # the failure was never reached: it was an ordinary step
                hist.append("step")
                continue
            r = attempt(a, o)
            hist.append(o[0] + ("?" if r[0] == "raise" else ""))
            if o[0] == "bad":
                stats["fault:refused_image"] = stats.get("fault:refused_image", 0) + 1
            if i in exp:
                seen.append(r)
                v = mismatch(r, exp[i], f"{o[0]} (operation {i}) after a reset of a {spec['fit']} fitter")
                if v:
                    return outcome(v, stats, " ".join(hist), True, digest(seen))
                if o[0] == "step":
                    stats["compared_steps"] = stats.get("compared_steps", 0) + 1
                    nt = nt or stepped
            if o[0] == "step":
                stepped = True
        stats["probe:reset_after_failed_step"] = int("step!" in hist and "reset" in hist[hist.index("step!"):])
        return outcome(None, stats, " ".join(hist), nt, digest([seen, hist]))

    def reduce(self, plan):
        for f in list_drops(plan["faults"]):
            yield {**plan, "faults": f}
        for i in reversed(range(len(plan["ops"]))):
            ops = plan["ops"][:i] + plan["ops"][i + 1:]
            if ops:
                yield {**plan, "ops": ops, "faults": [[f[0] - (f[0] > i)] + f[1:] for f in plan["faults"] if f[0] != i]}
        for s in small_fit(plan["spec"]):
            yield {**plan, "spec": s}


PROP = Prop()

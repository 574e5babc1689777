"""C10: a complete MeshLab project refers only to complete files, whatever interrupts the export."""
import errno
import gc
import os
from xml.dom import minidom

import numpy as np

from .. import forks, gen, shim
from ..engine import digest, list_drops, outcome
from .common import Base, Scratch

ERRNO = {"EIO": errno.EIO, "ENOSPC": errno.ENOSPC, "EDQUOT": errno.EDQUOT, "EMFILE": errno.EMFILE}


def inputs(s):
    mesh = gen.make_mesh({"kind": s["kind"], "seed": s["seed"], "nb_colors": 3})
    if s["subdiv"]:
        mesh = mesh.subdivise(s["subdiv"])
    cams = [gen.make_camera(c, mesh.vertices) for c in s["cams"]]
    ims = []
    for i, c in enumerate(cams):
        r = gen.rs(s["seed"] + i)
        im = r.randint(0, 256, (c.height, c.width, 3))
        if s["smooth"]:
            im[:] = r.randint(0, 256, 3)
        ims.append(im.astype(s["dtype"]))
    return mesh, cams, ims


def export(s, d):
    from deodr.meshlab_io import export_meshlab
    mesh, cams, ims = inputs(s)
    name = s["name"] if s["rel"] else os.path.join(d, s["sub"], s["name"])
    kw = {} if s["obj"] is None else {"obj_name": s["obj"]}
    export_meshlab(name, mesh, cams, ims, **kw)


def listing(d):
    out = {}
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, d)] = h.read()
    return out


def referenced(xml):
    """Files a project refers to, or None when it is not a complete project."""
    try:
        doc = minidom.parseString(xml)
    except Exception:
        return None
    out = [n.getAttribute("filename") for n in doc.getElementsByTagName("MLMesh")]
    out += [n.getAttribute("fileName") for n in doc.getElementsByTagName("Plane")]
    return out


def _attempt(s, d, cwd, faults, mw):
    """One attempt in a process of its own. ('ok'|'err', errno, fired, ops, fds still open)"""
    os.chdir(os.path.join(d, s["sub"]) if s["rel"] else cwd)
    n = len(os.listdir("/proc/self/fd"))
    st, no = "ok", None
    # everything below the run's own directory, temporary files included, is subject to faults
    with shim.Fs(os.path.dirname(os.path.dirname(d)), faults, mw) as fs:
        try:
            export(s, d)
        except OSError as e:
            st, no = "err", e.errno
    gc.collect()
    return st, no, fs.fired, fs.ops, len(os.listdir("/proc/self/fd")) - n


class Prop(Base):
    ID = "C10"
    SHIM = True
    QUICK_RUNS = 2600
    QUICK_WALL = 120
    THOROUGH_RUNS = 80000
    RULE = ("a run is one seeded export (mesh of 4-100 vertices, 0-4 cameras and images) into an empty directory, "
            "attempted 1-3 times with open, write and close shortened, interrupted, failing (EIO, ENOSPC, EDQUOT, "
            "EMFILE) or the process killed at any of these calls, half way through a write included, and repeated by a "
            "restarted process until it is allowed to complete. After every attempt: if the project file is complete "
            "then every file it refers to exists and is complete; an export that returns has written everything; "
            "nothing is written outside of the project's directory; another project exported over it replaces it completely. Non-trivial: at least one fault fired.")
    STATE_MEASURE = "distinct (number of images, fault kind and operation number per attempt, outcome)"
    COMPONENTS = {"real": ["deodr.meshlab_io", "deodr.obj", "imageio and Pillow", "files below a scratch directory"],
                  "stub": ["open/read/write/close wrapped by the preloaded seam that injects the faults"]}
    ASSUMPTIONS = ["crash = process killed: completed write calls survive (no power loss)",
                   "the reference is an undisturbed export of the same inputs in a pristine process"]
    TIME_UNIT = "file operations (open, write, close) in simulated processes"

    def setup(self):
        shim.prepare()
        with Scratch() as d:
            s = {"kind": "tetra", "seed": 1, "subdiv": 0, "cams": [{"seed": 1, "w": 4, "h": 4}], "smooth": False,
                 "dtype": "float64", "name": "p.mlp", "rel": False, "sub": "", "obj": None}
            export(s, d)  # first use loads codecs and plugins

    def gen(self, rng, tier):
        nc = rng.choice([0, 1, 1, 2, 3, 4])
        big = rng.random() < 0.3
        s = {"kind": rng.choice(["tetra", "box", "ico", "torus"]), "seed": rng.randrange(10**6),
             "subdiv": rng.choice([0, 0, 1, 2]), "cams": [gen.camera_spec(rng) for _ in range(nc)],
             "smooth": rng.random() < 0.3, "dtype": rng.choice(["float64", "uint8", "int64"]),
             "name": rng.choice(["p.mlp", "project.mlp"]), "rel": rng.random() < 0.3,
             "sub": rng.choice(["", "a", "a b"]), "obj": rng.choice([None, None, "shape.obj"])}
        if big:
            for c in s["cams"]:
                c["w"], c["h"] = rng.randrange(60, 150), rng.randrange(60, 150)
        tries = []
        for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
            f = []
            for _ in range(rng.choice([1, 1, 1, 2])):
                at = rng.randrange(0, 4 + 3 * (nc + 1) + (6 if big else 0))
                k = rng.choice(["short", "eintr", "err", "err", "sticky", "torn", "torn", "crash", "crash"])
                arg = 0
                if k in ("err", "sticky"):
                    arg = ERRNO[rng.choice(list(ERRNO)[: 3 if k == "sticky" else 4])]
                elif k in ("short", "torn"):
                    arg = rng.choice([0, 1, 20, 300, 700, 3000])
                    arg = max(arg, 1) if k == "short" else arg
                f.append([at, k, arg])
            tries.append([f, rng.choice([0, 0, 0, 600, 5000])])
        again = None
        if rng.random() < 0.3:
            again = {**s, "seed": rng.randrange(10**6), "kind": rng.choice(["tetra", "box", "ico"]),
                     "cams": [{**c, "seed": rng.randrange(10**6)} for c in s["cams"][:rng.randrange(nc + 1)]]}
        return {"export": s, "tries": tries, "again": again}

    def execute(self, plan):
        s = plan["export"]
        stats = {"sim_steps": 0}
        key, seen = [f"{len(s['cams'])}c"], []

        def fail(sig, msg):
            return outcome({"sig": sig, "msg": msg}, stats, " ".join(key), True, digest(seen))

        with Scratch() as top:
            clean, d, cwd = (os.path.join(top, n) for n in ("clean", "dir", "cwd"))
            for x in (clean, d):
                os.makedirs(os.path.join(x, s["sub"]))
            os.makedirs(cwd)
            forks.call(_attempt, s, clean, cwd, [], 0)
            ref = listing(clean)
            proj = os.path.normpath(os.path.join(s["sub"], s["name"]))
            mesh, cams, ims = inputs(s)
            want = referenced(ref.get(proj, b"")) or []
            if len(want) != 1 + len(ims) or proj not in ref:
                return fail("bad-project", f"an undisturbed export produced {sorted(ref)} referring to {want}")
            bad = self.complete(s, ref, want, mesh, ims)
            if bad:
                return fail("bad-project", f"undisturbed export: {bad}")
            done = False
            for i, (faults, mw) in enumerate(plan["tries"] + [[[], 0]]):
                crashed = False
                try:
                    st, no, fired, n, leak = forks.call(_attempt, s, d, cwd, faults, mw)
                except forks.ChildDied as e:
                    if not os.WIFEXITED(e.status) or os.WEXITSTATUS(e.status) != forks.CRASH_EXIT:
                        return fail("process-died", f"attempt {i}: the process {e.how()}")
                    crashed = True
                    stats["fault:crash"] = stats.get("fault:crash", 0) + 1
                    key.append("crash" + str(faults))
                except forks.ChildError as e:
                    return fail("export-failed", f"attempt {i} with {faults}: {str(e).strip().splitlines()[-1]}")
                got = listing(d)
                seen.append(sorted((k, len(v)) for k, v in got.items()))
                if listing(cwd):
                    return fail("written-elsewhere", f"attempt {i} wrote {sorted(listing(cwd))} in the current directory")
                stray = [k for k in got if os.path.dirname(k) != s["sub"]]
                if stray:
                    return fail("written-elsewhere", f"attempt {i} wrote {stray} outside of the project's directory")
                if proj in got and referenced(got[proj]) is not None:
                    # a complete project
                    if not done:
                        stats["probe:complete_project"] = stats.get("probe:complete_project", 0) + 1
                    for name in referenced(got[proj]):
                        p = os.path.normpath(os.path.join(s["sub"], name))
                        if p not in got:
                            return fail("dangling-reference", f"attempt {i} ({faults}): the project is complete but "
                                        f"{name} does not exist")
                        if not self.same(name, got[p], ref[p]):
                            return fail("incomplete-reference", f"attempt {i} ({faults}): the project is complete but "
                                        f"{name} holds {len(got[p])} of {len(ref[p])} bytes")
                if crashed:
                    # the files of an interrupted attempt stay, unless it got as far as the project file
                    if referenced(got.get(proj, b"")) is not None:
                        for k in got:
                            os.unlink(os.path.join(d, k))
                    continue
                stats["sim_steps"] += n
                for k, v in fired.items():
                    stats["fault:" + k] = stats.get("fault:" + k, 0) + v
                key.append(f"{sorted(fired.items())}{st}")
                hard = fired.get("err", 0) + fired.get("sticky", 0)
                if leak > 0:
                    return fail("descriptor-leak", f"attempt {i} left {leak} files open")
                if st == "err" and not hard:
                    return fail("spurious-error", f"attempt {i} raised errno {no} although no operation failed: {fired}")
                if st == "ok":
                    if hard:
                        return fail("error-swallowed", f"attempt {i} returned although an operation failed: {faults}")
                    missing = [k for k in ref if k not in got or not self.same(k, got[k], ref[k])]
                    if missing:
                        return fail("incomplete-export", f"attempt {i} returned but {missing} are missing or differ from "
                                    "an undisturbed export")
                    done = True
                if i == len(plan["tries"]) and plan.get("again"):
                    # another project of the same name over the complete one
                    s2 = plan["again"]
                    clean2 = os.path.join(top, "clean2")
                    os.makedirs(os.path.join(clean2, s["sub"]))
                    forks.call(_attempt, s2, clean2, cwd, [], 0)
                    ref2 = listing(clean2)
                    try:
                        forks.call(_attempt, s2, d, cwd, [], 0)
                    except (forks.ChildError, forks.ChildDied) as e:
                        return fail("export-failed", f"exporting another project over it: {str(e).strip()[-120:]}")
                    got = listing(d)
                    key.append("again")
                    stats["probe:exported_over_another"] = 1
                    old = [k for k in ref2 if not self.same(k, got.get(k, b""), ref2[k])]
                    if old:
                        return fail("incomplete-export", f"a second project was exported to the same place, but {old} "
                                    "are missing or differ from an undisturbed export")
                if done or referenced(got.get(proj, b"")) is not None:
                    # the directory is complete; later attempts start over in an empty one
                    for k in got:
                        os.unlink(os.path.join(d, k))
        return outcome(None, stats, " ".join(key), sum(v for k, v in stats.items() if k.startswith("fault:")) > 0,
                       digest([seen, key]))

    def same(self, name, a, b):
        return a == b

    def complete(self, s, ref, want, mesh, ims):
        """The undisturbed export against the exported data."""
        import io

        import imageio.v3 as iio
        from .c09 import _same, parse
        for j, name in enumerate(want):
            p = os.path.normpath(os.path.join(s["sub"], name))
            if p not in ref:
                return f"{name} does not exist"
            if j == 0:
                bad = _same(name, *parse(ref[p].decode()), mesh.vertices, mesh.faces, 5.0000001e-7)
                if bad:
                    return bad
            else:
                im = np.asarray(iio.imread(io.BytesIO(ref[p]), extension=".png"))
                if im.shape != ims[j - 1].shape or not np.array_equal(im, ims[j - 1].astype(np.uint8)):
                    return f"{name} is not image {j - 1}"
        return None

    def reduce(self, plan):
        for t in list_drops(plan["tries"]):
            yield {**plan, "tries": t}
        for i, (f, mw) in enumerate(plan["tries"]):
            for g in list_drops(f):
                yield {**plan, "tries": plan["tries"][:i] + [[g, mw]] + plan["tries"][i + 1:]}
            if mw:
                yield {**plan, "tries": plan["tries"][:i] + [[f, 0]] + plan["tries"][i + 1:]}
        if plan.get("again"):
            yield {**plan, "again": None}
        s = plan["export"]
        for ch in ({"kind": "tetra"}, {"subdiv": 0}, {"rel": False}, {"sub": ""}, {"obj": None}, {"cams": s["cams"][:1]},
                   {"cams": [{**c, "w": 4, "h": 4} for c in s["cams"]]}, {"dtype": "uint8"}):
            if {**s, **ch} != s:
                yield {**plan, "export": {**s, **ch}}


PROP = Prop()

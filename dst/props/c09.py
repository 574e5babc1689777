"""C09: saving and loading OBJ files under I/O faults."""
import errno
import gc
import os

import numpy as np

from .. import forks, gen, shim
from ..engine import digest, list_drops, outcome
from .common import Base, Scratch

ERRNO = {"EIO": errno.EIO, "ENOSPC": errno.ENOSPC, "EDQUOT": errno.EDQUOT}


def mesh(s):
    r = gen.rs(s["seed"])
    v = r.uniform(-1, 1, (s["nv"], 3)) * 10.0 ** r.randint(-4, 5, (s["nv"], 1))
    if s["int"]:
        v = np.round(v)
    f = np.stack([r.choice(s["nv"], 3, replace=s.get("degenerate", False)) for _ in range(s["nf"])])
    f = f.astype(s["fdt"])
    v = v.astype(s["vdt"])
    if s["order"] == "F":
        v, f = np.asfortranarray(v), np.asfortranarray(f)
    if s["order"] == "list":
        return v.tolist(), f.tolist()
    return v, f


def parse(text):
    """The OBJ format: an independent reader."""
    v, f = [], []
    for line in text.replace("\r\n", "\n").replace("\\\n", " ").split("\n"):
        t = line.split()
        if not t:
            continue
        if t[0] == "v":
            v.append([float(x) for x in t[1:]])
        elif t[0] == "f":
            k = [int(x.split("/")[0]) for x in t[1:]]
            f.append([i - 1 if i > 0 else len(v) + i for i in k])
    return v, f


def document(s):
    """A hand-written OBJ file."""
    r = gen.rs(s["seed"])
    nl = "\r\n" if s["crlf"] else "\n"
    out = ["# a comment", "mtllib a.mtl", "o thing"]
    nv = 0

    def cont(line):
        if s["cont"] and r.uniform() < 0.3:
            k = line.index(" ", 3) if " " in line[3:] else len(line)
            return line[:k] + " \\" + nl + line[k:]
        return line

    for b in range(s["blocks"]):
        n = r.randint(3, 8)
        for _ in range(n):
            x = r.uniform(-1, 1, 3) * 10.0 ** r.randint(-5, 5)
            fmt = ["%.6f", "%g", "%.17g", "%e"][r.randint(4)]
            sep = "\t" if s["tab"] and r.uniform() < 0.3 else " "
            x = np.append(x, r.uniform(0, 1, s.get("vcol", 0)))
            out.append(cont("v" + sep + " ".join(fmt % k for k in x)))
            if s["extra"] and r.uniform() < 0.4:
                out.append("vt %.3f %.3f" % tuple(r.uniform(0, 1, 2)))
            if s["extra"] and r.uniform() < 0.4:
                out.append("vn %.3f %.3f %.3f" % tuple(r.uniform(-1, 1, 3)))
        nv += n
        if r.uniform() < 0.4:
            out.append("# more")
        if r.uniform() < 0.4:
            out += ["g part%d" % b, "usemtl m", "s off", ""]
        for _ in range(r.randint(1, 8)):
            k = r.choice(nv, s.get("corners", 3), replace=nv < 4)
            neg = s["rel"] and r.uniform() < 0.5
            k = [int(i) - nv if neg else int(i) + 1 for i in k]
            st = r.randint(4) if s["extra"] else 0
            sep = "\t" if s["tab"] and r.uniform() < 0.3 else " "
            out.append(cont("f" + sep + " ".join(["%d", "%d/1", "%d//1", "%d/1/1"][st] % i for i in k)))
    return nl.join(out) + (nl if s["eof"] else "")


BAD = ("v 1.0 x 2.0", "v 1.0 2.0", "v 1,5 0 0", "v 1 2 -", "f 1 x 3", "f 1 2", "f 1.5 2 3", "f 1 2 3 1 2", "f 1 2 -")


def damaged(s):
    """A file with a line that is no vertex or face, although it says so."""
    r = gen.rs(s["seed"] + 5)
    lines = document(s).split("\n")
    lines.insert(r.randint(3, len(lines)), BAD[s["bad"]] + ("\r" if s["crlf"] else ""))
    return "\n".join(lines)


def textured(s, d, name):
    """Writes a textured or coloured OBJ file. Corner positions, texture coordinates, image, colours."""
    from PIL import Image
    r = gen.rs(s["seed"])
    nv, nt = s["nv"], s["nv"] + 3
    v = r.uniform(-1, 1, (nv, 3))
    f = np.stack([r.choice(nv, 3, replace=False) for _ in range(s["nf"])])
    out = ["# scene"]
    if s["colored"]:
        c = r.randint(0, 256, (nv, 3)) / 255
        out += ["v " + " ".join(repr(float(x)) for x in np.append(a, b)) for a, b in zip(v, c)]
        out += ["f " + " ".join(str(i + 1) for i in t) for t in f]
        exp = {"corners": v[f], "uv": None, "image": None, "colors": c[f]}
    else:
        h, w = s["tex"]
        im = r.randint(0, 256, (h, w, 4 if s["alpha"] else 3)).astype(np.uint8)
        Image.fromarray(im).save(os.path.join(d, name + ".png"))
        with open(os.path.join(d, name + ".mtl"), "w") as fh:
            fh.write(f"newmtl m\nKa 1 1 1\nKd 1 1 1\nmap_Kd {name}.png\n")
        t = r.uniform(0, 1, (nt, 2))
        ft = r.randint(0, nt, f.shape)
        out += [f"mtllib {name}.mtl", "usemtl m"]
        out += ["v " + " ".join(repr(float(x)) for x in a) for a in v]
        out += ["vt " + " ".join(repr(float(x)) for x in a) for a in t]
        out += ["f " + " ".join(f"{i + 1}/{j + 1}" for i, j in zip(a, b)) for a, b in zip(f, ft)]
        uv = np.column_stack((t[:, 0] * w - 0.5, (1 - t[:, 1]) * h - 0.5))
        exp = {"corners": v[f], "uv": uv[ft], "image": im[:, :, :3] / 255, "colors": None}
    with open(os.path.join(d, name + ".obj"), "w") as fh:
        fh.write("\n".join(out) + "\n")
    return exp


def _soup(m, exp):
    """None, or how a loaded mesh differs from its file, triangle by triangle."""
    got = {"corners": m.vertices[np.asarray(m.faces)], "image": m.texture, "uv": None, "colors": None}
    if m.uv is not None:
        got["uv"] = m.uv[np.asarray(m.faces_uv)]
    if m.vertices_colors is not None:
        got["colors"] = m.vertices_colors[np.asarray(m.faces)]
    for k, e in exp.items():
        g = got[k]
        if k == "image" and e is None:
            continue
        if (g is None) != (e is None):
            return f"{k} {'lost' if g is None else 'invented'}"
        if e is not None and (g.shape != e.shape or not np.allclose(g, e, rtol=0, atol=1e-9)):
            return f"{k} of shape {g.shape} instead of {e.shape}" if g.shape != e.shape else f"{k} differ"
    return None


def _fds():
    return sorted(os.listdir("/proc/self/fd"))


def _same(name, v, f, ev, ef, tol):
    v, f = np.asarray(v), np.asarray(f)
    ev, ef = np.asarray(ev, float), np.asarray(ef)
    if v.shape != ev.shape:
        return f"{name}: {v.shape} vertex coordinates instead of {ev.shape}"
    if f.shape != ef.shape:
        return f"{name}: {f.shape} face indices instead of {ef.shape}"
    if not np.array_equal(f.astype(np.int64), ef.astype(np.int64)):
        return f"{name}: {int((f.astype(np.int64) != ef.astype(np.int64)).sum())} face indices differ"
    d = np.abs(v.astype(float) - ev)
    if not (d <= tol + 1e-12 * np.abs(ev)).all():
        return f"{name}: a vertex coordinate differs by {d.max():.3g}"
    return None


def _crash_save(path, root, v, f, faults, mw):
    from deodr.obj import save_obj
    with shim.Fs(root, faults, mw):
        try:
            save_obj(path, v, f)
        except OSError:
            pass
    return shim.get("shim_fs_ops")


class Prop(Base):
    ID = "C09"
    SHIM = True
    QUICK_RUNS = 4000
    QUICK_WALL = 120
    THOROUGH_RUNS = 120000
    RULE = ("a run is one seeded sequence of saves and loads of OBJ files (random meshes of 3-700 vertices; hand-written "
            "files with comments, normals, continuations, relative indices, CRLF) in which open, write, read and close "
            "are shortened, interrupted (EINTR), fail (EIO, ENOSPC, EDQUOT, once or for good) or the process is killed "
            "half way through a write. A save that returns must have stored the whole mesh, a load that returns must "
            "return exactly the stored mesh, errors must reach the caller and a retry on the healed disk must work. "
            "Non-trivial: at least one fault fired.")
    STATE_MEASURE = "distinct (operations, fault kind at operation number, outcome)"
    COMPONENTS = {"real": ["deodr.obj", "CPython file objects", "kernel files below a scratch directory"],
                  "stub": ["open/read/write/close wrapped by the preloaded seam that injects the faults"]}
    ASSUMPTIONS = ["crash = process killed: completed write calls survive (no power loss)",
                   "coordinates are stored with six decimals, so 5e-7 is the accuracy of a round trip"]
    TIME_UNIT = "file operations (open, read, write, close) in simulated processes"

    def setup(self):
        shim.prepare()
        from deodr.obj import read_obj, save_obj
        with Scratch() as d:  # first use loads codecs
            save_obj(d + "/a.obj", np.zeros((3, 3)), np.array([[0, 1, 2]]))
            read_obj(d + "/a.obj")
            self.scene(0, ["scene", "t", {"seed": 1, "nv": 4, "nf": 2, "tex": [3, 4], "colored": False, "alpha": False},
                           "obj", [], 0], d, [], lambda fs: None, [])

    def gen(self, rng, tier):
        ops = []
        for i in range(rng.randrange(1, 5)):
            name = f"m{rng.randrange(2)}.obj"
            x = rng.random()
            if x < 0.12:
                s = {"seed": rng.randrange(10**6), "nv": rng.choice([4, 8, 60]), "nf": rng.choice([1, 5, 40]),
                     "tex": [rng.randrange(2, 9), rng.randrange(2, 9)], "colored": rng.random() < 0.3,
                     "alpha": rng.random() < 0.3}
                ops.append(["scene", f"t{i}", s, rng.choice(["obj", "png"]), self.faults(rng, False),
                            rng.choice([0, 0, 7, 100, 1000])])
                continue
            if x < 0.6:
                nv = rng.choice([3, 4, 8, 60, 300, 700])
                s = {"seed": rng.randrange(10**6), "nv": nv, "nf": max(1, int(nv * rng.choice([0.3, 1, 2]))),
                     "int": rng.random() < 0.15, "fdt": rng.choice(["int64", "int32", "uint32", "int64"]),
                     "vdt": rng.choice(["float64", "float64", "float32"]),
                     "order": rng.choice(["C", "C", "F", "list"]), "degenerate": rng.random() < 0.2}
                ops.append(["save", name, s, self.faults(rng, True), rng.choice([0, 0, 0, 1000, 5000])])
            else:
                s = {"seed": rng.randrange(10**6), "blocks": rng.choice([1, 2, 4, 80]), "crlf": rng.random() < 0.2,
                     "cont": rng.random() < 0.3, "tab": rng.random() < 0.3, "extra": rng.random() < 0.5,
                     "rel": rng.random() < 0.4, "eof": rng.random() < 0.8, "vcol": rng.choice([0, 0, 0, 1, 3]),
                     "corners": rng.choice([3, 3, 3, 4])}
                if rng.random() < 0.2:
                    ops.append(["damaged", name, {**s, "bad": rng.randrange(len(BAD)), "vcol": 0, "corners": 3}])
                    continue
                ops.append(["write", name, s])
            if rng.random() < 0.85:
                ops.append(["load", name, self.faults(rng, False), rng.choice([0, 0, 7, 100, 1000, 4096])])
        return {"ops": ops}

    def faults(self, rng, write):
        out = []
        if rng.random() < 0.25:
            return out
        for _ in range(rng.choice([1, 1, 2])):
            at = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 8])
            k = rng.choice(["short", "eintr", "err", "err", "sticky", "torn"] if write else
                           ["short", "eintr", "eintr", "err"])
            arg = 0
            if k in ("err", "sticky"):
                arg = ERRNO[rng.choice(["EIO", "ENOSPC", "EDQUOT"] if write else ["EIO"])]
            elif k in ("short", "torn"):
                arg = rng.choice([1, 2, 17, 100, 1000, 5000, 8000])
            out.append([at, k, arg])
        return out

    def execute(self, plan):
        from deodr.obj import read_obj, save_obj
        stats = {"sim_steps": 0}
        key, seen = [], []
        content = {}  # name -> (vertices, faces, tolerance) or ("torn", ...)

        def count(fs):
            stats["sim_steps"] += fs.ops
            for k, v in fs.fired.items():
                stats["fault:" + k] = stats.get("fault:" + k, 0) + v

        def fail(sig, msg):
            return outcome({"sig": sig, "msg": msg}, stats, " ".join(key), True, digest(seen))

        with Scratch() as d:
            for i, o in enumerate(plan["ops"]):
                path = os.path.join(d, o[1])
                if o[0] == "write":
                    text = document(o[2])
                    with open(path, "w", newline="") as fh:
                        fh.write(text)
                    content[o[1]] = parse(text) + (0,)
                    key.append("w")
                    continue
                if o[0] == "damaged":
                    with open(path, "w", newline="") as fh:
                        fh.write(damaged(o[2]))
                    content[o[1]] = None
                    key.append("d")
                    fds = _fds()
                    try:
                        got = read_obj(path)
                    except Exception as e:
                        err = type(e).__name__
                        del e
                    else:
                        return fail("damage-accepted", f"load {i} of a file with the line {BAD[o[2]['bad']]!r} returned "
                                    f"{got[1].shape} vertex coordinates and {got[0].shape} face indices")
                    gc.collect()
                    if _fds() != fds:
                        return fail("descriptor-leak", f"load {i} of a damaged file left it open")
                    stats["probe:damaged_files"] = stats.get("probe:damaged_files", 0) + 1
                    seen.append(err)
                    continue
                if o[0] == "scene":
                    bad = self.scene(i, o, d, key, count, seen)
                    if bad:
                        return fail(*bad)
                    continue
                if o[0] == "save":
                    v, f = mesh(o[2])
                    keep = (np.array(v), np.array(f))
                    key.append("s")
                    if any(x[1] in ("torn", "crash") for x in o[3]):
                        # the process dies: run it in a child of its own
                        old = open(path, "rb").read() if os.path.exists(path) else None
                        try:
                            forks.call(_crash_save, path, d, v, f, o[3], o[4])
                        except forks.ChildDied as e:
                            if not os.WIFEXITED(e.status) or os.WEXITSTATUS(e.status) != forks.CRASH_EXIT:
                                return fail("process-died", f"save {i}: the process {e.how()}")
                            stats["fault:crash_in_write"] = stats.get("fault:crash_in_write", 0) + 1
                            key.append("crash")
                        content[o[1]] = None
                        if os.path.exists(path) and open(path, "rb").read() != old:
                            bad = self.torn(path, keep)
                            if bad:
                                return fail("torn-file", f"load of a file torn by a crash: {bad}")
                        # restart: save again
                        save_obj(path, v, f)
                        content[o[1]] = keep + (5.0000001e-7,)
                        bad = _same("file", *parse(open(path).read()), *content[o[1]])
                        if bad:
                            return fail("retry-failed", f"save {i} after a crash: {bad}")
                        continue
                    fds = _fds()
                    err = None
                    with shim.Fs(d, o[3], o[4]) as fs:
                        try:
                            save_obj(path, v, f)
                        except OSError as e:
                            err = e.errno
                    count(fs)
                    gc.collect()
                    hard = fs.fired.get("err", 0) + fs.fired.get("sticky", 0)
                    key.append(f"{sorted(fs.fired.items())}{'!' if err else ''}")
                    if err is not None and not hard:
                        return fail("spurious-error", f"save {i} raised errno {err} although no operation failed: "
                                    f"only {fs.fired}")
                    if err is None and hard:
                        return fail("error-swallowed", f"save {i} returned although an operation failed: {o[3]}")
                    if _fds() != fds:
                        return fail("descriptor-leak", f"save {i} left a file open ({'failed' if err else 'completed'})")
                    if not (np.array_equal(keep[0], np.array(v)) and np.array_equal(keep[1], np.array(f))):
                        return fail("input-modified", f"save {i} modified the mesh it was given")
                    if err is not None:
                        save_obj(path, v, f)  # the disk has healed
                    content[o[1]] = keep + (5.0000001e-7,)
                    bad = _same("file", *parse(open(path).read()), *content[o[1]])
                    if bad:
                        return fail("incomplete-save", f"save {i} returned ({'retried' if err else 'at once'}), {bad}")
                    seen.append(os.path.getsize(path))
                    continue
                exp = content.get(o[1])
                if exp is None:
                    continue
                before = open(path, "rb").read()
                key.append("l")
                fds = _fds()
                err, got = None, None
                with shim.Fs(d, o[2], 0, o[3]) as fs:
                    try:
                        got = read_obj(path)
                    except OSError as e:
                        err = e.errno
                    except Exception as e:
                        return fail("load-failed", f"load {i} of a valid file raised {type(e).__name__}: {e}; {fs.fired}")
                count(fs)
                gc.collect()
                hard = fs.fired.get("err", 0)
                key.append(f"{sorted(k for k in fs.fired)}{'!' if err else ''}")
                if err is not None and not hard:
                    return fail("spurious-error", f"load {i} raised errno {err} although no operation failed: {fs.fired}")
                if _fds() != fds:
                    return fail("descriptor-leak", f"load {i} left a file open ({'failed' if err else 'completed'})")
                if err is not None:
                    got = read_obj(path)
                elif hard and [x for x in o[2] if x[1] == "err" and x[0] < fs.ops - 1]:
                    # an error of close() may be ignored when reading
                    return fail("error-swallowed", f"load {i} returned although an operation failed: {o[2]}")
                bad = _same("loaded", got[1], got[0], *exp)
                if bad:
                    return fail("wrong-load", f"load {i} ({fs.fired}): {bad}")
                if open(path, "rb").read() != before:
                    return fail("file-modified", f"load {i} modified the file")
                seen.append([got[0], got[1]])
        return outcome(None, stats, " ".join(key), sum(v for k, v in stats.items() if k.startswith("fault:")) > 0,
                       digest([seen, key]))

    def scene(self, i, o, d, key, count, seen):
        """A textured or coloured file, loaded as a mesh that can be rendered, with faults in one of its files."""
        from deodr.triangulated_mesh import ColoredTriMesh
        exp = textured(o[2], d, o[1])
        path = os.path.join(d, o[1] + ".obj")
        key.append("t" + o[3][0] + ("c" if o[2]["colored"] else ""))
        fds = _fds()
        err, m = None, None
        with shim.Fs(os.path.join(d, o[1] + "." + o[3]), o[4], 0, o[5]) as fs:
            try:
                m = ColoredTriMesh.load(path)
            except Exception as e:
                err = f"{type(e).__name__}: {e}"
                del e
        count(fs)
        gc.collect()
        key.append(f"{sorted(fs.fired)}{'!' if err else ''}")
        if err is not None and not fs.fired.get("err"):
            return "load-failed", f"load {i} of a valid file raised {err} although no operation failed: {fs.fired}"
        if _fds() != fds:
            return "descriptor-leak", f"load {i} left a file open ({'failed' if err else 'completed'})"
        if err is not None:
            m = ColoredTriMesh.load(path)
        bad = _soup(m, exp)
        if bad:
            return "wrong-load", f"load {i} of a {'coloured' if o[2]['colored'] else 'textured'} file ({fs.fired}): {bad}"
        seen.append([m.vertices, np.asarray(m.faces), m.uv])
        return None

    def torn(self, path, keep):
        """A torn file is refused or yields a prefix of what was being saved, up to its last line."""
        from deodr.obj import read_obj
        size = os.path.getsize(path)
        try:
            f, v = read_obj(path)
        except Exception:
            return None
        text = open(path).read()
        nv, nf = text.count("v "), text.count("f ")
        ev, ef = keep
        k = 0 if text.endswith("\n") else 1
        if v.shape[0] != nv or f.shape[0] > nf:
            return f"{v.shape[0]} vertices and {f.shape[0]} faces from a file of {nv} and {nf} ({size} bytes)"
        cv, cf = nv - (k if nf == 0 else 0), f.shape[0] - (k if nf else 0)
        if cf <= 0:
            f = ef = np.zeros((0, 3))
            cf = 0
        return _same("torn", v[:cv], f[:cf], ev[:cv], ef[:cf], 5.0000001e-7)

    def reduce(self, plan):
        for ops in list_drops(plan["ops"]):
            if ops:
                yield {"ops": ops}
        for i, o in enumerate(plan["ops"]):
            if o[0] == "save":
                for f in list_drops(o[3]):
                    yield {"ops": plan["ops"][:i] + [o[:3] + [f] + o[4:]] + plan["ops"][i + 1:]}
                if o[4]:
                    yield {"ops": plan["ops"][:i] + [o[:4] + [0]] + plan["ops"][i + 1:]}
                for ch in ({"nv": 3, "nf": 1}, {"order": "C"}, {"vdt": "float64"}, {"fdt": "int64"}):
                    n = {**o[2], **ch}
                    if n != o[2]:
                        yield {"ops": plan["ops"][:i] + [["save", o[1], n] + o[3:]] + plan["ops"][i + 1:]}
            elif o[0] == "load":
                for f in list_drops(o[2]):
                    yield {"ops": plan["ops"][:i] + [o[:2] + [f] + o[3:]] + plan["ops"][i + 1:]}
                if o[3]:
                    yield {"ops": plan["ops"][:i] + [o[:3] + [0]] + plan["ops"][i + 1:]}
            elif o[0] == "scene":
                for f in list_drops(o[4]):
                    yield {"ops": plan["ops"][:i] + [o[:4] + [f] + o[5:]] + plan["ops"][i + 1:]}
            else:
                for ch in ({"blocks": 1}, {"crlf": False}, {"cont": False}, {"tab": False}, {"extra": False},
                           {"rel": False}, {"eof": True}):
                    n = {**o[2], **ch}
                    if n != o[2]:
                        yield {"ops": plan["ops"][:i] + [[o[0], o[1], n]] + plan["ops"][i + 1:]}


PROP = Prop()

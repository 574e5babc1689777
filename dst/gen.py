"""Deterministic construction of inputs from small JSON specs."""
import functools
import pickle

import numpy as np


def rs(seed):
    return np.random.RandomState(int(seed) % (2**31))


_POOL = None  # inputs made so far, when clients with equal specs share them


class Pool:
    """While active, equal requests for inputs are answered with the same objects."""

    def __enter__(self):
        global _POOL
        self.made = _POOL = {}
        return self

    def __exit__(self, *a):
        global _POOL
        _POOL = None
        return False

    def changed(self):
        """The name of an input that is not what it was when it was made, or None."""
        for k, (_, arrays) in self.made.items():
            if any(not np.array_equal(a, c, equal_nan=True) for a, c in arrays):
                return k[0]
        return None


def _arrays(x):
    """The arrays of an input, each with a copy."""
    if isinstance(x, np.ndarray):
        return [(x, x.copy())]
    parts = x.values() if isinstance(x, dict) else x if isinstance(x, tuple) else vars(x).values() if hasattr(x, "__dict__") else ()
    return [p for y in parts for p in _arrays(y)]


def pooled(f):
    @functools.wraps(f)
    def g(*a, **k):
        if _POOL is None:
            return f(*a, **k)
        key = (f.__name__, pickle.dumps((a, sorted(k.items()))))
        if key not in _POOL:
            x = f(*a, **k)
            _POOL.setdefault(key, (x, _arrays(x)))
        x = _POOL[key][0]
        return dict(x) if isinstance(x, dict) else x
    return g


# -- meshes ------------------------------------------------------------------
def _ico():
    p = (1 + 5**0.5) / 2
    v = np.array([(-1, p, 0), (1, p, 0), (-1, -p, 0), (1, -p, 0), (0, -1, p), (0, 1, p), (0, -1, -p), (0, 1, -p),
                  (p, 0, -1), (p, 0, 1), (-p, 0, -1), (-p, 0, 1)], float)
    f = np.array([(0, 11, 5), (0, 5, 1), (0, 1, 7), (0, 7, 10), (0, 10, 11), (1, 5, 9), (5, 11, 4), (11, 10, 2),
                  (10, 7, 6), (7, 1, 8), (3, 9, 4), (3, 4, 2), (3, 2, 6), (3, 6, 8), (3, 8, 9), (4, 9, 5), (2, 4, 11),
                  (6, 2, 10), (8, 6, 7), (9, 8, 1)])
    return v / np.linalg.norm(v[0]), f


def _tetra():
    v = np.array([(1, 1, 1), (-1, -1, 1), (-1, 1, -1), (1, -1, -1)], float)
    f = np.array([(0, 1, 3), (0, 2, 1), (0, 3, 2), (1, 2, 3)])
    return v, f


def _octa():
    v = np.array([(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)], float)
    f = np.array([(0, 2, 4), (2, 1, 4), (1, 3, 4), (3, 0, 4), (2, 0, 5), (1, 2, 5), (3, 1, 5), (0, 3, 5)])
    return v, f


def _box():
    v = np.array([(x, y, z) for x in (-1, 1) for y in (-1, 1) for z in (-1, 1)], float)
    q = [(0, 1, 3, 2), (4, 6, 7, 5), (0, 4, 5, 1), (2, 3, 7, 6), (0, 2, 6, 4), (1, 5, 7, 3)]
    f = []
    for a, b, c, d in q:
        f += [(a, b, c), (a, c, d)]
    return v, np.array(f)


def _grid(n=3, m=3):
    v = np.array([(i, j, 0) for i in range(n) for j in range(m)], float)
    v = v / max(n - 1, m - 1) * 2 - 1
    v[:, 2] = 0.3 * np.sin(2 * v[:, 0]) * np.cos(v[:, 1])
    f = []
    for i in range(n - 1):
        for j in range(m - 1):
            a, b, c, d = i * m + j, (i + 1) * m + j, (i + 1) * m + j + 1, i * m + j + 1
            f += [(a, b, c), (a, c, d)]
    return v, np.array(f)


def _torus(n=5, m=4):
    v, f = [], []
    for i in range(n):
        for j in range(m):
            a, b = 2 * np.pi * i / n, 2 * np.pi * j / m
            v.append(((1 + 0.45 * np.cos(b)) * np.cos(a), (1 + 0.45 * np.cos(b)) * np.sin(a), 0.45 * np.sin(b)))
            p, q = ((i + 1) % n) * m + j, ((i + 1) % n) * m + (j + 1) % m
            r, s = i * m + j, i * m + (j + 1) % m
            f += [(r, p, q), (r, q, s)]
    return np.array(v, float), np.array(f)


BASES = {"tetra": _tetra, "octa": _octa, "box": _box, "ico": _ico, "grid": _grid, "torus": _torus,
         "sheet": lambda: _grid(9, 8), "ring": lambda: _torus(12, 9)}
CLOSED = ("tetra", "octa", "box", "ico", "torus", "ring")
LARGE = ("sheet", "ring")  # drawn rarely


def _volume(v, f):
    return np.sum(np.linalg.det(v[f])) / 6


@pooled
def base_mesh(kind, clockwise=False):
    v, f = BASES[kind.rstrip("+")]()
    if kind.endswith("+"):  # and a vertex no face refers to
        v = np.vstack((v, [[0.3, -0.2, 0.1]]))
    if kind.rstrip("+") in CLOSED:
        if (_volume(v, f) < 0) != clockwise:
            f = f[:, ::-1]
    elif clockwise:
        f = f[:, ::-1]
    return v, np.ascontiguousarray(f)


@pooled
def vertices_for(spec, vseed=None):
    """Vertices of a mesh spec; every vseed is another pose of the same mesh."""
    v, _ = base_mesh(spec["kind"], spec.get("clockwise", False))
    r = rs(spec["seed"] if vseed is None else vseed)
    amp = 0.08
    v = v * r.uniform(0.8, 1.25, size=3)[None, :] + r.uniform(-amp, amp, size=v.shape)
    rot = rotation(r)
    v = v.dot(rot.T) + r.uniform(-0.05, 0.05, 3)
    return np.ascontiguousarray(v)


def rotation(r):
    q = r.normal(size=4)
    q /= np.linalg.norm(q)
    x, y, z, w = q
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


@pooled
def mesh_arrays(spec):
    """dict of constructor arguments of a coloured (or textured) mesh."""
    v, f = base_mesh(spec["kind"], spec.get("clockwise", False))
    r = rs(spec["seed"] + 77)
    out = {"faces": f, "vertices": vertices_for(spec), "clockwise": bool(spec.get("clockwise", False))}
    c = spec.get("nb_colors", 3)
    if spec.get("textured"):
        th, tw = spec.get("tex", (5, 6))
        nuv = len(v) + 2
        out["uv"] = r.uniform(-0.5, max(th, tw) + 0.5, (nuv, 2))
        out["faces_uv"] = r.randint(0, nuv, f.shape)
        out["texture"] = r.uniform(0, 1, (th, tw, c))
    else:
        out["colors"] = r.uniform(0, 1, (len(v), c))
    if spec.get("wide") and "colors" in out:
        out["colors"] = out["colors"] * 3 - 1
    return out


def make_mesh(spec, share=None):
    from deodr.triangulated_mesh import ColoredTriMesh
    a = share if share is not None else mesh_arrays(spec)
    return ColoredTriMesh(**a)


@pooled
def colors_for(spec, cseed):
    v, _ = base_mesh(spec["kind"])
    return rs(cseed).uniform(0, 1, (len(v), spec.get("nb_colors", 3)))


# -- cameras -----------------------------------------------------------------
@pooled
def make_camera(spec, ref_vertices, given=None):
    from deodr.differentiable_renderer import Camera, default_camera
    r = rs(spec["seed"])
    rot = rotation(r)
    dist = None
    if spec.get("dist"):
        dist = r.uniform(-0.05, 0.05, 5)
        if given is not None:
            given.append(dist)
    w, h, fov = spec["w"], spec["h"], spec.get("fov", 50.0)
    if spec.get("raw"):
        # the package's own default camera, which may look past the mesh
        return default_camera(w, h, fov, ref_vertices, rot, dist)
    p = ref_vertices.dot(rot.T)
    lo, hi = p.min(axis=0), p.max(axis=0)
    size, f = hi - lo, 0.5 * w / np.tan(0.5 * fov * np.pi / 180)
    d = max(0.5 * size[0] * f / (0.5 * w), 0.5 * size[1] * f / (0.5 * h)) * spec.get("zoom", 1.0) + 0.5 * size[2]
    c = 0.5 * (lo + hi) + np.array([r.uniform(-0.2, 0.2) * size[0], r.uniform(-0.2, 0.2) * size[1], -d])
    return Camera(np.column_stack((rot, -c)), np.array([[f, 0, w / 2], [0, f, h / 2], [0, 0, 1]]), h, w, dist)


def camera_spec(rng, big=False):
    hi = 40 if big else 26
    s = {"seed": rng.randrange(10**6), "w": rng.randrange(3, hi), "h": rng.randrange(3, hi),
         "fov": rng.choice([30.0, 50.0, 75.0]), "dist": rng.random() < 0.3}
    if rng.random() < 0.04:
        s["w"], s["h"] = rng.randrange(40, 130), rng.randrange(40, 100)
    x = rng.random()
    if x < 0.05:
        s["raw"] = True
    elif x < 0.5:
        s["zoom"] = rng.choice([0.4, 0.7, 1.5, 3.0])
    return s


def mesh_spec(rng, textured=None, closed=False, nb_colors=None, loose=False):
    kinds = [k for k in (CLOSED if closed else BASES) if k not in LARGE]
    if rng.random() < 0.04:
        kinds = [k for k in LARGE if k in CLOSED or not closed]
    s = {"kind": rng.choice(kinds) + ("+" if loose and rng.random() < 0.1 else ""), "seed": rng.randrange(10**6), "clockwise": rng.random() < 0.3,
         "nb_colors": nb_colors or rng.choice([1, 2, 3, 3, 4]), "wide": rng.random() < 0.2}
    t = rng.random() < 0.25 if textured is None else textured
    if t:
        s["textured"] = True
        s["tex"] = [rng.randrange(2, 7), rng.randrange(2, 7)]
    return s


# -- 2D scenes -----------------------------------------------------------------
def scene2d_spec(rng, textured=None):
    t = rng.random() < 0.4 if textured is None else textured
    big = rng.random() < 0.04
    return {"seed": rng.randrange(10**6), "nf": rng.randrange(9, 70) if big else rng.randrange(1, 9),
            "nv": rng.randrange(12, 90) if big else rng.randrange(3, 12),
            "h": rng.randrange(24, 100) if big else rng.randrange(2, 24),
            "w": rng.randrange(24, 130) if big else rng.randrange(2, 24), "c": rng.choice([1, 2, 3, 3, 5] if big else [1, 2, 3, 3]),
            "textured": t, "bg": rng.choice(["image", "color"]), "strict": rng.random() < 0.7,
            "clockwise": rng.random() < 0.3, "ipc": rng.random() < 0.6, "soup": rng.random() < 0.5,
            "pc": False, "cull": True, "wide": rng.random() < 0.25}


@pooled
def scene2d_kwargs(s):
    r = rs(s["seed"])
    nf, c, h, w = s["nf"], s["c"], s["h"], s["w"]
    if s.get("soup"):
        nv = 3 * nf
        faces = np.arange(nv).reshape(nf, 3).astype(np.uint32)
    else:
        nv = max(3, s["nv"])
        faces = np.stack([r.choice(nv, 3, replace=False) for _ in range(nf)]).astype(np.uint32)
    ij = r.uniform(-0.2, 1.2, (nv, 2)) * np.array([w, h])
    # orient every face so that it is visible
    nuv = nv
    tex = np.zeros((0, 0))
    textured = np.zeros(nf, dtype=bool)
    uv = np.zeros((nv, 2))
    if s["textured"]:
        th, tw = s.get("tex", (5, 4))
        tex = r.uniform(0, 1, (th, tw, c))
        textured = r.uniform(size=nf) < 0.7
        uv = r.uniform(-0.5, 6, (nuv, 2))
    kw = dict(faces=faces, faces_uv=faces.copy(), ij=ij, depths=r.uniform(0.2, 3, nv), textured=textured, uv=uv,
              shade=r.uniform(0.2, 1, nv), colors=r.uniform(0, 1, (nv, c)), shaded=textured.copy(),
              edgeflags=r.uniform(size=(nf, 3)) < 0.6, height=h, width=w, nb_colors=c, texture=tex,
              clockwise=s["clockwise"], backface_culling=s.get("cull", True), strict_edge=s["strict"],
              perspective_correct=s.get("pc", False), integer_pixel_centers=s["ipc"])
    tri = ij[faces]
    u, v = tri[:, 1] - tri[:, 0], tri[:, 2] - tri[:, 0]
    area = u[:, 0] * v[:, 1] - u[:, 1] * v[:, 0]
    flip = (area > 0) != s["clockwise"]
    if s.get("flip", True):
        keep = r.uniform(size=nf) < 0.15
        flip = flip & ~keep
        kw["faces"] = np.where(flip[:, None], faces[:, ::-1], faces).astype(np.uint32)
        kw["faces_uv"] = kw["faces"].copy()
    if s["bg"] == "image":
        kw["background_image"] = r.uniform(0, 1, (h, w, c))
    else:
        kw["background_color"] = r.uniform(0, 1, c)
    if s.get("wide"):
        # values beyond those of an ordinary image
        for k in ("colors", "shade", "background_image", "background_color", "texture"):
            if k in kw and kw[k].size:
                kw[k] = kw[k] * 3 - 1
    return kw


def make_scene2d(s):
    from deodr.differentiable_renderer import Scene2D
    return Scene2D(**scene2d_kwargs(s))


@pooled
def values(seed, shape):
    """Values of an image or of colours, for some seeds beyond those of an ordinary image."""
    x = rs(seed).uniform(0, 1, shape)
    return x * 3 - 1 if seed % 5 == 0 else x


@pooled
def image_b(seed, shape):
    return rs(seed).uniform(-1, 1, shape)

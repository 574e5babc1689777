"""Comparison of recorded observations."""
import sys

import numpy as np

RTOL = 1e-9


def to_np(x):
    torch = sys.modules.get("torch")
    if torch is not None and isinstance(x, torch.Tensor):
        return x.detach().numpy().copy()
    return x


def snap(x):
    """A deep, plain copy of an observation."""
    x = to_np(x)
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    if isinstance(x, np.matrix):
        return np.array(x)
    if isinstance(x, np.ndarray):
        return np.array(x, copy=True)
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, dict):
        return {str(k): snap(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [snap(v) for v in x]
    if hasattr(x, "toarray"):
        return np.asarray(x.toarray())
    return repr(type(x))


def diff(a, b, rtol=RTOL, path=""):
    """None when equal within tolerance, else a description of the first difference."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return f"{path}: {type(a).__name__} vs {type(b).__name__}"
        if a.shape != b.shape:
            return f"{path}: shape {a.shape} vs {b.shape}"
        if a.size == 0:
            return None
        if a.dtype == bool or a.dtype.kind in "iu":
            if b.dtype.kind in "biu":
                if np.array_equal(a, b):
                    return None
                return f"{path}: {int(np.sum(a != b))} of {a.size} entries differ"
        af, bf = np.asarray(a, float), np.asarray(b, float)
        na, nb = np.isfinite(af), np.isfinite(bf)
        if not np.array_equal(na, nb):
            return f"{path}: finite in {int(na.sum())} vs {int(nb.sum())} entries"
        if not np.array_equal(np.isnan(af), np.isnan(bf)) or not np.array_equal(af == np.inf, bf == np.inf):
            return f"{path}: different non-finite entries"
        if not na.any():
            return None
        d = np.max(np.abs(af[na] - bf[na]))
        s = max(np.max(np.abs(af[na])), np.max(np.abs(bf[na])), 1e-5)
        if d > rtol * s:
            return f"{path}: max difference {d:.6g} at scale {s:.6g}"
        return None
    if isinstance(a, bool) or isinstance(b, bool):
        return None if bool(a) == bool(b) else f"{path}: {a} vs {b}"
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return diff(np.array(float(a)), np.array(float(b)), rtol, path)
    if isinstance(a, dict) and isinstance(b, dict):
        if sorted(a) != sorted(b):
            return f"{path}: keys {sorted(a)} vs {sorted(b)}"
        for k in sorted(a):
            d = diff(a[k], b[k], rtol, f"{path}.{k}")
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: {len(a)} vs {len(b)} items"
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, rtol, f"{path}[{i}]")
            if d:
                return d
        return None
    return None if a == b else f"{path}: {a!r} vs {b!r}"

"""Control of the preloaded allocator and file-system seam."""
import ctypes

_L = None
KINDS = {"err": 1, "short": 2, "eintr": 3, "crash": 4, "torn": 5, "sticky": 6}


class _Fault(ctypes.Structure):
    _fields_ = [("at", ctypes.c_long), ("kind", ctypes.c_int), ("arg", ctypes.c_int)]


class _Log(ctypes.Structure):
    _fields_ = [("op", ctypes.c_int), ("fd", ctypes.c_int), ("n", ctypes.c_long)]


def lib():
    global _L
    if _L is None:
        _L = ctypes.CDLL(None)
        _L.shim_fs_reset  # raises when the seam is not preloaded
    return _L


def _v(name, t=ctypes.c_long):
    return t.in_dll(lib(), name)


_INT = {"shim_new_armed", "shim_mal_armed", "shim_new_poison", "shim_mal_poison", "shim_free_poison", "shim_live_armed", "shim_fs_armed", "shim_nfaults",
        "shim_sticky_errno", "shim_np_poison"}


def get(name):
    return _v(name, ctypes.c_int if name in _INT else ctypes.c_long).value


def put(name, value):
    _v(name, ctypes.c_int if name in _INT else ctypes.c_long).value = value


def prepare():
    """Resolve every symbol once, outside any armed section."""
    for n in ("shim_new_armed", "shim_mal_armed", "shim_new_count", "shim_new_fail_at", "shim_new_fail_len",
              "shim_new_failed", "shim_new_poison", "shim_new_live", "shim_new_live_bytes", "shim_mal_count",
              "shim_mal_min", "shim_mal_fail_at", "shim_mal_fail_len", "shim_mal_failed", "shim_mal_poison"):
        get(n)


class _Handler(ctypes.Structure):
    _fields_ = [("name", ctypes.c_char * 127), ("version", ctypes.c_uint8), ("ctx", ctypes.c_void_p),
                ("malloc", ctypes.c_void_p), ("calloc", ctypes.c_void_p), ("realloc", ctypes.c_void_p),
                ("free", ctypes.c_void_p)]


_KEEP = []


def _replace(lib_, prefix):
    """Puts functions in the place of those of the array library's default allocator, for all threads. Blocks handed
    out before are given back correctly: both take theirs from the C library."""
    from numpy._core import _multiarray_umath as um
    api = ctypes.pythonapi
    api.PyCapsule_GetPointer.restype, api.PyCapsule_GetPointer.argtypes = ctypes.c_void_p, [ctypes.py_object, ctypes.c_void_p]
    table = ctypes.cast(api.PyCapsule_GetPointer(um._ARRAY_API, None), ctypes.POINTER(ctypes.c_void_p))
    default = ctypes.cast(table[306], ctypes.POINTER(ctypes.py_object))[0]
    name = ctypes.create_string_buffer(b"mem_handler")
    h = _Handler.from_address(api.PyCapsule_GetPointer(default, ctypes.addressof(name)))
    assert h.version == 1 and h.name == b"default_allocator"
    for n in ("malloc", "calloc", "realloc", "free"):
        setattr(h, n, ctypes.cast(getattr(lib_, prefix + n), ctypes.c_void_p).value)
    _KEEP.append(lib_)


def array_allocator(path):
    """From here on every array starts on a 64-byte boundary: what sums over it give does not depend on where it lies."""
    _replace(ctypes.CDLL(path), "dst_np_")
    import numpy as np
    assert all(np.empty(n, np.uint8).ctypes.data % 64 == 0 for n in (1, 8, 24, 1000, 5000, 100000))


def numpy_allocator():
    """From here on the arrays of this process also hold a pattern when fresh."""
    _replace(lib(), "shim_np_")


class NewFault:
    """Operator new fails from its n-th call on (len calls) inside the block."""

    def __init__(self, at, length=1, poison=-1):
        self.at, self.len, self.poison = at, length, poison
        self.failed = 0
        self.count = 0
        self.v = {n: _v(n, ctypes.c_int if n in _INT else ctypes.c_long) for n in
                  ("shim_new_armed", "shim_new_count", "shim_new_fail_at", "shim_new_fail_len", "shim_new_failed",
                   "shim_new_poison")}

    def __enter__(self):
        v = self.v
        v["shim_new_count"].value = 0
        v["shim_new_failed"].value = 0
        v["shim_new_fail_at"].value = self.at
        v["shim_new_fail_len"].value = self.len
        v["shim_new_poison"].value = self.poison
        v["shim_new_armed"].value = 1
        return self

    def __exit__(self, *a):
        v = self.v
        v["shim_new_armed"].value = 0
        self.failed = v["shim_new_failed"].value
        self.count = v["shim_new_count"].value
        v["shim_new_fail_at"].value = -1
        return False


class MalFault:
    """malloc/calloc/realloc of at least min bytes fail from the n-th call on (len calls)."""

    def __init__(self, at, length=1, minimum=600, poison=-1):
        self.at, self.len, self.min, self.poison = at, length, minimum, poison
        self.failed = 0
        self.count = 0
        self.v = {n: _v(n, ctypes.c_int if n in _INT else ctypes.c_long) for n in
                  ("shim_mal_armed", "shim_mal_count", "shim_mal_fail_at", "shim_mal_fail_len", "shim_mal_failed",
                   "shim_mal_poison", "shim_mal_min")}

    def __enter__(self):
        v = self.v
        v["shim_mal_count"].value = 0
        v["shim_mal_failed"].value = 0
        v["shim_mal_fail_at"].value = self.at
        v["shim_mal_fail_len"].value = self.len
        v["shim_mal_min"].value = self.min
        v["shim_mal_poison"].value = self.poison
        v["shim_mal_armed"].value = 1
        return self

    def __exit__(self, *a):
        v = self.v
        v["shim_mal_armed"].value = 0
        self.failed = v["shim_mal_failed"].value
        self.count = v["shim_mal_count"].value
        v["shim_mal_fail_at"].value = -1
        return False


class Fs:
    """Scripts faults for file operations below root."""

    def __init__(self, root, faults=(), max_write=0, max_read=0):
        self.root, self.faults, self.mw, self.mr = root, faults, max_write, max_read
        self.ops = 0
        self.fired = {}
        self.log = []

    def __enter__(self):
        L = lib()
        L.shim_fs_reset()
        b = self.root.encode()
        assert len(b) < 500
        ctypes.memmove((ctypes.c_char * 512).in_dll(L, "shim_root"), b + b"\0", len(b) + 1)
        tab = (_Fault * 64).in_dll(L, "shim_faults")
        for i, (at, kind, arg) in enumerate(self.faults[:64]):
            tab[i].at, tab[i].kind, tab[i].arg = at, KINDS[kind], arg
        put("shim_nfaults", min(64, len(self.faults)))
        put("shim_max_write", self.mw)
        put("shim_max_read", self.mr)
        put("shim_fs_armed", 1)
        return self

    def __exit__(self, *a):
        put("shim_fs_armed", 0)
        self.ops = get("shim_fs_ops")
        fired = (ctypes.c_long * 8).in_dll(lib(), "shim_fired")
        self.fired = {k: fired[v] for k, v in KINDS.items() if fired[v]}
        n = min(get("shim_nlog"), 65536)
        lg = (_Log * 65536).in_dll(lib(), "shim_log")
        self.log = [(lg[i].op, lg[i].n) for i in range(n)]
        return False


class native_points:
    """Calls fn at every few basic blocks of native code that runs without the interpreter lock."""

    every = 64

    def __init__(self, fn):
        self.cb = None
        try:
            L = ctypes.CDLL(None)
            ctypes.c_int.in_dll(L, "shim_cov_armed")
        except ValueError:
            return  # the seam is not preloaded
        self.L = L
        self.cb = ctypes.CFUNCTYPE(None)(fn)
        ctypes.c_void_p.in_dll(L, "shim_cov_cb").value = ctypes.cast(self.cb, ctypes.c_void_p).value
        ctypes.c_long.in_dll(L, "shim_cov_every").value = self.every
        ctypes.c_int.in_dll(L, "shim_cov_armed").value = 1

    def off(self):
        if self.cb is not None:
            ctypes.c_int.in_dll(self.L, "shim_cov_armed").value = 0

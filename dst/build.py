"""Builds, from /repo's working tree, the native engine the simulation loads.

Nothing is written in /repo: the sources are copied to .build/<hash>/ and built
there with the project's own setup.py; the preloaded seam is built beside it.
"""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig

from .env import BUILD_ROOT, PY, REPO, VERIF, pinned_env

SUFFIX = ".so"


def _inputs():
    pats = ["deodr/*.pyx", "deodr/*.pxd", "deodr/*.pxi", "C++/*", "setup.py", "pyproject.toml", "setup.cfg",
            "deodr/__init__.py"]
    files = []
    for p in pats:
        files += [f for f in glob.glob(os.path.join(REPO, p)) if os.path.isfile(f)]
    return sorted(files)


def source_hash():
    h = hashlib.sha256()
    for f in _inputs():
        h.update(os.path.relpath(f, REPO).encode() + b"\0")
        with open(f, "rb") as fd:
            h.update(fd.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


class BuildError(Exception):
    pass


def _run(cmd, cwd, env, log):
    with open(log, "ab") as f:
        f.write((" ".join(cmd) + "\n").encode())
        f.flush()
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=f, stderr=f, timeout=800)
    if r.returncode:
        tail = open(log, errors="replace").read()[-2000:]
        raise BuildError(f"{cmd[0]} failed ({r.returncode}) in {cwd}\n{tail}")


def _lock():
    os.makedirs(BUILD_ROOT, exist_ok=True)
    f = open(os.path.join(BUILD_ROOT, ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def shim():
    src = os.path.join(VERIF, "dst", "native", "shim.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(BUILD_ROOT, f"shim-{h}.so")
    if os.path.exists(out):
        return out
    with _lock():
        if not os.path.exists(out):
            tmp = out + f".{os.getpid()}"
            _run(["g++", "-O2", "-fPIC", "-shared", "-fno-builtin", "-o", tmp, src, "-ldl"], VERIF,
                 pinned_env(), os.path.join(BUILD_ROOT, "shim.log"))
            os.rename(tmp, out)
    return out


def arrays():
    """The allocator of arrays."""
    src = os.path.join(VERIF, "dst", "native", "arrays.c")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(BUILD_ROOT, f"arrays-{h}.so")
    if not os.path.exists(out):
        with _lock():
            tmp = out + f".{os.getpid()}"
            _run(["gcc", "-O2", "-fPIC", "-shared", "-fno-builtin", "-o", tmp, src], VERIF, pinned_env(),
                 os.path.join(BUILD_ROOT, "arrays.log"))
            os.rename(tmp, out)
    return out


def _stage(dst):
    for f in _inputs():
        rel = os.path.relpath(f, REPO)
        t = os.path.join(dst, rel)
        os.makedirs(os.path.dirname(t), exist_ok=True)
        shutil.copyfile(f, t)
    for extra in ("readme.md",):
        if os.path.exists(os.path.join(REPO, extra)):
            shutil.copyfile(os.path.join(REPO, extra), os.path.join(dst, extra))


def extension():
    """The engine, as the project builds it. Returns the path of the shared object."""
    h = source_hash()
    d = os.path.join(BUILD_ROOT, f"ext-{h}")
    out = os.path.join(d, "engine" + SUFFIX)
    if os.path.exists(out):
        return out
    with _lock():
        if os.path.exists(out):
            return out
        _prune(keep={d})
        work = os.path.join(d, "work")
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
        _stage(work)
        env = pinned_env()
        env["CYTHON_FORCE_REGEN"] = "1"
        _run([PY, "setup.py", "build_ext", "--inplace", "--force"], work, env, os.path.join(d, "build.log"))
        so = glob.glob(os.path.join(work, "deodr", "*.so"))
        if len(so) != 1:
            raise BuildError("no extension produced")
        cpp = glob.glob(os.path.join(work, "build", "deodr", "*.cpp"))
        if cpp:
            os.makedirs(os.path.join(d, "gen", "deodr"), exist_ok=True)
            shutil.copyfile(cpp[0], os.path.join(d, "gen", "deodr", "engine.cpp"))
            shutil.copytree(os.path.join(work, "C++"), os.path.join(d, "C++"), dirs_exist_ok=True)
            shutil.copytree(os.path.join(work, "C++"), os.path.join(d, "gen", "C++"), dirs_exist_ok=True)
        shutil.copyfile(so[0], out + ".tmp")
        os.rename(out + ".tmp", out)
        shutil.rmtree(work, ignore_errors=True)
    return out


def _variant(name, flags):
    """The same generated source, compiled differently."""
    base = extension()
    d = os.path.dirname(base)
    out = os.path.join(d, f"engine_{name}" + SUFFIX)
    if os.path.exists(out):
        return out
    with _lock():
        if os.path.exists(out):
            return out
        src = os.path.join(d, "gen", "deodr", "engine.cpp")
        np_inc = subprocess.run([PY, "-c", "import numpy;print(numpy.get_include())"], capture_output=True,
                                text=True, env=pinned_env(), check=True).stdout.strip()
        py_inc = subprocess.run([PY, "-c", "import sysconfig;print(sysconfig.get_paths()['include'])"],
                                capture_output=True, text=True, env=pinned_env(), check=True).stdout.strip()
        tmp = out + f".{os.getpid()}"
        _run(["g++", "-shared", "-fPIC", "-O1", "-w"] + flags + ["-fno-strict-overflow", "-I" + np_inc, "-I" + py_inc,
              "-I" + os.path.join(d, "gen"), src, "-o", tmp], d, pinned_env(), os.path.join(d, name + ".log"))
        os.rename(tmp, out)
    return out


def asan_extension():
    """With AddressSanitizer."""
    return _variant("asan", ["-g1", "-fsanitize=address", "-fno-omit-frame-pointer"])


def points_extension():
    """With a call at every basic block, which the preloaded seam turns into scheduling points."""
    return _variant("points", ["-fsanitize-coverage=trace-pc"])


def libasan():
    """Preload list: the C++ runtime has to be there when the sanitizer resolves __cxa_throw."""
    return " ".join(subprocess.run(["gcc", f"-print-file-name={n}"], capture_output=True, text=True,
                                   check=True).stdout.strip() for n in ("libasan.so", "libstdc++.so.6"))


def _prune(keep, n=6):
    ds = [d for d in glob.glob(os.path.join(BUILD_ROOT, "ext-*")) if d not in keep]
    ds.sort(key=os.path.getmtime)
    for d in ds[: max(0, len(ds) - n)]:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    print(shim())
    print(arrays())
    print(extension())
    if "--asan" in sys.argv:
        print(asan_extension())
        print(points_extension())

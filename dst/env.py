"""The pinned environment every simulated run executes in."""
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DST_REPO", "/repo")
PY = "/opt/venv/bin/python"
BUILD_ROOT = os.environ.get("DST_BUILD", os.path.join(VERIF, ".build"))
REPLAYS = os.path.join(VERIF, "replays")

PINNED = {
    "LANG": "C.UTF-8",
    "LC_ALL": "C.UTF-8",
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONNOUSERSITE": "1",
    "MPLBACKEND": "Agg",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "OPENBLAS_CORETYPE": "Haswell",
    "MKL_CBWR": "COMPATIBLE",
    "ATEN_CPU_CAPABILITY": "default",
    "PYTHONWARNINGS": "ignore",
    "LP_NUM_THREADS": "0",
    "MESA_SHADER_CACHE_DISABLE": "true",
    "LIBGL_ALWAYS_SOFTWARE": "1",
    "EGL_PLATFORM": "surfaceless",
    "OPENCV_LOG_LEVEL": "ERROR",
}
DROP = ("PYTHONPATH", "DISPLAY", "WAYLAND_DISPLAY", "PYTHONSTARTUP", "PYTHONTRACEMALLOC")


def pinned_env(hashseed="0", preload=None, asan=False):
    env = {k: v for k, v in os.environ.items() if k not in DROP}
    env.update(PINNED)
    env["PYTHONHASHSEED"] = hashseed
    env["DST_PINNED"] = "1"
    if preload:
        env["LD_PRELOAD"] = preload
    else:
        env.pop("LD_PRELOAD", None)
    if asan:
        env["ASAN_OPTIONS"] = (
            "detect_leaks=0:abort_on_error=0:exitcode=86:allocator_may_return_null=1:"
            "detect_stack_use_after_return=0:handle_segv=1:symbolize=0:log_path=stderr"
        )
        env["PYTHONMALLOC"] = "malloc"
    return env


def ncpu():
    try:
        return max(1, min(8, len(os.sched_getaffinity(0))))
    except Exception:
        return 4

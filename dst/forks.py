"""Runs a function in a forked copy of this (pristine) process."""
import os
import pickle
import select
import signal
import struct
import sys
import time
import traceback

CRASH_EXIT = 77


class ChildDied(Exception):
    def __init__(self, status, err=""):
        super().__init__(status)
        self.status = status
        self.err = err

    def how(self):
        if os.WIFSIGNALED(self.status):
            return f"killed by signal {os.WTERMSIG(self.status)}"
        return f"exit code {os.WEXITSTATUS(self.status)}"


class ChildTimeout(Exception):
    pass


class ChildError(Exception):
    """The function raised: a harness error, unless the code under test raised it where nothing should fail (origin)."""

    def __init__(self, text, origin=None):
        super().__init__(text)
        self.origin = origin


HERE = os.path.dirname(os.path.abspath(__file__))


def _origin(e):
    """Where the code under test raised e, if it was not the harness (or a fault it injects)."""
    if isinstance(e, ChildError):
        return e.origin
    if not isinstance(e, Exception):
        return None
    out = None
    for f in traceback.extract_tb(e.__traceback__):
        n = f.filename.replace(os.sep, "/")
        if n.startswith(HERE):
            out = None
        elif "/deodr/" in n or "differentiable_renderer_cython" in n:
            out = f"{type(e).__name__}: {e} (in {f.name} of {os.path.basename(n)})"
    return out


def call(fn, *args, timeout=120.0, stderr=None, quiet=True):
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            os.close(r)
            if quiet:
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 1)
                if stderr is None:
                    os.dup2(dn, 2)
            if stderr is not None:
                fd = os.open(stderr, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
                os.dup2(fd, 2)
            try:
                res = (True, fn(*args), None)
            except BaseException as e:  # noqa
                res = (False, "".join(traceback.format_exception(e))[-4000:], _origin(e))
            data = pickle.dumps(res, protocol=5)
            with os.fdopen(w, "wb") as f:
                f.write(struct.pack("<Q", len(data)))
                f.write(data)
            code = 0
        except BaseException:
            code = 71
        finally:
            os._exit(code)
    os.close(w)
    buf = bytearray()
    end = time.monotonic() + timeout
    try:
        while True:
            left = end - time.monotonic()
            if left <= 0:
                raise ChildTimeout()
            rd, _, _ = select.select([r], [], [], left)
            if not rd:
                raise ChildTimeout()
            b = os.read(r, 1 << 20)
            if not b:
                break
            buf += b
    except ChildTimeout:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    finally:
        os.close(r)
    _, st = os.waitpid(pid, 0)
    if len(buf) >= 8 and len(buf) == 8 + struct.unpack("<Q", buf[:8])[0]:
        ok, val, origin = pickle.loads(bytes(buf[8:]))
        if ok:
            return val
        raise ChildError(val, origin)
    err = ""
    if stderr is not None:
        try:
            err = open(stderr, errors="replace").read()[:40000]
        except OSError:
            pass
    raise ChildDied(st, err)

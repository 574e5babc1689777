"""Fault injection in Python code: an exception delivered at the n-th traced event."""
import sys

from .sched import in_pkg

EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "OSError": OSError}


class LineFault:
    """Raises exc at the n-th line event executed by package code inside the block."""

    def __init__(self, n, exc, files=None):
        self.n = n
        self.exc = exc
        self.count = 0
        self.fired = False
        self.where = None
        self.files = files

    def _local(self, frame, event, arg):
        if event == "line":
            if self.count == self.n and not self.fired:
                self.fired = True
                self.where = (frame.f_code.co_name, frame.f_lineno)
                raise EXC[self.exc]("injected")
            self.count += 1
        return self._local

    def _glob(self, frame, event, arg):
        if in_pkg(frame.f_code.co_filename):
            return self._local
        return None

    def __enter__(self):
        self.prev = sys.gettrace()
        sys.settrace(self._glob)
        return self

    def __exit__(self, *a):
        sys.settrace(self.prev)
        return False

""" Fault injection in user code, callbacks and at statement boundaries inside a block evaluation. """
import errno
import sys

from simkit import models


class Boom(Exception):
    """ Application-specific failure. """


class Cancelled(BaseException):
    """ Cancellation that does not derive from Exception (like KeyboardInterrupt). """


def make(name, text):
    table = {"Boom": Boom, "Cancelled": Cancelled, "ValueError": ValueError, "TypeError": TypeError,
             "KeyError": KeyError, "RuntimeError": RuntimeError, "AttributeError": AttributeError,
             "IndexError": IndexError, "StopIteration": StopIteration, "OSError": OSError, "MemoryError": MemoryError,
             "NotImplementedError": NotImplementedError, "KeyboardInterrupt": KeyboardInterrupt,
             "ZeroDivisionError": ZeroDivisionError, "RecursionError": RecursionError, "AssertionError": AssertionError,
             "PermissionError": PermissionError, "FileNotFoundError": FileNotFoundError, "EOFError": EOFError,
             "UnicodeError": UnicodeError, "TimeoutError": TimeoutError, "LookupError": LookupError}
    if name == "NoSpace":
        return OSError(errno.ENOSPC, text)
    return table[name](text)


EXCEPTIONS = ["Boom", "ValueError", "TypeError", "KeyError", "RuntimeError", "AttributeError", "IndexError", "OSError",
              "MemoryError", "NotImplementedError", "ZeroDivisionError", "AssertionError", "Cancelled",
              "KeyboardInterrupt", "RecursionError"]

SYSTEM_EXCEPTIONS = ["OSError", "NoSpace", "PermissionError", "FileNotFoundError", "EOFError", "UnicodeError", "TimeoutError",
                     "MemoryError"]


def in_chain(exc, injected):
    """ Whether exc is (or was caused by) the injected exception. """
    seen = set()
    stack = [exc]
    while stack:
        cur = stack.pop()
        if cur is None or id(cur) in seen:
            continue
        if cur is injected:
            return True
        seen.add(id(cur))
        stack.extend([cur.__cause__, cur.__context__])
    return False


class UserCode:
    """ Counts user-code entry points, fails the n-th ones. faults: {n: exception name}. """

    def __init__(self, ctx, faults=(), only=None, observer=None):
        self.ctx, self.only, self.observer = ctx, only, observer
        self.faults = {int(n): name for n, name in faults}
        self.count = 0
        self.fired = []
        self.calls = {}
        self.armed = True

    def install(self):
        models.TOUCH = self
        self.ctx.cleanups.append(self.remove)
        return self

    def remove(self):
        models.TOUCH = None

    def __call__(self, what, args):
        self.calls[what] = self.calls.get(what, 0) + 1
        if self.observer:
            self.observer(what, args)
        if not self.armed or (self.only is not None and not self.only(what)):
            return
        self.count += 1
        name = self.faults.pop(self.count, None)
        if name is not None:
            self.ctx.fault(f"user-code:{name}")
            exc = make(name, f"simulated failure in {what}")
            self.fired.append(exc)
            raise exc


class LineInterrupt:
    """ Raises at the n-th line event (counted while `active()`) inside the given path prefixes. """

    def __init__(self, ctx, points, active, prefixes, name="KeyboardInterrupt"):
        self.ctx, self.active, self.prefixes, self.name = ctx, active, tuple(prefixes), name
        self.points = set(points)
        self.count = 0
        self.fired = []
        self.tails = set()
        self.ended, self.tail = 0, None

    def end(self):
        """ What the interruptions were counted in has just ended: (n-th end, lines since then) are points as well. """
        self.ended += 1
        self.tail = 0

    def __enter__(self):
        sys.settrace(self.trace)
        return self

    def __exit__(self, *args):
        sys.settrace(None)

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.prefixes):
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == "line":
            due = False
            if self.active():
                self.count += 1
                due = self.count in self.points
                self.points.discard(self.count)
            elif self.tail is not None:
                self.tail += 1
                due = (self.ended, self.tail) in self.tails
                self.tails.discard((self.ended, self.tail))
            if due:
                exc = make(self.name, f"simulated interruption at {frame.f_code.co_name}:{frame.f_lineno}")
                self.ctx.fault("interruption")
                self.fired.append(exc)
                raise exc
        return self.local

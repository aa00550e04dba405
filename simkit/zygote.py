"""
Pristine-process isolation.

A worker imports the code under test once and never executes it.  Every simulated run happens in a fork of that
pristine process, and a simulated *process restart* continues in another fork of it, which receives nothing but the
bytes the run made durable.  Runs can therefore not contaminate one another and a replay starts from the same state.
"""
import gc
import importlib
import multiprocessing
import os
import signal
import subprocess
import sys
import traceback

_CHANNEL = None
_SIBLINGS = {}


def preload():
    """ Import every module of the code under test (and what it imports lazily) before the first fork. """
    import pkgutil
    import dessia_common
    for info in pkgutil.walk_packages(dessia_common.__path__, "dessia_common."):
        if ".tests" in info.name and info.name != "dessia_common.tests":
            continue
        try:
            importlib.import_module(info.name)
        except Exception:  # noqa optional dependency missing: not our business
            pass
    for name in ("plot_data", "docx", "openpyxl", "openpyxl.styles", "zipfile", "scipy.optimize", "cma", "networkx",
                 "matplotlib.pyplot", "bson", "encodings.idna", "encodings.utf_8", "encodings.latin_1", "encodings.cp437"):
        try:
            importlib.import_module(name)
        except Exception:  # noqa
            pass
    memoize_sources()
    gc.collect()
    gc.freeze()


def memoize_sources():
    """ Reading and parsing source code (done over and over by the displays) is slow: remember it. Pure speed-up. """
    import ast
    import functools
    import inspect
    import textwrap
    from dessia_common.core import DessiaObject
    from dessia_common.workflow import blocks  # noqa
    real = inspect.getsource
    cached = functools.lru_cache(maxsize=None)(real)

    def getsource(item):
        try:
            return cached(item)
        except TypeError:
            return real(item)
    inspect.getsource = getsource
    real_parse = ast.parse
    trees = functools.lru_cache(maxsize=None)(real_parse)

    def parse(source, *args, **kwargs):
        return trees(source) if isinstance(source, str) and not args and not kwargs else real_parse(source, *args, **kwargs)
    ast.parse = parse
    textwrap.dedent = functools.lru_cache(maxsize=None)(textwrap.dedent)

    def classes(cls):
        yield cls
        for sub in cls.__subclasses__():
            yield from classes(sub)
    for cls in set(classes(DessiaObject)):
        for name in dir(cls):
            member = inspect.getattr_static(cls, name, None)
            member = getattr(member, "__func__", member)
            if inspect.isfunction(member):
                try:
                    parse(textwrap.dedent(getsource(member)))
                except (OSError, TypeError, SyntaxError):
                    pass


def _serve(child_main):
    """ Fork, run child_main(conn) in the child, serve its fresh-process requests, return its final message. """
    parent, child = multiprocessing.Pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            parent.close()
            global _CHANNEL
            _CHANNEL = child
            try:
                child.send(("done", child_main()))
            except BaseException:  # noqa
                child.send(("harness-error", traceback.format_exc()))
            child.close()
            code = 0
        finally:
            os._exit(code)
    child.close()
    answer = ("died", None)
    try:
        while True:
            if not parent.poll(600):
                answer = ("hung", None)
                break
            try:
                message = parent.recv()
            except EOFError:
                break
            if message[0] == "foreign":
                parent.send(foreign(*message[1:]))
                continue
            if message[0] == "fresh":
                _, modname, fname, args = message
                parent.send(_serve(lambda: getattr(importlib.import_module(modname), fname)(*args)))
                continue
            answer = message
            break
    finally:
        parent.close()
        if answer[0] == "hung":
            os.kill(pid, signal.SIGKILL)
        _, status = os.waitpid(pid, 0)
    if answer[0] == "died":
        answer = ("died", status)
    return answer


def isolated(modname, fname, *args):
    """ Call modname.fname(*args) in a fork of the pristine process (from the zygote itself or from any child). """
    if _CHANNEL is None:
        return _serve(lambda: getattr(importlib.import_module(modname), fname)(*args))
    _CHANNEL.send(("fresh", modname, fname, args))
    return _CHANNEL.recv()


def foreign(hashseed, modname, fname, args):
    """ Call modname.fname(*args) in a pristine process whose interpreter has another string hash seed. """
    if _CHANNEL is not None:
        _CHANNEL.send(("foreign", hashseed, modname, fname, args))
        return _CHANNEL.recv()
    if hashseed not in _SIBLINGS:
        mine, theirs = multiprocessing.Pipe()
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
        proc = subprocess.Popen([sys.executable, "-m", "simkit", "sibling", "--fd", str(theirs.fileno())], env=env,
                                pass_fds=[theirs.fileno()], stdout=subprocess.DEVNULL, stderr=sys.stderr.fileno())
        theirs.close()
        _SIBLINGS[hashseed] = (proc, mine)
    mine = _SIBLINGS[hashseed][1]
    mine.send((modname, fname, args))
    return mine.recv()


def sibling_main(descriptor):
    """ Pristine process with another hash seed: serves its creator until that one ends. """
    from multiprocessing.connection import Connection
    connection = Connection(descriptor)
    while True:
        try:
            modname, fname, args = connection.recv()
        except EOFError:
            return 0
        connection.send(_serve(lambda: getattr(importlib.import_module(modname), fname)(*args)))


def die(answer):
    """ Simulated death of this process: report what the run recorded, then stop without unwinding anything. """
    _CHANNEL.send(("done", answer))
    _CHANNEL.close()
    os._exit(0)

"""
Simulated disk: every open(), rename, fsync and removal below the scratch root goes through a fault layer.

The bytes live in real files of the scratch directory and the buffering layers of the interpreter are the real ones;
the raw file underneath delivers short writes and short reads, fails (ENOSPC, EIO, EACCES...) or kills the process at
the operation or byte offset the plan says.

A fault is {"at": ["op", n] | ["write", n] | ["read", n], "kind": name}: before the n-th operation, or once n bytes
were written or read since the disk was armed.
"""
import builtins
import errno
import io
import os
import tempfile

REAL = {"open": io.open, "replace": os.replace, "rename": os.rename, "remove": os.remove, "unlink": os.unlink,
        "fsync": os.fsync, "osopen": os.open, "truncate": os.truncate, "link": os.link}
ERRORS = {"ENOSPC": errno.ENOSPC, "EIO": errno.EIO, "EACCES": errno.EACCES, "EDQUOT": errno.EDQUOT,
          "EMFILE": errno.EMFILE, "ENOENT": errno.ENOENT, "EINTR": errno.EINTR, "EROFS": errno.EROFS}
STICKY = {"ENOSPC", "EDQUOT", "EROFS"}


class Disk:
    """ One simulated disk, rooted in a scratch directory. """

    def __init__(self, ctx, root, crash=None):
        self.ctx, self.root, self.crash = ctx, os.path.realpath(root) + os.sep, crash
        self.fired = []
        self.disarm()

    def arm(self, faults=(), chunk=None):
        self.faults = [dict(f) for f in faults]
        self.chunk = chunk
        self.ops, self.written, self.read, self.stuck = 0, 0, 0, None
        self.fired = []
        self.log = []

    def disarm(self):
        self.faults, self.chunk, self.stuck = [], None, None
        self.ops = self.written = self.read = 0
        self.log = []

    # Plan application
    def fire(self, kind, what):
        self.ctx.fault(f"disk:{kind}:{what}")
        if kind == "crash":
            self.crash()
            raise AssertionError("crash hook returned")
        if kind in STICKY:
            self.stuck = kind
        exc = OSError(ERRORS[kind], f"{os.strerror(ERRORS[kind])} (simulated, {what})")
        self.fired.append(exc)
        raise exc

    def operation(self, name, path=None):
        self.ops += 1
        self.log.append(name)
        if self.stuck and name in ("write", "create"):
            self.fire(self.stuck, name)
        for fault in list(self.faults):
            if fault["at"][0] == "op" and fault["at"][1] == self.ops:
                self.faults.remove(fault)
                self.fire(fault["kind"], name)

    def room(self, way, size):
        """ How many bytes can go through before the next byte-triggered fault (0 means: now). """
        done = self.written if way == "write" else self.read
        best, which = size, None
        for fault in self.faults:
            if fault["at"][0] == way and done <= fault["at"][1] < done + best:
                best, which = fault["at"][1] - done, fault
        if which is not None and best == 0:
            self.faults.remove(which)
            self.fire(which["kind"], way)
        if self.chunk:
            if best > self.chunk:
                self.ctx.faults["disk:short-" + way] = self.ctx.faults.get("disk:short-" + way, 0) + 1
            best = min(best, self.chunk)
        return best

    # Interposition
    def owns(self, file):
        try:
            if isinstance(file, int):
                file = os.readlink(f"/proc/self/fd/{file}")
            file = os.fspath(file)
            if isinstance(file, bytes):
                file = os.fsdecode(file)
            return (os.path.realpath(file) + os.sep).startswith(self.root)
        except (TypeError, OSError, ValueError):
            return False

    def install(self):
        def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            if not self.owns(file) and not (opener is not None and self.owns(os.path.dirname(os.fspath(file)) or ".")):
                return REAL["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
            return self.open(file, mode, buffering, encoding, errors, newline, closefd, opener)

        builtins.open = sim_open
        io.open = sim_open
        for name in ("replace", "rename", "link"):
            setattr(os, name, self.wrap2(name))
        for name in ("remove", "unlink", "fsync", "truncate"):
            setattr(os, name, self.wrap1(name))
        self.ctx.cleanups.append(self.remove)
        return self

    @staticmethod
    def remove():
        builtins.open = io.open = REAL["open"]
        for name in ("replace", "rename", "remove", "unlink", "fsync", "truncate", "link"):
            setattr(os, name, REAL[name])

    def wrap2(self, name):
        def call(src, dst, *args, **kwargs):
            if self.owns(dst):
                self.operation(name)
            return REAL[name](src, dst, *args, **kwargs)
        return call

    def wrap1(self, name):
        def call(path, *args, **kwargs):
            if self.owns(path):
                self.operation(name)
            return REAL[name](path, *args, **kwargs)
        return call

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        binary = "b" in mode
        writing = any(c in mode for c in "wax+")
        self.operation("create" if writing else "open")
        raw = FaultyFile(self, file, mode.replace("b", "").replace("t", ""), closefd, opener, writing)
        try:
            if buffering == 0:
                if not binary:
                    raise ValueError("can't have unbuffered text I/O")
                return raw
            size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
            if "+" in mode:
                buffer = io.BufferedRandom(raw, size)
            elif writing:
                buffer = io.BufferedWriter(raw, size)
            else:
                buffer = io.BufferedReader(raw, size)
            if binary:
                return buffer
            text = io.TextIOWrapper(buffer, encoding, errors, newline, line_buffering=buffering == 1)
            text.mode = mode
            return text
        except BaseException:
            raw.close()
            raise


class FaultyFile(io.FileIO):
    """ Raw file with the fault layer. """

    def __init__(self, disk, file, mode, closefd, opener, writing):
        super().__init__(file, mode, closefd, opener)
        self.disk, self.writing = disk, writing

    def write(self, data):
        data = memoryview(data).cast("B")
        if not len(data):
            return 0
        self.disk.operation("write")
        room = self.disk.room("write", len(data))
        count = super().write(data[:room])
        self.disk.written += count
        return count

    def truncate(self, size=None):
        self.disk.operation("truncate")
        return super().truncate(size)

    def readinto(self, buffer):
        view = memoryview(buffer).cast("B")
        if not len(view):
            return 0
        self.disk.operation("read")
        room = self.disk.room("read", len(view))
        data = super().read(room)
        view[:len(data)] = data
        self.disk.read += len(data)
        return len(data)

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        buffer = bytearray(size)
        count = self.readinto(buffer)
        return bytes(buffer[:count])

    def readall(self):
        chunks = []
        while True:
            chunk = bytearray(65536)
            count = self.readinto(chunk)
            if not count:
                return b"".join(chunks)
            chunks.append(bytes(chunk[:count]))

    def close(self):
        if not self.closed:
            try:
                if self.writing:
                    self.disk.operation("close")
            except OSError:
                # Deferred write failure, as on network disks: the last bytes did not make it
                os.ftruncate(self.fileno(), max(0, os.fstat(self.fileno()).st_size - 16))
                raise
            finally:
                super().close()


def gen_faults(rng, ways=("write",), size=1.0, crash=False):
    """
    Draw a fault sequence. Byte offsets are fractions of the size of the content (resolved with `resolve`).
    """
    faults = []
    for _ in range(rng.choice([0, 1, 1, 1, 2])):
        way = rng.choice(list(ways) + ["op"])
        kinds = {"write": ["ENOSPC", "EIO", "EDQUOT"], "read": ["EIO", "EIO", "EACCES"],
                 "op": ["EIO", "ENOSPC", "EACCES", "EMFILE", "EROFS"] if "write" in ways else
                 ["EIO", "EACCES", "EMFILE", "ENOENT"]}[way]
        kind = "crash" if crash and rng.random() < 0.5 else rng.choice(kinds)
        if way == "op":
            faults.append({"at": ["op", rng.choice([1, 1, 2, 2, 3, 4, 5, 6, 8])], "kind": kind})
        else:
            faults.append({"at": [way, rng.choice([0, 0.001, 0.02, 0.1, 0.5, 0.9, 0.99, 0.9999, rng.random()])],
                           "kind": kind})
    return faults


def resolve(faults, size):
    """ Fractions to byte offsets, given the size of the fault-free content. """
    out = []
    for fault in faults:
        way, where = fault["at"]
        if way != "op":
            where = int(where * max(size, 1))
        out.append({"at": [way, where], "kind": fault["kind"]})
    return out

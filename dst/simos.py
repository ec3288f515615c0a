"""Operating-system seam for simulated Python processes.

os.*, open(), time.* are replaced by wrappers.  A call made by a simulated task is a
yield point of the scheduler, can be made to fail by the fault plan, and does nothing
at all once the calling process has been killed.  Calls made by any other thread (the
harness) go straight to the real function.  Files are real files below a scratch
directory in memory.
"""
import builtins
import errno
import io
import os
import time

from .sched import SimKill

_real = {}
_ctx = {"sim": None, "world": None}

MUT = {"mkdir", "rmdir", "unlink", "remove", "rename", "replace", "link", "symlink",
       "truncate", "ftruncate", "write", "pwrite", "writev", "sendfile", "copy_file_range",
       "chmod", "utime", "fsync", "fdatasync"}
READS = {"read", "pread", "readv", "stat", "lstat", "fstat", "listdir", "scandir", "access",
         "statvfs", "close", "open", "lseek"}
CLASS = {"remove": "unlink", "replace": "rename", "pwrite": "write", "writev": "write",
         "sendfile": "write", "copy_file_range": "write", "pread": "read", "readv": "read",
         "lstat": "stat", "fstat": "stat", "scandir": "listdir", "ftruncate": "truncate",
         "fdatasync": "fsync"}
FAULTABLE = {"open", "read", "write", "mkdir", "unlink", "rename", "rmdir", "close", "fsync",
             "listdir", "truncate"}


def current():
    sim = _ctx["sim"]
    return sim.current() if sim is not None else None


def _path_of(a):
    if isinstance(a, int):
        try:
            return _real["readlink"]("/proc/self/fd/%d" % a)
        except OSError:
            return "fd"
    if isinstance(a, (bytes, bytearray)):
        return os.fsdecode(bytes(a))
    try:
        return _real["fspath"](a)
    except TypeError:
        return "?"


def _abspath(p):
    if not p.startswith("/"):
        p = os.path.join(_real["getcwd"](), p)
    return os.path.normpath(p)


def _wrap(name):
    real = _real[name]
    cls = CLASS.get(name, name)

    def call(*a, **k):
        t = current()
        if t is None:
            return real(*a, **k)
        world = _ctx["world"]
        path = _abspath(_path_of(a[0] if a else k.get("path", k.get("src", "?")))) if (a or k) else "?"
        if k.get("dir_fd") is not None or k.get("src_dir_fd") is not None:
            d = k.get("dir_fd", k.get("src_dir_fd"))
            path = os.path.normpath(os.path.join(_path_of(d), os.fspath(a[0])))
        extra = None
        if cls in ("rename", "link", "symlink") and len(a) > 1:
            extra = _abspath(_path_of(a[1]))
        if name == "open":
            fl = a[1] if len(a) > 1 else k.get("flags", 0)
            extra = "w" if fl & (os.O_WRONLY | os.O_RDWR) else "r"
            if fl & os.O_TRUNC:
                extra += "t"
        act = world.before(t, cls, path, extra)
        try:
            if act is None:
                r = real(*a, **k)
            else:
                if act.get("torn") is not None and name in ("write", "pwrite"):
                    data = bytes(a[1])
                    cut = data[:int(len(data) * act["torn"])]
                    if cut:
                        real(a[0], cut, *a[2:])
                if act.get("short") and name in ("write", "pwrite"):
                    data = bytes(a[1])
                    r = real(a[0], data[:max(1, len(data) // 2)], *a[2:])
                elif act.get("kill"):
                    raise SimKill()
                else:
                    raise OSError(act["errno"], os.strerror(act["errno"]), path)
        except OSError as e:
            world.after(t, cls, path, extra, e)
            raise
        world.after(t, cls, path, extra, None)
        return r
    call.__name__ = name
    return call


class SimFileIO(io.FileIO):
    """Raw file of a simulated process."""

    def __init__(self, file, mode="r", closefd=True, opener=None):
        t = current()
        self._owner = t.proc if t else None
        self._path = None
        self._w = any(c in mode for c in "wax+")
        if t is not None and not isinstance(file, int):
            world = _ctx["world"]
            path = _abspath(_path_of(file))
            kind = ("w" if self._w else "r") + ("t" if "w" in mode else "")
            act = world.before(t, "open", path, kind)
            if act is not None:
                if act.get("kill"):
                    raise SimKill()
                e = OSError(act["errno"], os.strerror(act["errno"]), path)
                world.after(t, "open", path, kind, e)
                raise e
            try:
                super().__init__(file, mode, closefd, opener)
            except OSError as e:
                world.after(t, "open", path, kind, e)
                raise
            self._path = path
            world.after(t, "open", path, kind, None)
        else:
            super().__init__(file, mode, closefd, opener)
            self._path = _abspath(_path_of(file))

    def _dead(self):
        return self._owner is not None and self._owner.killed

    def _io(self, cls, fn, data=None):
        t = current()
        if t is None:
            return fn(data) if data is not None else fn()
        world = _ctx["world"]
        act = world.before(t, cls, self._path, None)
        try:
            if act is None:
                r = fn(data) if data is not None else fn()
            else:
                if data is not None and act.get("torn") is not None:
                    b = bytes(data)
                    cut = b[:int(len(b) * act["torn"])]
                    if cut:
                        fn(cut)
                if act.get("short") and data is not None and cls == "write":
                    b = bytes(data)
                    r = fn(b[:max(1, len(b) // 2)])
                elif act.get("kill"):
                    raise SimKill()
                else:
                    raise OSError(act["errno"], os.strerror(act["errno"]), self._path)
        except OSError as e:
            world.after(t, cls, self._path, None, e)
            raise
        world.after(t, cls, self._path, None, None)
        return r

    def write(self, b):
        if self._dead():
            return len(b)
        return self._io("write", super().write, b)

    def readinto(self, b):
        if self._dead():
            raise SimKill()
        return self._io("read", super().readinto, b)

    def read(self, size=-1):
        if self._dead():
            raise SimKill()
        sup = super().read
        return self._io("read", lambda: sup(size))

    def readall(self):
        if self._dead():
            raise SimKill()
        return self._io("read", super().readall)

    def truncate(self, size=None):
        if self._dead():
            raise SimKill()
        sup = super().truncate
        return self._io("truncate", lambda: sup(size))

    def close(self):
        if self.closed or self._dead() or current() is None or self._path is None:
            return super().close()
        world = _ctx["world"]
        t = current()
        try:
            act = world.before(t, "close", self._path, "w" if self._w else "r")
        except BaseException:
            super().close()
            raise
        super().close()
        if act is not None and not act.get("kill"):
            e = OSError(act["errno"], os.strerror(act["errno"]), self._path)
            world.after(t, "close", self._path, None, e)
            raise e
        world.after(t, "close", self._path, None, None)


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    if current() is None:
        return _real["iopen"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    if not isinstance(file, int):
        file = os.fspath(file)
    modes = set(mode)
    if modes - set("axrwb+t") or len(mode) > len(modes):
        raise ValueError("invalid mode: %r" % mode)
    binary, updating = "b" in modes, "+" in modes
    if binary and "t" in modes:
        raise ValueError("can't have text and binary mode at once")
    if len(modes & set("axrw")) != 1:
        raise ValueError("must have exactly one of create/read/write/append mode")
    if binary and encoding is not None:
        raise ValueError("binary mode doesn't take an encoding argument")
    raw = SimFileIO(file, "".join(c for c in mode if c in "axrw+"), closefd, opener)
    result = raw
    try:
        line = buffering == 1
        if buffering < 0 or line:
            buffering = io.DEFAULT_BUFFER_SIZE
        if buffering == 0:
            if binary:
                return result
            raise ValueError("can't have unbuffered text I/O")
        if updating:
            buf = io.BufferedRandom(raw, buffering)
        elif modes & set("axw"):
            buf = io.BufferedWriter(raw, buffering)
        else:
            buf = io.BufferedReader(raw, buffering)
        result = buf
        if binary:
            return result
        text = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, line)
        result = text
        text.mode = mode
        return result
    except BaseException:
        result.close()
        raise


def install():
    """Patches the process-wide entry points once."""
    if _real:
        return
    _real["readlink"] = os.readlink
    _real["fspath"] = os.fspath
    _real["getcwd"] = os.getcwd
    _real["iopen"] = io.open
    for n in sorted(MUT | READS):
        if hasattr(os, n):
            _real[n] = getattr(os, n)
    for n in sorted(MUT | READS):
        if n in _real:
            w = _wrap(n)
            for fam in (os.supports_dir_fd, os.supports_fd, os.supports_follow_symlinks,
                        os.supports_effective_ids):
                if _real[n] in fam:
                    fam.add(w)
            setattr(os, n, w)
    builtins.open = sim_open
    io.open = sim_open
    for n in ("time", "monotonic", "perf_counter", "time_ns", "monotonic_ns"):
        _real["t_" + n] = getattr(time, n)

        def clock(n=n):
            sim = _ctx["sim"]
            if sim is None or sim.current() is None:
                return _real["t_" + n]()
            v = sim.now if n.startswith("time") else sim.now - sim.t0
            return int(v * 1e9) if n.endswith("_ns") else v
        setattr(time, n, clock)
    _real["sleep"] = time.sleep

    def sleep(s):
        t = current()
        if t is None:
            return _real["sleep"](s)
        sim = _ctx["sim"]
        sim.block(until=sim.now + max(0.0, s))
    time.sleep = sleep


def activate(sim, world):
    _ctx["sim"] = sim
    _ctx["world"] = world


ERRNO = {n: getattr(errno, n) for n in ("ENOSPC", "EIO", "EMFILE", "EACCES", "EDQUOT", "EBUSY",
                                        "EINTR", "EROFS", "EFBIG")}

"""Storage simulator: runs sessions of the real code in child processes behind a system-call seam.

A *session* is one simulated process life: a forked child that installs simio.so and then carries
out operations of the code under test.  Every file-system call it makes is executed, refused, cut
short or turned into the death of the process by the plan given to it.  What one session leaves on
disk is what the next one (a "restart") finds.
"""
import ctypes
import hashlib
import os
import pickle
import re
import resource
import select
import shutil
import signal
import struct
import sys
import time

CLASSES = ("openr", "openw", "read", "write", "close", "fsync", "trunc", "rename", "unlink", "mkdir",
           "rmdir", "mmap", "chdir", "stat", "list", "any")
CIDX = {c: i for i, c in enumerate(CLASSES)}
ACTIONS = {"err": 1, "short": 2, "torn": 3, "kill": 4, "killtorn": 5}
MAXLOG = 8192


class CodeTrouble(Exception):
    """The code under test raised an exception where the plan asks for something that must work without any fault (objects are
    built from valid data, values are asked for)."""


def code_frames(text):
    """What happened, if a traceback leads into the code under test; else None."""
    frames = re.findall(r'File "([^"]*)", line \d+, in (\S+)', text)
    own = ["%s: %s" % (f[f.rindex("sumo/"):], n) for f, n in frames if re.search(r"(^|/)sumo/[a-z0-9_]+/[a-z0-9_]+\.pyx?$", f)]
    if not own:
        return None
    last = [x for x in text.strip().split("\n") if x and not x.startswith(" ")][-1]
    return "%s (in %s)" % (re.sub(r"/[^ ']*/", "", last)[:200], ", ".join(own[:4]))


class Plan(ctypes.Structure):
    _fields_ = [("cls", ctypes.c_int32), ("action", ctypes.c_int32), ("err", ctypes.c_int32),
                ("frac", ctypes.c_int32), ("nth", ctypes.c_int64), ("len", ctypes.c_int64),
                ("fired", ctypes.c_int64), ("rw", ctypes.c_int32), ("pad", ctypes.c_int32)]


class Rec(ctypes.Structure):
    _fields_ = [("cls", ctypes.c_int16), ("act", ctypes.c_int16), ("fd", ctypes.c_int32),
                ("arg", ctypes.c_int64), ("res", ctypes.c_int64), ("path", ctypes.c_char * 40)]


class Ctl(ctypes.Structure):
    _fields_ = [("armed", ctypes.c_int32), ("nplans", ctypes.c_int32), ("gate_out", ctypes.c_int32),
                ("gate_in", ctypes.c_int32), ("credit", ctypes.c_int64), ("nops", ctypes.c_int64),
                ("cap", ctypes.c_int64), ("quota", ctypes.c_int64), ("nlog", ctypes.c_int64),
                ("count", ctypes.c_int64 * len(CLASSES)), ("fired", ctypes.c_int64 * 8),
                ("capped", ctypes.c_int64), ("escapes", ctypes.c_int64), ("quota_hits", ctypes.c_int64),
                ("bytes_written", ctypes.c_int64), ("plans", Plan * 16), ("root", ctypes.c_char * 256),
                ("escape", ctypes.c_char * 256), ("log", Rec * MAXLOG)]


_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(os.environ["DST_SIMIO"])
        _lib.simio_shared.restype = ctypes.c_void_p
        _lib.simio_install.argtypes = [ctypes.c_void_p]
    return _lib


_shared = {}


def shared(k=0):
    """The control block of the k-th simulated process of this worker."""
    pid = os.getpid()
    if k not in _shared or _shared[k][0] != pid:
        n = ctypes.c_size_t()
        p = lib().simio_shared(ctypes.byref(n))
        if not p:
            raise RuntimeError("no shared memory")
        if n.value != ctypes.sizeof(Ctl):
            raise RuntimeError("control block mismatch %d %d" % (n.value, ctypes.sizeof(Ctl)))
        _shared[k] = (pid, p)
    return _shared[k][1]


class Env:
    """What a session function gets: root, arm()/disarm(), note()."""

    def __init__(self, root, ctl, fd):
        self.root = root
        self.ctl = ctl
        self.fd = fd
        self.work = os.path.join(root, "w")

    def arm(self):
        self.ctl.armed = 1

    def disarm(self):
        self.ctl.armed = 0

    def mark(self):
        """Length of the operation log so far."""
        return self.ctl.nlog

    def fired(self):
        return sum(self.ctl.fired) + self.ctl.quota_hits

    def send(self, obj):
        b = pickle.dumps(obj)
        b = struct.pack("<I", len(b)) + b
        while b:
            n = os.write(self.fd, b)
            b = b[n:]


class Result:
    pass


class Life:
    """One simulated process: started by fork, read from through a pipe, perhaps scheduled through gates."""

    def __init__(self, root, fn, arg, k=0, gated=False, faults=(), quota=-1, seed=0, cap=60000, cwd="w",
                 as_limit=6 << 30, others=()):
        addr = shared(k)
        self.ctl = ctl = Ctl.from_address(addr)
        ctypes.memset(addr, 0, Ctl.log.offset)
        ctl.quota = quota
        ctl.cap = cap
        ctl.root = root.encode()
        for i, f in enumerate(faults[:16]):
            p = ctl.plans[i]
            p.cls = CIDX[f["on"]]
            p.action = ACTIONS[f["do"]]
            p.err = f.get("err", 5)
            p.frac = f.get("frac", 128)
            p.nth = f.get("nth", 1)
            p.len = f.get("len", 1)
        ctl.nplans = min(16, len(faults))
        r, w = os.pipe()
        gr = gw = go = gi = None
        if gated:
            gr, go = os.pipe()      # child -> scheduler
            gi, gw = os.pipe()      # scheduler -> child
            ctl.gate_out, ctl.gate_in = go, gi
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                for o in others:
                    o.close()
                for fd in (r, gr, gw):
                    if fd is not None:
                        os.close(fd)
                if gated:
                    b = os.read(gi, 8)
                    if len(b) != 8:
                        os._exit(71)
                    ctl.credit = struct.unpack("<q", b)[0]
                _child(root, fn, arg, ctl, addr, w, seed, cwd, as_limit)
            except BaseException as e:      # harness trouble in the child
                try:
                    import traceback
                    Env(root, ctl, w).send(("harness", traceback.format_exc()))
                except BaseException:
                    pass
                os._exit(70)
            os._exit(0)
        for fd in (w, go, gi):
            if fd is not None:
                os.close(fd)
        self.r, self.gr, self.gw = r, gr, gw
        self.buf = b""
        self.msgs = []
        self.over = self.hung = False

    def close(self):
        for fd in (self.r, self.gr, self.gw):
            if fd is not None:
                os.close(fd)
        self.r = self.gr = self.gw = None

    def kill(self):
        self.hung = True
        os.kill(self.pid, signal.SIGKILL)

    def _parse(self):
        while len(self.buf) >= 4:
            n = struct.unpack("<I", self.buf[:4])[0]
            if len(self.buf) < 4 + n:
                break
            m = pickle.loads(self.buf[4:4 + n])
            self.buf = self.buf[4 + n:]
            if m[0] == "harness":
                w = code_frames(m[1])
                if w:
                    raise CodeTrouble(w)
                raise RuntimeError("harness error in a session:\n" + m[1])
            self.msgs.append(m)

    def turn(self, end, credit=None):
        """Lets the process run (for `credit` more calls) until it waits again or is over."""
        if credit is not None:
            try:
                os.write(self.gw, struct.pack("<q", credit))
            except BrokenPipeError:
                pass
        fds = [self.r] + ([self.gr] if self.gr is not None else [])
        stopped = False
        while not self.over:
            left = end - time.monotonic()
            if left <= 0 and not self.hung:
                self.kill()
            rs, _, _ = select.select(fds, [], [], 0 if stopped else max(left, 5))
            if self.r in rs:
                b = os.read(self.r, 1 << 20)
                if not b:
                    self.over = True
                self.buf += b
                continue
            if stopped:
                break
            if self.gr in rs:
                if os.read(self.gr, 1):
                    stopped = True
                else:
                    fds = [self.r]
        self._parse()

    def result(self):
        """After the end."""
        self.close()
        _, st = os.waitpid(self.pid, 0)
        ctl = self.ctl
        res = Result()
        res.msgs = self.msgs
        res.fired = {k: ctl.fired[v] for k, v in ACTIONS.items() if ctl.fired[v]}
        if ctl.quota_hits:
            res.fired["nospace"] = ctl.quota_hits
        res.plan_fired = [ctl.plans[i].fired for i in range(ctl.nplans)]
        res.nops = ctl.nops
        res.counts = {c: ctl.count[i] for c, i in CIDX.items() if ctl.count[i]}
        res.bytes_written = ctl.bytes_written
        n = min(ctl.nlog, MAXLOG)
        res.log = [(CLASSES[x.cls], x.act, x.arg, x.res if -4096 < x.res else 0, x.path.decode(errors="replace"))
                   for x in (ctl.log[i] for i in range(n))]
        res.escapes = (ctl.escapes, ctl.escape.decode(errors="replace"))
        killed = ctl.fired[4] + ctl.fired[5]
        if os.WIFSIGNALED(st):
            s = os.WTERMSIG(st)
            if self.hung or ctl.capped or s == signal.SIGXCPU:
                res.end = "hang"
            elif s == signal.SIGKILL and killed:
                res.end = "killed"
            else:
                try:
                    res.end = "crash:" + signal.Signals(s).name
                except ValueError:
                    res.end = "crash:signal %d" % s
        else:
            c = os.WEXITSTATUS(st)
            res.end = "ok" if c == 0 else "exit:%d" % c
        return res


def session(root, fn, arg, wall=120, **kw):
    """Runs fn(env, arg) in a child; returns a Result."""
    life = Life(root, fn, arg, **kw)
    life.turn(time.monotonic() + wall)
    return life.result()


def together(root, fn, args, slices, event, seeds, cwds, wall=120, **kw):
    """Several processes at once.  `slices` is the schedule: [process, number of calls] after another, then every
    process runs to its end in turn.  event(k, message) is called in the one order in which things happened."""
    end = time.monotonic() + wall
    lives = []
    try:
        for k, a in enumerate(args):
            lives.append(Life(root, fn, a, k=k, gated=True, seed=seeds[k], cwd=cwds[k], others=lives, **kw))
        seen = [0] * len(lives)
        switches, prev = 0, None
        for k, n in list(slices) + [[k, 1 << 40] for k in range(len(lives))]:
            v = lives[k % len(lives)]
            k %= len(lives)
            if v.over:
                continue
            switches += prev is not None and prev != k
            prev = k
            v.turn(end, n)
            for m in v.msgs[seen[k]:]:
                event(k, m)
            seen[k] = len(v.msgs)
            if v.over:
                event(k, ("over",))
    except BaseException:
        for v in lives:
            if not v.over:
                v.kill()
            v.close()
            os.waitpid(v.pid, 0)
        raise
    return [v.result() for v in lives], switches


def _child(root, fn, arg, ctl, addr, w, seed, cwd, as_limit):
    import gc
    import random
    import tempfile
    import warnings
    gc.freeze()         # what the parent had is not looked at again by every collection
    warnings.simplefilter("ignore")
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_CPU, (40, 41))
    if as_limit:
        resource.setrlimit(resource.RLIMIT_AS, (as_limit, as_limit))
    null = os.open(os.devnull, os.O_RDWR)
    for fd in (0, 1, 2):
        os.dup2(null, fd)
    os.close(null)
    for s in (signal.SIGINT, signal.SIGTERM):
        signal.signal(s, signal.SIG_DFL)
    tmp = os.path.join(root, "tmp")
    os.environ["TMPDIR"] = tmp
    tempfile.tempdir = tmp
    rng = random.Random(seed)

    class Names:
        def __iter__(self):
            return self

        def __next__(self):
            return "t%08x" % rng.getrandbits(32)
    tempfile._name_sequence = Names()
    random.seed(seed)
    try:
        import numpy
        numpy.random.seed(seed & 0xffffffff)
    except ImportError:
        pass
    os.chdir(os.path.join(root, cwd))
    rc = lib().simio_install(addr)
    if rc:
        raise RuntimeError("simio_install: %d" % rc)
    env = Env(root, ctl, w)
    fn(env, arg)
    ctl.armed = 0


def fresh(scratch):
    """A new, empty world: root with tmp/ (temporary files) and w/ (the user's files)."""
    root = os.path.join(scratch, "r")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(os.path.join(root, "tmp"))
    os.makedirs(os.path.join(root, "w", "sub"))
    return root


def tree(top):
    """Relative path -> size and digest for everything below top."""
    out = {}
    for base, dirs, files in os.walk(top):
        dirs.sort()
        rel = os.path.relpath(base, top)
        for d in dirs:
            out[os.path.normpath(os.path.join(rel, d)) + "/"] = ""
        for f in sorted(files):
            p = os.path.join(base, f)
            if os.path.islink(p):
                out[os.path.normpath(os.path.join(rel, f))] = "link:" + os.readlink(p)
                continue
            with open(p, "rb") as fh:
                out[os.path.normpath(os.path.join(rel, f))] = hashlib.sha256(fh.read()).hexdigest()[:16]
    return out


def digest(parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(repr(p).encode())
    return h.hexdigest()

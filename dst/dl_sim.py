"""The dataset downloader inside a simulator.

Real: every line of tools/download_sumo_datasets.py, zipfile, glob, shutil, argparse,
logging, pickle; a real directory tree in memory.
Simulated: processes (the pool and its workers), signals, scheduling, clock, the HTTP
library and server, failures of the file system, free disk space.
"""
import copy
import gc
import io
import logging
import os
import pickle
import random
import sys
import types
import zipfile

from . import simos
from .sched import Chooser, Proc, Sim, SimKill

SCRIPT = "/repo/tools/download_sumo_datasets.py"
_state = {"world": None, "code": None}


# ------------------------------------------------------------------ fake requests
class _Headers(dict):
    def __init__(self, d):
        super().__init__({k.lower(): v for k, v in d.items()})

    def get(self, k, default=None):
        return super().get(k.lower(), default)

    def __getitem__(self, k):
        return super().__getitem__(k.lower())

    def __contains__(self, k):
        return super().__contains__(k.lower())


def _make_requests():
    m = types.ModuleType("requests")
    ex = types.ModuleType("requests.exceptions")

    class RequestException(IOError):
        def __init__(self, *a, **k):
            self.response = k.pop("response", None)
            self.request = k.pop("request", None)
            super().__init__(*a)
    names = {"RequestException": RequestException}

    def sub(n, *bases):
        names[n] = type(n, bases or (RequestException,), {"__module__": "requests.exceptions"})
    sub("ConnectionError")
    sub("HTTPError")
    sub("Timeout")
    sub("ConnectTimeout", names["ConnectionError"], names["Timeout"])
    sub("ReadTimeout", names["Timeout"])
    sub("ChunkedEncodingError")
    sub("ContentDecodingError")
    sub("TooManyRedirects")
    sub("SSLError", names["ConnectionError"])
    sub("ProxyError", names["ConnectionError"])
    sub("InvalidURL", RequestException, ValueError)
    sub("JSONDecodeError", RequestException, ValueError)
    for n, c in names.items():
        setattr(ex, n, c)
        setattr(m, n, c)
    m.exceptions = ex
    m.__version__ = "2.31.0"

    class Response:
        def __init__(self, world, url, status, headers, xfer, stream):
            self._w, self.url, self.status_code = world, url, status
            self.headers = _Headers(headers)
            self._x = xfer
            self.reason = "OK" if status < 400 else "Error"
            self.encoding = "utf-8"
            self._content = None
            self._consumed = False
            if not stream:
                self.content

        @property
        def ok(self):
            return self.status_code < 400

        def __bool__(self):
            return self.ok

        def raise_for_status(self):
            if not self.ok:
                raise ex.HTTPError("%d Error for url: %s" % (self.status_code, self.url), response=self)

        @property
        def content(self):
            if self._content is None:
                if self._consumed:
                    raise RuntimeError("The content for this response was already consumed")
                self._content = b"".join(self.iter_content(1024 * 1024 * 500))
            return self._content

        @property
        def text(self):
            return self.content.decode("utf-8", "replace")

        def json(self, **k):
            import json
            try:
                return json.loads(self.text)
            except ValueError as e:
                raise ex.JSONDecodeError(str(e))

        def iter_content(self, chunk_size=1, decode_unicode=False):
            if self._content is not None:
                data = self._content
                n = chunk_size or len(data) or 1
                for i in range(0, len(data), n):
                    yield data[i:i + n]
                return
            self._consumed = True
            n = self._w.scale_chunk(chunk_size)
            while True:
                b = self._x.recv(n)
                if not b:
                    break
                yield b
            self._x.finish()

        @property
        def raw(self):
            x = self._x
            self._consumed = True
            w = self._w

            class Raw:
                decode_content = False

                def read(self, amt=None, decode_content=None):
                    if amt is None:
                        out = []
                        while True:
                            b = x.recv(1 << 20)
                            if not b:
                                x.finish()
                                return b"".join(out)
                            out.append(b)
                    b = x.recv(w.scale_chunk(amt))
                    if not b:
                        x.finish()
                    return b
            return Raw()

        def close(self):
            self._x.finish()

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()

        def __del__(self):
            self._x.finish()

    def request(method, url, stream=False, timeout=None, headers=None, **k):
        w = _state["world"]
        status, hd, xfer = w.server.handle(url, timeout, headers or {})
        return Response(w, url, status, hd, xfer, stream)

    def get(url, params=None, **k):
        return request("GET", url, **k)

    class Session:
        def __init__(self):
            self.headers = {}
            self.trust_env = True

        def get(self, url, **k):
            return request("GET", url, **k)

        def request(self, method, url, **k):
            return request(method, url, **k)

        def mount(self, *a):
            pass

        def close(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass
    codes = types.SimpleNamespace(ok=200, OK=200, not_found=404)
    m.get, m.request, m.Session, m.session, m.Response, m.codes = get, request, Session, Session, Response, codes
    sys.modules["requests"] = m
    sys.modules["requests.exceptions"] = ex
    return m, ex


REQ, REQ_EX = _make_requests()


class Xfer:
    """One HTTP response body on its way to a client."""

    def __init__(self, world, name, body, beh, task):
        self.w, self.name, self.body, self.beh = world, name, body, beh
        self.pos = 0
        self.done = False
        self.task = task
        k = beh["k"]
        self.limit = len(body)
        if k in ("trunc", "reset", "stall"):
            self.limit = min(len(body) - 1, int(len(body) * beh["frac"])) if body else 0

    def recv(self, n):
        w = self.w
        if self.done and self.pos >= self.limit and self.beh["k"] != "stall":
            return b""
        w.event("net", self.name)
        d = self.beh.get("delay")
        if d:
            w.stat("fault.slow_transfer", 1 if self.pos == 0 else 0)
            w.sim.block(until=w.sim.now + d)
        if self.pos >= self.limit:
            k = self.beh["k"]
            if k == "reset":
                w.stat("fault.net_reset")
                raise REQ_EX.ChunkedEncodingError("Connection broken: IncompleteRead")
            if k == "trunc":
                w.stat("fault.net_truncated")
            if k == "stall":
                w.stat("fault.net_stall")
                w.sim.block(None)
            return b""
        b = self.body[self.pos:min(self.pos + max(1, n), self.limit)]
        self.pos += len(b)
        return b

    def finish(self):
        self.done = True


class Server:
    def __init__(self, world, plan_net, bodies, config):
        self.w = world
        self.net = plan_net
        self.bodies = bodies
        self.config = config
        self.gets = {}           # name -> number of GETs in this invocation
        self.get_log = []        # (seq, name, behaviour kind)
        self.active = []
        self.sent_full = {}      # name -> set of complete bodies sent

    def handle(self, url, timeout, headers):
        w = self.w
        t = w.sim.current()
        base = w.server_base
        if not url.startswith(base + "/"):
            w.event("get", url)
            raise REQ_EX.ConnectionError("no such host")
        path = url[len(base) + 1:]
        if path == "config/sumochallenge.json":
            w.event("config", "config")
            beh = self.net.get("", {"k": "ok"})
            if beh["k"] == "status":
                w.stat("fault.config_status")
                return beh["code"], {"content-length": "0"}, Xfer(w, "config", b"", {"k": "ok"}, t)
            if beh["k"] == "connerr":
                w.stat("fault.config_connerr")
                raise REQ_EX.ConnectionError("Failed to establish a new connection")
            import json
            body = json.dumps(self.config).encode()
            if beh["k"] == "badjson":
                w.stat("fault.config_badjson")
                body = b"<html>" + body[:40]
            return 200, {"content-length": str(len(body))}, Xfer(w, "config", body, {"k": "ok"}, t)
        name = path[len("training/"):] if path.startswith("training/") else None
        if name is None or name not in self.bodies:
            w.event("get", path)
            return 404, {"content-length": "0"}, Xfer(w, path, b"", {"k": "ok"}, t)
        i = self.gets.get(name, 0)
        self.gets[name] = i + 1
        behs = self.net.get(name, [])
        beh = behs[min(i, len(behs) - 1)] if behs and behs[-1].get("forever") else (
            behs[i] if i < len(behs) else {"k": "ok"})
        w.on_get(name, beh, t)
        w.event("get", name)
        body = self.bodies[name]
        k = beh["k"]
        hd = {"Content-Length": str(len(body)), "Content-Type": "application/zip"}
        if k == "status":
            w.stat("fault.http_status")
            err = b"<html>error</html>"
            return beh["code"], {"Content-Length": str(len(err))}, Xfer(w, name, err, {"k": "ok"}, t)
        if k == "connerr":
            w.stat("fault.net_connect")
            raise REQ_EX.ConnectionError("connection refused")
        if k == "corrupt":
            w.stat("fault.net_corrupt")
            b = bytearray(body)
            for p in corrupt_at(body, beh["frac"]):
                b[p] ^= 0x5A
            body = bytes(b)
        if k == "html":
            w.stat("fault.net_wrong_body")
            body = b"<html><body>please log in</body></html>"
            hd["Content-Length"] = str(len(body))
        if k == "nolen":
            w.stat("fault.net_no_length")
            del hd["Content-Length"]
            hd["Transfer-Encoding"] = "chunked"
        if k == "encoded":
            w.stat("fault.net_content_encoding")
            hd["Content-Encoding"] = "gzip"
            hd["Content-Length"] = str(max(1, len(body) - 7))
        x = Xfer(w, name, body, beh, t)
        if x.limit == len(body):
            self.sent_full.setdefault(name, set()).add(body)
        self.active = [a for a in self.active if not (a.done or a.task is t or a.task.proc.killed or a.task.done)]
        self.active.append(x)
        w.on_active(self.active)
        return 200, hd, x


# ------------------------------------------------------------------ simulated pool
class _Unpickler(pickle.Unpickler):
    def __init__(self, f, ns):
        super().__init__(f)
        self.ns = ns

    def find_class(self, module, name):
        if module == "__main__" and self.ns is not None:
            o = self.ns
            parts = name.split(".")
            v = o[parts[0]]
            for p in parts[1:]:
                v = getattr(v, p)
            return v
        return super().find_class(module, name)


def _loads(data, ns):
    return _Unpickler(io.BytesIO(data), ns).load()


def _fork_ns(ns):
    """Copy-on-fork of a module namespace."""
    out = {}
    fns = {}
    for k, v in list(ns.items()):
        if isinstance(v, types.FunctionType) and v.__globals__ is ns:
            f = types.FunctionType(v.__code__, out, v.__name__, v.__defaults__, v.__closure__)
            f.__kwdefaults__ = v.__kwdefaults__
            f.__dict__.update(v.__dict__)
            f.__module__, f.__qualname__ = v.__module__, v.__qualname__
            fns[id(v)] = f
            out[k] = f
        elif isinstance(v, (list, dict, set, bytearray)) and not k.startswith("__"):
            try:
                out[k] = copy.deepcopy(v)
            except Exception:
                out[k] = v
        else:
            out[k] = v
    return out


class _Job:
    def __init__(self, n, callback=None, error_callback=None, single=False):
        self.n = n
        self.single = single
        self.parts = {}
        self.order = []
        self.error = None
        self.left = n
        self.cb, self.ecb = callback, error_callback

    def done(self):
        return self.left <= 0


class _Result:
    def __init__(self, pool, job):
        self._p, self._j = pool, job

    def ready(self):
        return self._j.done()

    def wait(self, timeout=None):
        sim = self._p.sim
        sim.block(self._j.done, None if timeout is None else sim.now + timeout)

    def get(self, timeout=None):
        self.wait(timeout)
        if not self._j.done():
            import multiprocessing
            raise multiprocessing.TimeoutError
        if self._j.error is not None:
            raise self._j.error
        if self._j.single:
            return self._j.parts[0][0]
        return [x for i in sorted(self._j.parts) for x in self._j.parts[i]]

    def successful(self):
        if not self.ready():
            raise ValueError("{0!r} not ready".format(self))
        return self._j.error is None


class SimPool:
    """multiprocessing.Pool over simulated processes (or threads)."""
    threads = False

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None,
                 context=None):
        w = _state["world"]
        self.w, self.sim = w, w.sim
        self.parent = self.sim.current().proc
        if processes is None:
            processes = 8
        if processes < 1:
            raise ValueError("Number of processes must be at least 1")
        self.nproc = processes
        self.init = (initializer, initargs)
        self.maxtasks = maxtasksperchild
        self.state = "RUN"
        self.queue = []
        self.jobs = []
        self.workers = []
        w.pools.append(self)
        if self.parent.int_delivered:
            w.late_pools += 1
        for _ in range(processes):
            self._new_worker()
        self.manager = self.sim.spawn(self.parent, self._manage, "mgr%d" % len(w.pools))
        self.manager.interruptible = False
        self.sim.step("pool")

    # -- internals
    def _new_worker(self):
        w = self.w
        w.npid += 1
        name = "w%d" % w.npid
        proc = self.parent if self.threads else Proc(w.npid, name)
        if not self.threads:
            w.procs.append(proc)
        ns = w.main_ns if self.threads else _fork_ns(w.main_ns)
        t = self.sim.spawn(proc, lambda: self._worker(ns), name)
        t.ns = ns
        if self.threads:
            t.interruptible = False
        self.workers.append(t)
        self.w.stat("workers")

    def _alive(self, t):
        return not t.done and not t.proc.killed

    def _pending(self):
        return any(not j.done() for j in self.jobs)

    def _manage(self):
        try:
            while True:
                self.sim.block(lambda: self.state == "TERMINATE" or self.parent.exited or
                               (self.state == "CLOSE" and not self._pending()) or
                               any(not self._alive(t) for t in self.workers))
                if self.state == "TERMINATE" or self.parent.exited:
                    break
                if self.state == "CLOSE" and not self._pending():
                    break
                dead = [t for t in self.workers if not self._alive(t)]
                for t in dead:
                    self.workers.remove(t)
                    self._new_worker()
        finally:
            self.closed_down = True
            if self.state == "TERMINATE" or self.parent.exited or self.parent.killed:
                for t in self.workers:
                    if not self.threads:
                        t.proc.killed = True

    closed_down = False
    joining = False

    def _worker(self, ns):
        n = 0
        if self.init[0] is not None:
            self.init[0](*self.init[1])
        while self.maxtasks is None or n < self.maxtasks:
            self.sim.block(lambda: self.queue or self.closed_down)
            if not self.queue:
                return
            job, i, data, star = self.queue.pop(0)
            n += 1
            if self.joining and self.parent.int_delivered and self.state != "TERMINATE":
                self.w.late_tasks += 1      # the program waits for work that starts after its interruption
            try:
                func, args = _loads(data, ns) if not self.threads else data
                if star == "map":
                    res = [func(x) for x in args]
                elif star == "starmap":
                    res = [func(*x) for x in args]
                else:
                    res = [func(*args[0], **args[1])]
                err = None
            except Exception as e:
                res, err = None, e
            self.sim.step("result")
            if err is None and not self.threads:
                try:
                    res = pickle.loads(pickle.dumps(res))
                except Exception as e:
                    res, err = None, e
            if job.done():
                continue
            if err is not None:
                job.left -= 1
                if job.error is None:
                    job.error = err
                if job.ecb and job.done():
                    job.ecb(job.error)
            else:
                job.parts[i] = res
                job.order.append(i)
                job.left -= 1
                if job.cb and job.done() and job.error is None:
                    job.cb(res[0] if job.single else
                           [x for q in sorted(job.parts) for x in job.parts[q]])

    def _check(self):
        if self.state != "RUN":
            raise ValueError("Pool not running")

    def _submit(self, job, i, func, args, star):
        if self.threads:
            data = (func, args)
        else:
            try:
                data = pickle.dumps((func, args))
            except Exception as e:
                job.left -= 1
                job.error = e
                return
        self.queue.append((job, i, data, star))

    def _map(self, func, it, star, chunksize, cb, ecb):
        self._check()
        items = list(it)
        if chunksize is None:
            chunksize, extra = divmod(len(items), len(self.workers) * 4)
            if extra:
                chunksize += 1
        if not items:
            chunksize = 1
        chunks = [items[i:i + chunksize] for i in range(0, len(items), max(1, chunksize))]
        job = _Job(len(chunks), cb, ecb)
        self.jobs.append(job)
        for i, c in enumerate(chunks):
            self._submit(job, i, func, c, star)
        self.sim.step("submit")
        return _Result(self, job)

    # -- API
    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map(func, iterable, "map", chunksize, callback, error_callback)

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable, chunksize).get()

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map(func, iterable, "starmap", chunksize, callback, error_callback)

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable, chunksize).get()

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        self._check()
        job = _Job(1, callback, error_callback, single=True)
        self.jobs.append(job)
        self._submit(job, 0, func, (tuple(args), dict(kwds)), "apply")
        self.sim.step("submit")
        return _Result(self, job)

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def imap(self, func, iterable, chunksize=1, _unordered=False):
        self._check()
        items = list(iterable)
        chunks = [items[i:i + chunksize] for i in range(0, len(items), chunksize)]
        jobs = []
        order = []
        for c in chunks:
            job = _Job(1)
            job.cb = job.ecb = lambda *_a, j=job: order.append(j)
            jobs.append(job)
            self.jobs.append(job)
            self._submit(job, 0, func, c, "map")

        def gen():
            for k in range(len(jobs)):
                if _unordered:
                    self.sim.block(lambda: len(order) > k)
                    j = order[k]
                else:
                    j = jobs[k]
                    self.sim.block(j.done)
                if j.error is not None:
                    raise j.error
                yield from j.parts[0]
        return gen()

    def imap_unordered(self, func, iterable, chunksize=1):
        return self.imap(func, iterable, chunksize, True)

    def close(self):
        self.sim.step("close_pool")
        if self.state == "RUN":
            self.state = "CLOSE"

    def terminate(self):
        self.sim.step("terminate")
        self.state = "TERMINATE"
        for t in self.workers:
            if not self.threads:
                t.proc.killed = True
        self.queue.clear()
        self.w.on_terminate()
        self.sim.step("terminated")

    def join(self):
        if self.state == "RUN":
            raise ValueError("Pool is still running")
        self.joining = True
        try:
            self.sim.block(lambda: self.closed_down and all(t.done or t.proc.killed for t in self.workers))
        finally:
            self.joining = False

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *a):
        self.terminate()

    def __reduce__(self):
        raise NotImplementedError("pool objects cannot be passed between processes or pickled")


class SimThreadPool(SimPool):
    threads = True

    def __init__(self, processes=None, initializer=None, initargs=()):
        super().__init__(processes, initializer, initargs)


def _unsupported(*a, **k):
    raise RuntimeError("the simulator does not model this way of starting processes or threads")


def install():
    import multiprocessing
    import multiprocessing.pool
    import multiprocessing.context
    import zipfile, glob, shutil, argparse, tempfile, pathlib, json, functools  # noqa: load first
    simos.install()
    multiprocessing.Pool = SimPool
    multiprocessing.pool.Pool = SimPool
    multiprocessing.pool.ThreadPool = SimThreadPool
    multiprocessing.context.BaseContext.Pool = lambda self, *a, **k: SimPool(*a, **k)
    multiprocessing.cpu_count = lambda: 8
    real_cpu = os.cpu_count
    os.cpu_count = lambda: 8 if simos.current() is not None else real_cpu()
    real_kill, real_sv = os.kill, os.statvfs
    for n in ("kill", "fork", "_exit", "system"):
        real = getattr(os, n)
        setattr(os, n, lambda *a, _r=real, **k: _unsupported() if simos.current() is not None else _r(*a, **k))
    sv = real_sv

    def statvfs(path):
        t = simos.current()
        if t is None:
            return sv(path)
        sv(path)          # raises for what does not exist
        w = _state["world"]
        free = w.free_bytes
        total = 1 << 43
        return os.statvfs_result((1, 1, total, min(total, free + (37 << 30)), free, 1000, 1000, 1000, 0, 255))
    os.statvfs = statvfs
    import signal
    real_signal = signal.signal

    def sim_signal(sig, handler):
        t = simos.current()
        if t is None:
            return real_signal(sig, handler)
        if sig == signal.SIGINT:
            t.proc.ignore_sigint = handler == signal.SIG_IGN
        return signal.default_int_handler if sig == signal.SIGINT else signal.SIG_DFL
    signal.signal = sim_signal
    logging.getLogger().addHandler(logging.NullHandler())
    logging.getLogger().setLevel(logging.CRITICAL + 1)
    gc.collect()
    gc.freeze()
    logging.basicConfig = lambda **k: None
    logging.raiseExceptions = False


def load_code():
    with simos._real.get("iopen", open)(SCRIPT, "rb") as f:
        src = f.read()
    _state["code"] = compile(src, SCRIPT, "exec")


class Violation(Exception):
    pass


class World:
    """One invocation of the downloader: faults, trace, monitors."""

    def __init__(self, root, inv, bodies, config, chooser, monitor, stats, server_base, chunk, serverarg=None):
        self.root = root
        self.inv = inv
        self.sim = Sim(chooser, max_steps=inv.get("max_steps", 12000))
        self.sim.deadlock_hook = self._deadlock
        self.server_base = server_base
        self.server = Server(self, inv.get("net", {}), bodies, config)
        self.free_bytes = inv.get("free", 1 << 42)
        self.chunk = chunk
        self.monitor = monitor
        self.pre_monitor = None
        self.stats = stats
        self.trace = []
        self.violations = []
        self.npid = 0
        self.procs = []
        self.pools = []
        self.counts = {}
        self.nops = 0
        self.trig = [dict(t) for t in inv.get("faults", [])]
        self.fired = []
        self.interrupted_at = None
        self.gets_after_int = 0
        self.hung = False
        self.late_pools = 0
        self.late_tasks = 0
        self.stuck_after_int = False
        self.giveups = 0
        self.max_active = 0
        self.quota = inv.get("quota")
        self.terminated = False
        self.group_killed = False

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def violation(self, sig, msg):
        self.violations.append((sig, msg))

    def scale_chunk(self, n):
        return self.chunk if n is None or n > 4096 else max(n, 16)

    def rel(self, p):
        return p[len(self.root) + 1:] if p and p.startswith(self.root + "/") else p

    @property
    def main_steps_after_int(self):
        return self.main_proc.steps_after_int

    # -- called at every simulated operation
    def event(self, cls, name):
        """Network events."""
        t = self.sim.current()
        self.sim.step(cls)
        self._triggers(t, cls, name, "before")
        self.trace.append((t.name, cls, name))

    def _count(self, *keys):
        for k in keys:
            self.counts[k] = self.counts.get(k, 0) + 1

    def before(self, t, cls, path, extra):
        self.sim.step(cls)
        inside = path.startswith(self.root + "/") or path == self.root
        if not inside:
            if (cls in simos.MUT or simos.CLASS.get(cls, cls) in ("write", "unlink", "rename") or
                    (cls == "open" and extra[0] == "w")) and path != "/dev/null" and cls != "close":
                self.violation("escape", "%s of %s, outside the destination" % (cls, path))
                return {"errno": simos.ERRNO["EROFS"]}
            return None
        act = self._triggers(t, cls if cls != "open" else "open" + extra[0], path, "before")
        if self.pre_monitor:
            self.pre_monitor(self, t, cls, path, extra)
        return act

    def _triggers(self, t, cls, path, when):
        self._count(cls, "any")
        act = None
        for tr in self.trig:
            if tr.get("spent"):
                continue
            if tr["on"] not in (cls, "any"):
                continue
            n = self.counts[tr["on"]]
            ln = tr.get("len", 1)
            if not (tr["nth"] <= n < tr["nth"] + ln):
                continue
            do = tr["do"]
            if n == tr["nth"]:
                self.fired.append(tr)
                self.stat("fault." + do + ("." + tr["errno"] if do == "err" else ""))
            if do == "err" and cls in ("openw", "openr", "read", "write", "mkdir", "unlink", "rename",
                                       "rmdir", "close", "fsync", "listdir", "truncate"):
                act = {"errno": simos.ERRNO[tr["errno"]]}
                if cls == "write" and tr.get("torn") is not None:
                    act["torn"] = tr["torn"]
                if tr.get("short"):
                    act["short"] = True
            elif do == "kill_group":
                tr["spent"] = True
                if cls == "write" and tr.get("torn") is not None:
                    self._pending_kill = True
                    act = {"torn": tr["torn"], "kill": True}
                self.kill_group()
                if act is None:
                    raise SimKill()
            elif do == "kill_worker":
                tr["spent"] = True
                p = t.proc
                if p is self.main_proc:
                    live = [q for q in self.procs if not q.killed and not q.exited and q is not self.main_proc]
                    if not live:
                        continue
                    p = live[tr.get("which", 0) % len(live)]
                p.killed = True
                if p is t.proc:
                    raise SimKill()
            elif do in ("sigint_group", "sigint_main"):
                tr["spent"] = True
                self.sigint(do == "sigint_group")
                self.sim._check(t, True)
        return act

    def after(self, t, cls, path, extra, err):
        self.trace.append((t.name, cls, self.rel(path), extra if not extra or "/" not in extra
                           else self.rel(extra), err.errno if err else 0))
        self.nops += 1
        if self.monitor:
            self.monitor(self, t, cls, path, extra, err)

    # -- what the outside world does
    def kill_group(self):
        self.group_killed = True
        self.main_proc.killed = True
        for p in self.procs:
            p.killed = True

    def sigint(self, group):
        if self.interrupted_at is None:
            self.interrupted_at = self.sim.steps
        self.main_proc.sigint += 1
        if group:
            for p in self.procs:
                if p is not self.main_proc and not p.killed:
                    p.sigint += 1

    def _deadlock(self):
        """Nothing can run and no timer is pending: the user presses Ctrl-C."""
        self.giveups += 1
        self.stat("hang_then_ctrl_c")
        if self.main_proc.int_delivered:
            self.stuck_after_int = True
        if self.giveups > 2:
            self.hung = True
            return False
        self.sigint(True)
        return True

    def on_terminate(self):
        self.terminated = True

    def on_get(self, name, beh, t):
        if self.interrupted_at is not None:
            self.gets_after_int += 1
        self.monitor and self.monitor(self, t, "GET", name, None, None)

    def on_active(self, active):
        names = [a.name for a in active]
        self.max_active = max(self.max_active, len(names))
        if len(names) > 3:
            self.violation("concurrency", "%d transfers at once: %s" % (len(names), names))
        if len(set(names)) != len(names):
            self.violation("duplicate-transfer", "the same archive is transferred twice at once: %s" % names)

    # -- run
    def run(self, argv):
        mod = types.ModuleType("__main__")
        mod.__file__ = SCRIPT
        mod.__builtins__ = __builtins__
        self.main_ns = mod.__dict__
        self.main_proc = Proc(1, "main")
        self.procs.append(self.main_proc)
        self.main_exc = None
        self.exit_step = None

        def main():
            try:
                exec(_state["code"], mod.__dict__)
            except SystemExit:
                pass
            except Exception as e:
                self.main_exc = e
            except KeyboardInterrupt as e:
                self.main_exc = e
            finally:
                self.exit_step = self.sim.steps
                self.main_proc.exited = True
                for p in self.procs:
                    if p is not self.main_proc:
                        p.killed = True

        old_main, old_argv, old_err = sys.modules.get("__main__"), sys.argv, sys.stderr
        old_out = sys.stdout
        sys.modules["__main__"] = mod
        sys.argv = ["download_sumo_datasets.py"] + argv
        sys.stderr = sys.stdout = io.StringIO()
        _state["world"] = self
        simos.activate(self.sim, self)
        gc.disable()
        try:
            self.sim.spawn(self.main_proc, main, "main")
            self.sim.run()
            for t in self.sim.tasks:
                t.thread.join(10)
        finally:
            simos.activate(None, None)
            _state["n"] = _state.get("n", 0) + 1
            if _state["n"] % 40 == 0:
                gc.collect()
            sys.modules["__main__"] = old_main
            sys.argv, sys.stderr, sys.stdout = old_argv, old_err, old_out
        for t in self.sim.tasks:
            t.sim_done = True
        self.stat("steps", self.sim.steps)
        self.stat("switches", self.sim.switches)
        self.stat("sim_ms", int((self.sim.now - self.sim.t0) * 1000))
        if self.sim.overrun:
            self.violation("livelock", "no end after %d steps" % self.sim.max_steps)


def build_zip(members, stored):
    """members: list of (name, data); a name ending in '/' is a directory entry."""
    bio = io.BytesIO()
    with zipfile.ZipFile(bio, "w", zipfile.ZIP_STORED if stored else zipfile.ZIP_DEFLATED) as z:
        for name, data in members:
            zi = zipfile.ZipInfo(name, (2019, 1, 1, 0, 0, 0))
            zi.compress_type = zipfile.ZIP_STORED if stored else zipfile.ZIP_DEFLATED
            zi.external_attr = (0o40755 << 16 | 0x10) if name.endswith("/") else 0o100644 << 16
            z.writestr(zi, data)
    return bio.getvalue()


def corrupt_at(body, frac):
    """Offsets of a damage the zip format can detect: inside the data of a member (protected by a
    CRC), in a local header's signature, or in the end-of-directory signature."""
    with zipfile.ZipFile(io.BytesIO(body)) as z:
        infos = z.infolist()
    spots = [[body.rindex(b"PK\x05\x06") + 1]] + [[i.header_offset] for i in infos if not i.is_dir()]
    for i in infos:
        if i.compress_size:
            off = i.header_offset + 26
            n = int.from_bytes(body[off:off + 2], "little") + int.from_bytes(body[off + 2:off + 4], "little")
            a = i.header_offset + 30 + n
            p = a + int(frac * (i.compress_size - 1))
            spots += [[p], list(range(p, min(a + i.compress_size, p + 3)))]
    return spots[int(frac * 1e6) % len(spots)]


def member_data(seed, size):
    r = random.Random(seed)
    if size > 200 and seed % 3 == 0:
        return (b"SUMO%d" % seed) * (size // 8)
    return r.randbytes(size)


def expected_path(name):
    parts = [p for p in name.split("/") if p not in ("", ".", "..")]
    return "/".join(parts)

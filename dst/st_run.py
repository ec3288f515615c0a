"""Runs an operation of a simulated process life under the system-call seam and reports on it."""
import gc
import os
import re

from . import st_sim


def plain(msg):
    """Without what differs from one execution to the next."""
    return re.sub(r"0x[0-9a-f]+", "0x", re.sub(r"time = [A-Z][a-z]{2} .{15,20}\n", "", msg))


class Proc:
    """One simulated process life: named slots in memory, operations one after another."""

    def __init__(self, env, observe):
        self.env = env
        self.slots = {}
        self.observe = observe        # slot object -> canonical form
        self.big = {}

    def path(self, p):
        return p.replace("$W", self.env.work)

    def fds(self):
        out = []
        for f in os.listdir("/proc/self/fd"):
            try:
                t = os.readlink("/proc/self/fd/" + f)
            except OSError:
                continue
            if t.startswith(self.env.root):
                out.append(t[len(self.env.root):])
        return sorted(out)

    def cwd(self):
        try:
            return os.getcwd()[len(self.env.root):]
        except OSError:
            return "(deleted)"

    def tmp(self):
        return sorted(os.listdir(os.path.join(self.env.root, "tmp")))

    def install(self, op):
        ctl = self.env.ctl
        for i in range(len(st_sim.CLASSES)):
            ctl.count[i] = 0
        fs = op.get("faults") or []
        ctl.nplans = 0
        for i, f in enumerate(fs[:16]):
            p = ctl.plans[i]
            p.cls = st_sim.CIDX[f["on"]]
            p.action = st_sim.ACTIONS[f["do"]]
            p.err = f.get("err", 5)
            p.frac = f.get("frac", 128)
            p.nth = f.get("nth", 1)
            p.len = f.get("len", 1)
            p.fired = 0
        ctl.nplans = min(16, len(fs))
        ctl.quota = op.get("quota", -1)

    def run(self, i, op, fn, info):
        """Calls fn() with the seam armed; sends a report."""
        env, ctl = self.env, self.env.ctl
        cwd, fds, tmp = self.cwd(), self.fds(), self.tmp()
        env.send(("start", i, info))
        hits0, esc0 = ctl.quota_hits, ctl.escapes
        self.install(op)
        mark = ctl.nlog
        val = None
        env.arm()
        try:
            val = fn()
            env.disarm()
            out = ("ok",)
        except BaseException as e:
            env.disarm()
            if isinstance(e, KeyboardInterrupt):
                raise
            out = ("exc", [k.__name__ for k in type(e).__mro__], plain(str(e)).replace(env.root, "$")[:240])
            del e
        nplans = ctl.nplans
        ctl.nplans, ctl.quota = 0, -1
        acted = []
        for k in range(mark, min(ctl.nlog, st_sim.MAXLOG)):
            x = ctl.log[k]
            if x.act:
                acted.append((st_sim.CLASSES[x.cls], x.act, x.path.decode("utf-8", "replace")))
        after = self.fds()
        if after != fds:
            gc.collect()
            after = self.fds()
        rep = {"i": i, "out": out, "info": info, "fired": [ctl.plans[k].fired for k in range(nplans)],
               "nospace": ctl.quota_hits - hits0, "acted": acted, "logfull": ctl.nlog > st_sim.MAXLOG,
               "escaped": ctl.escapes - esc0, "nops": {c: ctl.count[k] for c, k in st_sim.CIDX.items() if ctl.count[k]},
               "cwd": (cwd, self.cwd()),
               "fds": [f for f in after if f not in fds], "tmp": [t for t in self.tmp() if t not in tmp]}
        return val, rep

    def report(self, rep, touched=(), last=True):
        """Sends the report with the canonical form of every slot (of a large one only when it matters)."""
        from . import world
        rep["slots"] = {}
        for k, v in self.slots.items():
            if k in touched or last or id(v) not in self.big:
                c = rep["slots"][k] = world.observed(self.observe, v)
                if any(int(n) > 5000 for n in re.findall(r"[\[ ](\d+)\]:", repr(c))):
                    self.big[id(v)] = v
        self.env.send(("op", rep))


def is_a(out, names):
    return out[0] == "exc" and any(n in out[1] for n in names)

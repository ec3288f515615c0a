"""Scenarios and oracles for the dataset downloader (C01..C07)."""
import hashlib
import os
import random
import shutil

from . import dl_sim, simos
from .sched import Chooser

R = simos._real
GB = 1 << 30
PROPS = ("C01", "C02", "C03", "C04", "C05", "C06", "C07")

TITLES = {}


# ------------------------------------------------------------------ scenario generator
def gen_archives(r, n, tag=""):
    out = []
    shared = ["SUMO", "SUMO/shared"] if r.random() < .4 else []
    for i in range(n):
        kind = "ground_truth" if i % 2 else "input"
        stem = r.choice(["training_%s_%03d" % (kind, i), "%s%d" % (kind, i), "a b %d" % i,
                         "set.v%d" % i, "id_[%d]" % i if r.random() < .3 else "id-%d" % i])
        base = "%s_%d" % (r.choice(["scene", "SUMO/id"]), i)
        mem = []
        if r.random() < .3:
            mem.append([base + "/", 0, 0])
        nm = r.choice([1, 1, 2, 3, 5])
        for j in range(nm):
            d = r.choice([base, base, base + "/sub", (shared[-1] if shared else base)])
            mem.append(["%s/%d_%d.%s" % (d, i, j, r.choice(["png", "xml", "glb", "zip", "cache"])
                                         if j else "f"),
                        r.choice([0, 1, 17, 300, 1500, 9000]), r.randrange(1 << 30)])
        out.append({"name": stem + ".zip", "gt": bool(i % 2), "stored": r.random() < .5, "members": mem})
    names = set()
    res = []
    for a in out:
        if a["name"] not in names:
            names.add(a["name"])
            res.append(a)
    return res


def gen_net(r, archives, heavy, kinds=None):
    net = {}
    for a in archives:
        if r.random() >= heavy:
            if r.random() < .15:
                net[a["name"]] = [{"k": "ok", "delay": r.choice([.5, 30, 900])}]
            continue
        seq = []
        for _ in range(r.choice([1, 1, 2, 3, 4])):
            k = r.choice(kinds or ["status", "connerr", "trunc", "trunc", "reset", "reset", "corrupt",
                                   "html", "nolen", "encoded"])
            b = {"k": k}
            if k == "status":
                b["code"] = r.choice([404, 403, 500, 503, 416])
            if k in ("trunc", "reset", "corrupt", "stall"):
                b["frac"] = r.choice([0.0, .1, .5, .9, .999, r.random()])
            if r.random() < .15:
                b["delay"] = r.choice([.5, 60])
            seq.append(b)
        if r.random() < .15:
            seq[-1]["forever"] = 1
        net[a["name"]] = seq
    return net


def est(on, plan):
    n = len(plan["archives"])
    mem = sum(len(a["members"]) for a in plan["archives"])
    size = sum(m[1] for a in plan["archives"] for m in a["members"]) + 200 * mem
    ch = max(1, size // max(16, plan["chunk"])) + 2 * n
    return {"get": n, "net": ch, "openw": 2 * n + mem, "openr": n, "write": 2 * mem + 3 * n,
            "close": 3 * n + mem, "mkdir": n + 3, "unlink": n, "rename": n, "read": 6 * n + 2 * mem,
            "stat": 6 * mem + 4 * n, "listdir": 8, "any": 14 * n + 16 * mem + 2 * ch,
            "truncate": 1, "fsync": 1, "rmdir": 1}[on]


def gen_trigger(r, plan, do=None, ons=None):
    do = do or r.choice(["err"] * 4 + ["kill_group"] * 3 + ["kill_worker"] * 2 +
                        ["sigint_group", "sigint_main"])
    if do == "err":
        on = r.choice(ons or ["openw", "openr", "write", "write", "write", "close", "mkdir", "unlink",
                              "read", "rename"])
        t = {"do": do, "on": on, "nth": r.randint(1, max(1, est(on, plan)))}
        t["errno"] = {"openw": r.choice(["EMFILE", "EACCES", "ENOSPC", "EIO"]),
                      "openr": r.choice(["EMFILE", "EIO"]), "read": "EIO",
                      "write": r.choice(["ENOSPC", "ENOSPC", "EIO", "EDQUOT"]),
                      "close": r.choice(["EIO", "ENOSPC"]),
                      "mkdir": r.choice(["ENOSPC", "EACCES"])}.get(on, "EIO")
        t["len"] = r.choice([1, 1, 1, 2, 5, 40, 100000])
        if on == "write" and r.random() < .6:
            t["torn"] = r.choice([0, .3, .9])
        elif on == "write" and r.random() < .2:
            t["short"] = 1
            t["len"] = 1
    else:
        on = r.choice(ons or ["any", "any", "any", "write", "net", "unlink", "openw", "close", "rename",
                              "mkdir", "get", "stat"])
        t = {"do": do, "on": on, "nth": r.randint(1, max(1, est(on, plan)))}
        if do == "kill_group" and on == "write" and r.random() < .6:
            t["torn"] = r.choice([.2, .7])
        if do == "kill_worker":
            t["which"] = r.randrange(3)
    return t


def gen(prop, seed):
    r = random.Random(seed)
    n = r.choice([1, 2, 3, 4, 5, 6])
    if prop in ("C03", "C04", "C05") and r.random() < .2:
        n = r.choice([9, 14, 27])
    plan = {"prop": prop, "seed": seed, "archives": gen_archives(r, n),
            "chunk": r.choice([64, 300, 1000, 5000]),
            "server": r.choice(["https://example.com/", "http://h:8080/base", "https://example.com//"]),
            "dest": r.choice(["out", "data/sumo", "new/dir/x", "a b/ü", "out/", "./rel/../out",
                              "d[1]", "x.zip.d", "c.cache", "q*s?"]),
            "absdest": r.random() < .6, "user": [], "pre": []}
    if n > 8:
        for a in plan["archives"]:
            a["members"] = a["members"][:1]
    # files of the user that are already there
    if r.random() < (.8 if prop == "C05" else .25):
        for f in r.sample(["notes.txt", "holiday.zip", "broken.zip", "old.zip.part", "SUMO_backup/x.bin",
                           "backup.cache", ".cache2/k", "TRAINING.ZIP", "empty.zip"], r.choice([1, 2, 4])):
            plan["user"].append(f)
    # what an earlier, successful use left behind
    for a in plan["archives"]:
        if r.random() < (.35 if prop in ("C04", "C07") else .1):
            plan["pre"].append([a["name"], r.choice(["zip", "done", "done"])])
    if prop == "C05" and r.random() < .35:
        a = r.choice(plan["archives"])
        a["members"].append([r.choice(["../evil_%d.txt", "../../evil_%d", "x/../../../evil_%d", "@ROOT@/evil_%d"])
                             % r.randrange(100), 50, r.randrange(1 << 30)])
    invs = []

    def inv(**k):
        d = {"stick": r.choice([0, .5, .9, .99]), "net": {}, "faults": []}
        d.update(k)
        invs.append(d)
        return d
    nf = r.choice([1, 1, 2, 3])
    if prop == "C01":
        for _ in range(nf):
            d = inv(net=gen_net(r, plan["archives"], r.choice([0, 0, .3])))
            for _ in range(r.choice([1, 1, 2])):
                d["faults"].append(gen_trigger(r, plan, ons=r.choice(
                    [None, None, ["write", "openw", "unlink", "mkdir", "close"]])
                    if r.random() < .5 else None))
    elif prop == "C02":
        for _ in range(nf):
            d = inv(net=gen_net(r, plan["archives"], r.choice([.2, .6]),
                                r.choice([None, ["trunc", "reset", "stall", "connerr"]])))
            for _ in range(r.choice([0, 1, 1, 2])):
                d["faults"].append(gen_trigger(r, plan, ons=["net", "write", "close", "openw", "get", "unlink",
                                                             "rename"] if r.random() < .5 else None)
                                   if r.random() < .6 else
                                   gen_trigger(r, plan, r.choice(["kill_group", "kill_worker", "sigint_main",
                                                                  "sigint_group"]), ["net", "write", "any"]))
    elif prop == "C03":
        for _ in range(r.choice([1, 1, 2, 3])):
            pure = r.random() < .5
            d = inv(net=gen_net(r, plan["archives"], r.choice([.3, .6, 1])))
            if not pure:
                for _ in range(r.choice([1, 2, 3])):
                    d["faults"].append(gen_trigger(r, plan))
    elif prop == "C04":
        if r.random() < .6:
            d = inv(net=gen_net(r, plan["archives"], r.choice([.3, .7]),
                                ["status", "connerr", "trunc", "reset", "corrupt"]))
            if r.random() < .4:
                d["faults"].append(gen_trigger(r, plan))
    elif prop == "C05":
        for _ in range(r.choice([0, 1, 1, 2])):
            d = inv(net=gen_net(r, plan["archives"], r.choice([0, .3])))
            for _ in range(r.choice([0, 1, 1])):
                d["faults"].append(gen_trigger(r, plan))
    elif prop == "C06":
        for _ in range(r.choice([1, 1, 2])):
            d = inv(net=gen_net(r, plan["archives"], r.choice([0, .4]),
                                r.choice([["stall", "reset"], ["stall"], ["connerr", "status", "trunc"]])))
            d["faults"].append(gen_trigger(r, plan, r.choice(["sigint_group", "sigint_group", "sigint_main"])))
            if r.random() < .15:
                d["faults"].append(gen_trigger(r, plan, "kill_worker"))
    elif prop == "C07":
        d = inv()
        d["space"] = r.choice(["exact", "below1", "below", "above1", "zero", "far", "half"])
        if r.random() < .25:
            d["net"] = {"": r.choice([{"k": "status", "code": r.choice([404, 500, 301, 204])},
                                      {"k": "connerr"}, {"k": "badjson"}])}
        d["free_noise"] = r.randrange(1, 1 << 29)
    inv(clean=1)
    inv(clean=1)
    if prop in ("C03", "C04") and r.random() < .5:
        inv(clean=1)           # nothing left to do
    plan["invs"] = invs
    return plan


# ------------------------------------------------------------------ execution
class Run:
    def __init__(self, plan, root):
        self.plan = plan
        self.root = root
        self.viol = []          # (prop, sig, msg, invocation)
        self.stats = {}
        self.traces = []
        self.choice_logs = []
        self.fired = []

    def v(self, prop, sig, msg):
        self.viol.append((prop, sig, "invocation %d: %s" % (self.k, msg)))

    # -- state of the disk
    def read(self, p):
        try:
            with R["iopen"](p, "rb") as f:
                return f.read()
        except OSError:
            return None

    def marker(self, name):
        return os.path.join(self.dest, ".cache", name[:-4] + ".cache")

    def members_ok(self, name):
        for p, data in self.members[name]:
            if data is None:
                if not os.path.isdir(p):
                    return "directory %s is missing" % os.path.relpath(p, self.dest)
            else:
                got = self.read(p)
                if got is None:
                    return "%s is missing" % os.path.relpath(p, self.dest)
                if got != data:
                    return "%s has %d bytes of %d or wrong content" % (
                        os.path.relpath(p, self.dest), len(got), len(data))
        return None

    def user_state(self):
        out = {}
        for p in self.userfiles:
            out[p] = self.read(p)
        return out

    def setup(self):
        plan = self.plan
        shutil.rmtree(self.root, ignore_errors=True)
        for d in ("cwd/rel", "tmp", "sibling"):
            os.makedirs(os.path.join(self.root, d))
        os.chdir(os.path.join(self.root, "cwd"))
        os.environ["TMPDIR"] = os.path.join(self.root, "tmp")
        import tempfile
        tempfile.tempdir = None
        dest = plan["dest"]
        self.destarg = os.path.join(self.root, "cwd", dest) if plan["absdest"] else dest
        self.dest = os.path.normpath(os.path.join(self.root, "cwd", dest))
        self.bodies, self.members = {}, {}
        for a in plan["archives"]:
            mem = []
            exp = []
            for name, size, seed in a["members"]:
                name = name.replace("@ROOT@", self.root)
                data = b"" if name.endswith("/") else dl_sim.member_data(seed, size)
                mem.append((name, data))
                e = os.path.join(self.dest, dl_sim.expected_path(name))
                exp.append((e, None if name.endswith("/") else data))
            self.bodies[a["name"]] = dl_sim.build_zip(mem, a["stored"])
            self.members[a["name"]] = exp
        self.config = {"training_input": [a["name"] for a in plan["archives"] if not a["gt"]],
                       "training_ground_truth": [a["name"] for a in plan["archives"] if a["gt"]]}
        self.userfiles = [os.path.join(self.root, "sibling", "keep.zip"),
                          os.path.join(self.root, "cwd", "keep2.zip")]
        self.userfiles += [os.path.join(self.dest, f) for f in plan["user"]]
        for p in self.userfiles:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            base = os.path.basename(p)
            if base in ("holiday.zip", "keep.zip", "keep2.zip", "TRAINING.ZIP"):
                data = dl_sim.build_zip([("holiday/%s.jpg" % base, b"jpeg" * 30)], True)
            elif base == "empty.zip":
                data = b""
            else:
                data = ("user data in " + base).encode() * 3
            with R["iopen"](p, "wb") as f:
                f.write(data)
        for name, kind in plan["pre"]:
            os.makedirs(os.path.join(self.dest, ".cache"), exist_ok=True)
            if kind == "zip":
                with R["iopen"](os.path.join(self.dest, name), "wb") as f:
                    f.write(self.bodies[name])
            else:
                for p, data in self.members[name]:
                    if data is None:
                        os.makedirs(p, exist_ok=True)
                    else:
                        os.makedirs(os.path.dirname(p), exist_ok=True)
                        with R["iopen"](p, "wb") as f:
                            f.write(data)
                with R["iopen"](self.marker(name), "w") as f:
                    f.write("complete")
        self.user0 = self.user_state()
        self.sent = {n: {b} for n, b in self.bodies.items()}
        self.zips = {os.path.join(self.dest, n): n for n in self.bodies}
        self.markers = {self.marker(n): n for n in self.bodies}

    # -- monitors
    def pre(self, w, t, cls, path, extra):
        self.doomed = None
        name = self.zips.get(path)
        if name is not None and (cls in ("unlink", "rename", "truncate") or
                                 (cls == "open" and extra == "wt")):
            if self.read(path) == self.bodies[name]:
                self.doomed = name

    def post(self, w, t, cls, path, extra, err):
        if err is not None or cls == "GET":
            return
        if self.doomed is not None and self.zips.get(path) == self.doomed:
            bad = self.members_ok(self.doomed)
            if bad:
                self.v("C01", "archive-destroyed", "the complete archive %s was removed although %s" %
                       (self.doomed, bad))
            self.doomed = None
        tgt = None
        if cls == "open" and extra and extra[0] == "w":
            tgt = path
        elif cls in ("rename", "link", "symlink"):
            tgt = extra
        if tgt in self.markers:
            name = self.markers[tgt]
            bad = self.members_ok(name)
            if bad:
                self.v("C01", "marker-early", "%s is marked as extracted although %s" % (name, bad))

    def invocation(self, k, inv):
        self.k = k
        had_marker = {n: os.path.exists(self.marker(n)) for n in self.bodies}
        had_zip = {n: self.read(os.path.join(self.dest, n)) for n in self.bodies}
        on_disk = set(os.listdir(self.dest)) if os.path.isdir(self.dest) else set()
        remaining = [n for n in self.bodies if not had_marker[n] and n not in on_disk]
        need = (len(remaining) * 6 + 10) * GB
        inv = dict(inv)
        noise = inv.get("free_noise", 1)
        space = inv.get("space")
        if space:
            inv["free"] = {"exact": need, "below1": need - 1, "below": max(0, need - noise),
                           "above1": need + 1, "zero": 0, "far": need * 3, "half": need // 2}[space]
        else:
            inv["free"] = need + noise
        chooser = Chooser((self.plan["seed"] << 8) + k, inv["stick"], inv.get("choices"))
        w = dl_sim.World(self.root, inv, self.bodies, self.config, chooser, self.post, self.stats,
                         self.plan["server"].rstrip("/"), self.plan["chunk"])
        w.pre_monitor = self.pre
        self.doomed = None
        cwd = os.getcwd()
        w.run([self.destarg, self.plan["server"]])
        os.chdir(cwd)
        self.choice_logs.append(chooser.log)
        self.traces.append(w.trace)
        self.fired += [dict(f, inv=k) for f in w.fired]
        self.stats["invocations"] = self.stats.get("invocations", 0) + 1
        for n, bs in w.server.sent_full.items():
            self.sent[n] |= bs
        kinds_fired = {f["do"] for f in w.fired}
        net = inv.get("net", {})
        gets = w.server.gets
        cfg_bad = "" in net
        quiet = not w.fired and w.giveups == 0      # nothing but the network misbehaved
        # C05
        for sig, msg in w.violations:
            if sig in ("concurrency", "escape"):
                self.v("C05", sig, msg)
            elif sig == "duplicate-transfer":
                self.v("C04", sig, msg)
            elif sig == "livelock":
                self.v("C06" if w.interrupted_at is not None else "C03", sig, msg)
        now = self.user_state()
        for p, d in self.user0.items():
            if now[p] != d:
                self.v("C05", "user-file", "the user's file %s was %s" % (
                    os.path.relpath(p, self.root), "removed" if now[p] is None else "changed"))
                self.user0[p] = now[p]
        for base, dirs, files in os.walk(self.root):
            if (base + "/").startswith(self.dest + "/"):
                dirs[:] = []
                continue
            for f in files:
                p = os.path.join(base, f)
                if p not in self.user0 and not p.startswith(os.path.join(self.root, "tmp") + "/"):
                    self.v("C05", "escape", "a file appeared outside the destination: %s" %
                           os.path.relpath(p, self.root))
                    os.remove(p)
        # C01, C02: state left on disk
        for n in self.bodies:
            if os.path.exists(self.marker(n)):
                bad = self.members_ok(n)
                if bad:
                    self.v("C01", "marker-wrong", "%s is marked as extracted although %s" % (n, bad))
            elif had_marker[n]:
                self.v("C04", "marker-lost", "%s was marked as extracted and no longer is" % n)
            z = self.read(os.path.join(self.dest, n))
            if z is not None and z not in self.sent[n] and z != had_zip[n]:
                self.v("C02", "partial-left", "%s holds %d bytes of %d and is not a body the server sent in full"
                       % (n, len(z), len(self.bodies[n])))
            elif z is not None and z not in self.sent[n]:
                self.v("C02", "partial-kept", "%s still holds an incomplete body" % n)
        # C04
        for n in self.bodies:
            g = gets.get(n, 0)
            if had_marker[n] and g:
                self.v("C04", "again-extracted", "%s is requested again although it was extracted" % n)
            elif had_zip[n] == self.bodies[n] and g and "listdir" not in [f["on"] for f in w.fired]:
                self.v("C04", "again-complete", "%s is requested again although it was complete on disk" % n)
            elif g > 3:
                self.v("C04", "too-many", "%s is requested %d times in one invocation" % (n, g))
            if quiet and not cfg_bad and not space and not had_marker[n] and n not in on_disk:
                want = self.want_gets(net.get(n, []))
                if want is not None and g != want:
                    self.v("C04", "get-count", "%s is requested %d times, %d were needed" % (n, g, want))
        # C03: recovery within the invocation
        if quiet and not cfg_bad and not space:
            for n in self.bodies:
                if had_marker[n]:
                    continue
                if n in on_disk and had_zip[n] != self.bodies[n]:
                    continue
                want = 0 if n in on_disk else self.want_gets(net.get(n, []))
                if want is None or (want == 3 and self.fails(net.get(n, []), 2)):
                    continue
                if not os.path.exists(self.marker(n)):
                    self.v("C03", "not-recovered", "%s was available (%d failed attempts) but was not extracted"
                           % (n, max(0, want - 1)))
        if w.hung:
            self.v("C06", "hang", "no progress is possible even after Ctrl-C")
        elif w.giveups and not (kinds_fired & {"kill_worker", "sigint_group", "sigint_main"}) and \
                not any(b["k"] == "stall" for q in net.values() if isinstance(q, list) for b in q):
            self.v("C03", "deadlock", "the program stopped making progress on its own")
        if w.main_exc is not None and not w.group_killed:
            self.v("C06" if w.interrupted_at is not None else "C03", "uncaught",
                   "main program ended with %r" % (w.main_exc,))
        # C06
        if w.interrupted_at is not None and not w.group_killed:
            late = w.late_pools
            if late:
                self.v("C06", "goes-on", "work was started after the interruption (%d pools)" % late)
            if w.late_tasks:
                self.v("C06", "goes-on", "%d tasks were started while the interrupted program waited" % w.late_tasks)
            if w.stuck_after_int:
                self.v("C06", "hang", "the interrupted program makes no more progress on its own")
            if w.main_steps_after_int > 300:
                self.v("C06", "slow-exit", "the main program went on for %d steps" % w.main_steps_after_int)
        # C07
        if cfg_bad or (space and inv["free"] < need):
            if gets:
                self.v("C07", "downloads", "archives were requested although %s" % (
                    "the configuration could not be read" if cfg_bad else
                    "%d GB are free and %d GB are needed" % (inv["free"] // GB, need // GB)))
            for n in self.bodies:
                if self.read(os.path.join(self.dest, n)) != had_zip[n] or \
                        os.path.exists(self.marker(n)) != had_marker[n]:
                    self.v("C07", "touched", "%s was touched although the program had to stop" % n)
        elif space and quiet:
            for n in remaining:
                if not gets.get(n):
                    self.v("C07", "refused", "nothing was downloaded although %d GB are free and %d GB are needed"
                           % (inv["free"] // GB, need // GB))
                    break
        return w

    @staticmethod
    def fails(seq, i):
        b = seq[min(i, len(seq) - 1)] if seq and seq[-1].get("forever") else (
            seq[i] if i < len(seq) else {"k": "ok"})
        return b["k"] in ("status", "connerr", "trunc", "reset")

    def want_gets(self, seq):
        """Number of requests a correct program makes; None if it depends on choices left to it."""
        for i in range(3):
            b = seq[min(i, len(seq) - 1)] if seq and seq[-1].get("forever") else (
                seq[i] if i < len(seq) else {"k": "ok"})
            if b["k"] == "ok":
                return i + 1
            if b["k"] not in ("status", "connerr", "trunc", "reset"):
                return None
        return 3

    def execute(self):
        self.setup()
        invs = self.plan["invs"]
        clean = 0
        for k, inv in enumerate(invs):
            self.invocation(k, inv)
            if inv.get("clean"):
                clean += 1
                if clean == 2:
                    for n in self.bodies:
                        bad = self.members_ok(n)
                        if not os.path.exists(self.marker(n)):
                            self.v("C03", "no-convergence", "%s is still not extracted after two undisturbed runs" % n)
                        elif bad:
                            self.v("C03", "no-convergence", "%s: %s after two undisturbed runs" % (n, bad))
                        if os.path.exists(os.path.join(self.dest, n)):
                            self.v("C03", "zip-left", "%s is still there after two undisturbed runs" % n)
                    if not self.viol:
                        self.leftovers()
        return self

    def leftovers(self):
        want = {p for m in self.members.values() for p, _ in m} | set(self.userfiles) | set(self.markers)
        for base, dirs, files in os.walk(self.dest):
            for f in files:
                p = os.path.join(base, f)
                if p not in want:
                    self.v("C03", "leftover", "%s is left behind after two undisturbed runs" %
                           os.path.relpath(p, self.dest))


_ready = False


def init():
    global _ready
    if not _ready:
        dl_sim.install()
        dl_sim.load_code()
        _ready = True


def execute(plan, scratch):
    init()
    run = Run(plan, os.path.join(scratch, "dl"))
    try:
        run.execute()
    finally:
        os.chdir("/")
        shutil.rmtree(run.root, ignore_errors=True)
    h = hashlib.sha256(repr(run.traces).encode()).hexdigest()
    run.stats["runs"] = 1
    return {"violations": run.viol, "stats": run.stats, "hash": h,
            "nontrivial": bool(run.fired) or any(k.startswith("fault") for k in run.stats),
            "choices": run.choice_logs, "traces": run.traces, "fired": run.fired}


# ------------------------------------------------------------------ shrinking
def freeze(plan, res):
    """A plan that replays the run from its recorded scheduling decisions."""
    p = dict(plan)
    p["invs"] = [dict(inv, choices=c) for inv, c in zip(plan["invs"], res["choices"])]
    return p


def shrinks(plan):
    """Simpler candidate plans, most drastic first."""
    def with_(**k):
        d = dict(plan)
        d.update(k)
        return d
    invs = plan["invs"]
    faulty = [i for i, v in enumerate(invs) if not v.get("clean")]
    for i in faulty:
        yield with_(invs=invs[:i] + invs[i + 1:])
    for i in range(len(plan["archives"])):
        if len(plan["archives"]) > 1:
            nm = plan["archives"][i]["name"]
            yield with_(archives=plan["archives"][:i] + plan["archives"][i + 1:],
                        pre=[p for p in plan["pre"] if p[0] != nm])
    for i, v in enumerate(invs):
        for j in range(len(v["faults"])):
            yield with_(invs=invs[:i] + [dict(v, faults=v["faults"][:j] + v["faults"][j + 1:])] + invs[i + 1:])
        for nm in list(v["net"]):
            net = dict(v["net"])
            seq = net.pop(nm)
            yield with_(invs=invs[:i] + [dict(v, net=net)] + invs[i + 1:])
            if isinstance(seq, list) and len(seq) > 1:
                yield with_(invs=invs[:i] + [dict(v, net=dict(v["net"], **{nm: seq[:-1]}))] + invs[i + 1:])
        ch = v.get("choices")
        if ch and any(ch):
            yield with_(invs=invs[:i] + [dict(v, choices=[])] + invs[i + 1:])
            n = len(ch)
            for a, b in ((0, n // 2), (n // 2, n), (0, n // 4), (n // 4, n // 2), (n // 2, 3 * n // 4), (3 * n // 4, n)):
                if any(ch[a:b]):
                    c2 = ch[:a] + [0] * (b - a) + ch[b:]
                    while c2 and c2[-1] == 0:
                        c2.pop()
                    yield with_(invs=invs[:i] + [dict(v, choices=c2)] + invs[i + 1:])
    for i in range(len(plan["user"])):
        yield with_(user=plan["user"][:i] + plan["user"][i + 1:])
    for i in range(len(plan["pre"])):
        yield with_(pre=plan["pre"][:i] + plan["pre"][i + 1:])
    for i, a in enumerate(plan["archives"]):
        for j in range(len(a["members"])):
            if len(a["members"]) > 1:
                a2 = dict(a, members=a["members"][:j] + a["members"][j + 1:])
                yield with_(archives=plan["archives"][:i] + [a2] + plan["archives"][i + 1:])
    if plan["dest"] != "out":
        yield with_(dest="out")
    if plan["chunk"] < 5000:
        yield with_(chunk=5000)


def describe(plan, res):
    out = []
    for k, tr in enumerate(res["traces"]):
        out.append("--- invocation %d (%s)" % (k, "undisturbed" if plan["invs"][k].get("clean") else "faults: %s net: %s" % (
            plan["invs"][k]["faults"], plan["invs"][k]["net"])))
        out += [" ".join(str(x) for x in e) for e in tr if e[1] not in ("stat", "read", "lstat")]
    return out


COMPONENTS = {
    "real": ["tools/download_sumo_datasets.py (whole program, unmodified)", "zipfile, glob, shutil, argparse, "
             "logging, pickle of CPython 3.12", "directory tree on tmpfs"],
    "stub": ["requests (HTTP client) and the server", "multiprocessing.Pool (scheduling, fork, pickling, chunking, "
             "worker death and replacement, terminate)", "signals", "clock", "free disk space (statvfs)",
             "errors of the file system"]}
ASSUMPTIONS = [
    "the pool is modelled after CPython 3.12 multiprocessing.Pool; queue locks held by a killed worker are not modelled",
    "a kill stops all processes of the program (what is killed is the process group); orphaned workers of a killed "
    "parent, two concurrent invocations and power loss (loss of unsynced pages) are not simulated",
    "archive names are unique, end in .zip and do not contain '.cache'",
    "500 MB network chunks are scaled to 64..5000 bytes"]

"""Several processes at once in one folder: saves, loads and conversions of scenes, interleaved call by call.

Decides C19.  Every process is a forked child behind the system-call seam whose gate stops it before each call that
takes part; the schedule in the plan says which process makes how many calls next, so exactly one process runs at any
time and the order of all effects is the plan's.  The processes draw the same temporary names, the worst case for
anything that relies on them being different.
"""
import errno
import os
import random
import shutil

from . import st_run, st_scene, st_sim, world

DIRS = ["$W", "$W", "$W/sub", "$W/new/deep", "sub"]


class Gen(st_scene.Gen):
    def __init__(self, r, pool):
        super().__init__(r, "C19")
        self.pool = pool

    def save(self, faults=None):
        s = self.slot()
        d, nm = self.r.choice(self.pool)
        self.saved.append((d, nm, self.slots[s]))
        op = {"op": "save", "slot": s, "dir": d, "name": nm}
        if faults:
            op["faults"] = [st_scene.g_fault(self.r, "save", self.slots[s], k) for k in faults]
        return op

    def load(self, faults=None):
        d, nm = self.r.choice(self.pool)
        s = self.newslot()
        self.slots[s] = ("meshes", 1, 1)
        op = {"op": "load", "slot": s, "dir": d, "name": nm}
        if faults:
            op["faults"] = [st_scene.g_fault(self.r, "load", self.slots[s], k) for k in faults]
        return op


def gen(prop, seed):
    r = random.Random(seed)
    n = r.choice([2, 2, 2, 3])
    pool = []
    for i in range(r.choice([1, 1, 2, 3])):
        pool.append([r.choice(DIRS), "s%d" % i if r.random() < 0.7 else r.choice(world.NAMES) % i])
    procs = []
    trouble = r.random() < 0.3
    for k in range(n):
        g = Gen(r, [tuple(p) for p in pool])
        ops = []
        typ = r.choice([None, "meshes", "meshes", "voxels", "bounding_box"])
        if r.random() < 0.8:
            ops.append(g.new(typ, small=True, nmax=2))
        for _ in range(r.randrange(1, 5)):
            x = r.random()
            if g.slots and x < 0.55:
                ops.append(g.save([r.choice(["kill", "err", "killtorn", "torn"])] if trouble and r.random() < 0.3 else None))
            elif x < 0.85 or not g.slots:
                ops.append(g.load(["err"] if trouble and r.random() < 0.2 else None))
            else:
                o = g.misc()
                if o["op"] != "chdir":
                    ops.append(o)
        procs.append({"ops": ops, "cwd": "w"})
    slices = []
    style = r.choice([1, 1, 2, 5, 20, 0])
    for _ in range(r.randrange(4, 60)):
        s = style or r.choice([1, 2, 5, 20, 60])
        slices.append([r.randrange(n), int(r.expovariate(1.0 / s) + (0.5 if r.random() < 0.8 else 0))])
    return {"prop": prop, "seed": seed & 0xffffffff, "world": "multi", "procs": procs, "slices": slices}


class Judge(st_scene.Judge):
    def __init__(self, plan):
        super().__init__(plan)
        self.mem = [{} for _ in plan["procs"]]
        self.clock = 0
        self.attempts = []       # saves: k, t, start, end, state, snap, hard
        self.running = {}        # process -> (op, info, start, attempt)
        self.winner = {}
        self.images = {}
        self.overlaps = 0
        self.faulty = False

    def v(self, props, sig, msg):        # what the other properties say about one process is theirs
        pass

    def w(self, sig, msg):
        self.viol.append(("C19", sig, msg))

    def leaks(self, rep, what, hard):
        pass

    def started(self, k, op, info):
        self.clock += 1
        a = None
        t = info.get("target")
        if t is not None:
            for k2, (op2, info2, _, _) in self.running.items():
                if info2.get("target") == t:
                    self.overlaps += 1
                    self.count("overlap.%s during %s" % (op["op"], op2["op"]))
        if op["op"] == "save":
            s = self.mem[k].get(op["slot"])
            a = {"k": k, "t": t, "start": self.clock, "end": None, "state": "running", "hard": False,
                 "snap": s.written() if s else None, "what": "process %d %s" % (k, st_scene.describe_op(op))}
            self.attempts.append(a)
        self.running[k] = (op, info, self.clock, a)

    def finished(self, k, op, rep):
        self.clock += 1
        self.cur = self.running.pop(k, None)
        self.k = k
        self.slots = self.mem[k]
        self.op(op, rep, "process %d" % k)
        if rep["out"][0] == "exc" and op["op"] not in ("save", "load"):
            self.slots = {}
        self.mem[k] = self.slots

    def save(self, op, rep, what, hard, soft):
        a = self.cur[3]
        a["end"], a["hard"] = self.clock, hard
        t, out = a["t"], rep["out"]
        self.faulty |= hard
        if out[0] == "ok":
            a["state"] = "ok"
            if rep["info"]["existed"]:
                self.w("overwrite", "%s succeeded although %s existed" % (what, t))
            if t in self.winner:
                self.w("two-winners", "%s succeeded, and so did %s" % (what, self.winner[t]["what"]))
            else:
                self.winner[t] = a
                self.images[t] = st_scene.snapshot(self.root, [t])
            return
        a["state"] = "failed"
        if not st_run.is_a(out, st_scene.SAVE_EXC):
            self.w("exception", "%s: undocumented kind of exception" % what)
        if hard or rep["info"]["existed"]:
            return
        if not any(b is not a and b["t"] == t for b in self.attempts):
            self.w("disturbed", "%s failed although no other process used this name" % what)

    def load(self, op, rep, what, hard, soft):
        t, out, start = rep["info"]["target"], rep["out"], self.cur[2]
        self.faulty |= hard
        self.slots.pop(op["slot"], None)
        win = self.winner.get(t)
        if out[0] == "ok":
            cand = [b for b in self.attempts if b["t"] == t and not (b["state"] == "failed" and not b["hard"])]
            if win:
                cand = [win]
            if any(b["snap"] is None for b in cand):
                return
            why = ["nothing was saved there"]
            for b in cand:
                why = world.diff_scene(b["snap"], rep["loaded"])
                if not why:
                    self.slots[op["slot"]] = st_scene.from_loaded(b["snap"])
                    return
            if any(b["hard"] or b["state"] == "crashed" for b in cand) and not win:
                return          # what a failed save leaves is the subject of C09 and C13
            self.w("half-finished", "%s returned what nobody saved: %s" % (what, "; ".join(why[:3])))
            return
        if not st_run.is_a(out, st_scene.LOAD_EXC):
            self.w("exception", "%s: undocumented kind of exception" % what)
        if win and win["end"] < start and not hard:
            self.w("disturbed", "%s failed although %s had finished before" % (what, win["what"]))

    def over(self, k):
        self.clock += 1
        r = self.running.get(k)
        if r and r[3]:
            r[3]["state"], r[3]["end"], r[3]["hard"] = "crashed", self.clock, True


def execute(plan, scratch):
    root = st_sim.fresh(scratch)
    j = Judge(plan)
    j.root = root
    parts, traces = [], []

    def event(k, m):
        nv = len(j.viol)
        if m[0] == "start":
            op = plan["procs"][k]["ops"][m[1]]
            j.started(k, op, m[2])
            traces.append("  p%d %s ..." % (k, st_scene.describe_op(op)))
        elif m[0] == "op":
            rep = m[1]
            op = plan["procs"][k]["ops"][rep["i"]]
            j.finished(k, op, rep)
            traces.append("  p%d %s -> %s%s" % (k, st_scene.describe_op(op), rep["out"][0],
                                               "" if rep["out"][0] != "exc" else " %s: %s" % (rep["out"][1][0], rep["out"][2][:100])))
            parts.append((k, rep["out"][:2], rep.get("acted"), rep.get("slots"), rep.get("nops"), rep.get("tmp")))
        elif m[0] == "over":
            j.over(k)
            traces.append("  p%d over" % k)
        for x in j.viol[nv:]:
            traces.append("  !! %s %s: %s" % tuple(x))
    ps = plan["procs"]
    results, switches = st_sim.together(root, st_scene.proc, ps, plan["slices"], event, [plan["seed"]] * len(ps),
                                        [p["cwd"] for p in ps])
    nv = len(j.viol)
    killed = False
    for k, res in enumerate(results):
        parts.append((k, res.end, res.nops, res.counts, res.log))
        j.count("calls", res.nops)
        if res.end == "killed":
            killed = True
            j.count("fault.process killed")
        elif res.end != "ok":
            op = j.running.get(k)
            j.w("process-death", "process %d ended with %s in %s" % (k, res.end, st_scene.describe_op(op[0]) if op else "start"))
        if res.escapes[0]:
            j.w("escape", "process %d changed something outside the folders: %s" % (k, res.escapes[1]))
    # afterwards
    targets = sorted({a["t"] for a in j.attempts})
    for t in targets:
        mine = [a for a in j.attempts if a["t"] == t]
        if not any(a["hard"] for a in mine):
            n = sum(a["state"] == "ok" for a in mine)
            if n == 0:
                j.w("no-winner", "%d processes saved %s and every one was refused: %s" % (len(mine), t, mine[0]["what"]))
        if t in j.winner:
            now = st_scene.snapshot(root, [t])
            if now != j.images[t]:
                j.w("disk-changed", "%s was changed after %s had finished: %s" % (
                    t, j.winner[t]["what"], st_scene.dif(j.images[t].get(t), now.get(t))))
    if not killed and not j.faulty:
        left = sorted(os.listdir(root + "/tmp"))
        if left:
            j.w("temp", "temporary files left behind: %s" % left[:3])
    extra = st_scene.strays(root, targets)
    if extra:
        j.w("strays", "files outside the scenes: %s" % extra[:3])
    for f in os.listdir(root + "/tmp"):
        shutil.rmtree(os.path.join(root, "tmp", f), ignore_errors=True)
    # a last life on its own reads everything back
    ops = []
    for i, t in enumerate(targets):
        d, nm = os.path.split(t)
        ops.append({"op": "load", "slot": "s%d" % i, "dir": "$W" + d[2:], "name": nm})
    res = st_sim.session(root, st_scene.proc, {"ops": ops}, seed=plan["seed"])
    for m in res.msgs:
        if m[0] != "op":
            continue
        rep = m[1]
        t = targets[rep["i"]]
        win = j.winner.get(t)
        parts.append((rep["out"][:2], rep.get("slots")))
        traces.append("  last life: load %s -> %s" % (t, rep["out"][0]))
        if rep["out"][0] == "exc":
            if win:
                j.w("lost", "%s reported success, but %s cannot be loaded: %s" % (win["what"], t, rep["out"][1:]))
        elif win and win["snap"]:
            d = world.diff_scene(win["snap"], rep["loaded"])
            if d:
                j.w("lost", "%s reported success, but %s holds something else: %s" % (win["what"], t, "; ".join(d[:3])))
    if res.end != "ok":
        j.w("process-death", "loading afterwards ended with %s" % res.end)
    for x in j.viol[nv:]:
        traces.append("  !! %s %s: %s" % tuple(x))
    j.count("processes", len(ps))
    j.count("switches", switches)
    seen, viol = set(), []
    for x in j.viol:
        if x not in seen:
            seen.add(x)
            viol.append(x)
    return {"violations": viol, "hash": st_sim.digest(parts), "stats": j.stats, "nontrivial": j.overlaps > 0, "traces": traces}


def freeze(plan, res):
    return plan


def shrinks(plan):
    ps, sl = plan["procs"], plan["slices"]
    if len(ps) > 2:
        for k in range(len(ps)):
            yield dict(plan, procs=ps[:k] + ps[k + 1:], slices=[[a - (a > k), n] for a, n in sl if a != k])
    for size in (len(sl) // 2, len(sl) // 4, 4, 1):
        if size:
            for i in range(0, len(sl), size):
                yield dict(plan, slices=sl[:i] + sl[i + size:])
    for k, p in enumerate(ps):
        def with_(ops):
            return dict(plan, procs=ps[:k] + [dict(p, ops=ops)] + ps[k + 1:])
        ops = p["ops"]
        for i in range(len(ops)):
            yield with_(ops[:i] + ops[i + 1:])
        for i, o in enumerate(ops):
            if o.get("faults"):
                yield with_(ops[:i] + [{a: b for a, b in o.items() if a != "faults"}] + ops[i + 1:])
            if o["op"] == "new":
                els = o["scene"]["elements"]
                for z in range(len(els)):
                    yield with_(ops[:i] + [dict(o, scene=dict(o["scene"], elements=els[:z] + els[z + 1:]))] + ops[i + 1:])
    for i in range(len(sl) - 1):
        if sl[i][0] == sl[i + 1][0]:
            yield dict(plan, slices=sl[:i] + [[sl[i][0], sl[i][1] + sl[i + 1][1]]] + sl[i + 2:])
    for i, (a, n) in enumerate(sl):
        if n > 1:
            yield dict(plan, slices=sl[:i] + [[a, n // 2]] + sl[i + 1:])


def describe(plan, res):
    return ["  schedule: " + " ".join("p%d:%d" % (a, n) for a, n in plan["slices"])] + res["traces"]


def init():
    st_scene.init()


COMPONENTS = {
    "real": st_scene.COMPONENTS["real"],
    "stub": ["which process makes the next file system call (a gate before each one; stat-family calls run with the call that "
             "follows)", "outcome of file system calls and death of processes where the plan has a fault",
             "temporary file names: the same sequence in every process"]}
ASSUMPTIONS = [
    "several processes of one machine on one local file system (tmpfs), whose calls are atomic one by one",
    "processes, not threads; two or three of them", "a killed process leaves exactly the effects of the calls made before",
    "ids and scene names contain no path separators or control characters"]
RULES = {"C19": "a run is two or three processes whose saves, loads, conversions and edits of scenes with colliding names are "
                "interleaved call by call as the seed says, and a last process that reads everything back; non-trivial: an operation "
                "started on a scene on which another process was at work; distinct by the hash of every process's calls and outcomes"}

"""Histories of scenes: build, save, load, transform, convert, edit - over restarts, crashes, I/O faults, damage.

Decides C08, C09, C13, C14, C15, C16 for project scenes.  The executable reference model is in `Judge`:
slots (scenes in memory) and targets (scenes on disk), both as canonical forms computed from raw arrays.
"""
import copy
import errno
import json
import os
import random
import shutil

import numpy as np

from . import foreign, st_run, st_sim, world

PROPS = ("C08", "C09", "C13", "C14", "C15", "C16", "C22")
SAVE_EXC = ("OSError", "RuntimeError", "ValueError")
LOAD_EXC = ("OSError", "RuntimeError", "ValueError")
ERRS = [errno.EIO, errno.ENOSPC, errno.EDQUOT, errno.EMFILE, errno.EACCES, errno.EROFS, errno.ENOMEM, errno.EFBIG]
RERRS = [errno.EIO, errno.EIO, errno.EMFILE, errno.ENFILE, errno.EACCES, errno.ESTALE, errno.ENOMEM]
# rough number of operations of each class in a save / load of one element of a meshes scene
DIRS = ["$W", "$W/sub", "$W/new/deep", ".", "sub", "./sub/../sub", "", "$W/d\u00edr sp", "rel/x", "$W/sub/"]


# ---------------------------------------------------------------- generation
def est(op, plan_scene, on):
    """About how many calls of a class an operation makes (only to spread the faults)."""
    typ, n, textures = plan_scene
    save = op == "save"
    t = {"bounding_box": {"openw": 1, "write": 1, "close": 1, "openr": 1, "read": 2, "mkdir": 2},
         "voxels": {"openw": 2 * n + 1, "write": 8 * n + 1, "close": n + 1, "openr": n + 1, "read": 9 * n + 2, "mkdir": 2,
                    "trunc": n, "fsync": n},
         "meshes": {"openw": 3 * n + textures + 1, "write": 4 * n + textures + 1, "close": 6 * n, "openr": 3 * n + textures + 1,
                    "read": 6 * n + 2 * textures, "mkdir": n + 2, "unlink": 3 * n + textures, "rmdir": n, "chdir": 0,
                    "list": n, "mmap": 0}}[typ]
    if not save:
        t = {"openr": n + 1, "read": {"bounding_box": 2, "voxels": 9 * n + 2, "meshes": 4 * n + 2}[typ], "close": n + 1}
    tot = sum(t.values())
    return max(1, t.get(on, 1) if on != "any" else tot)


def weight(scene):
    n = len(scene["elements"])
    tx = sum(2 for e in scene["elements"] for m in e.get("model", []) if m["tex"])
    return scene["type"], n, tx


def g_fault(r, op, w, do=None):
    save = op == "save"
    do = do or r.choice(["err", "err", "err", "torn"] if save else ["err", "err", "short"])
    if do in ("kill", "killtorn"):
        on = r.choice(["any", "any", "write", "openw", "close", "mkdir", "unlink", "rmdir"])
        if do == "killtorn":
            on = "write"
    elif do == "torn":
        on = "write"
    elif do == "short":
        on = r.choice(["write", "read"]) if save else "read"
    elif save:
        on = r.choice(["write", "write", "write", "openw", "openw", "openr", "read", "mkdir", "close", "any", "any",
                       "unlink", "rmdir", "trunc", "list", "fsync"])
    else:
        on = r.choice(["read", "read", "openr", "openr", "any", "close"])
    top = est(op, w, on)
    nth = 1 + int(top * r.random() * 1.15)
    f = {"on": on, "do": do, "nth": nth}
    if do in ("err", "torn"):
        f["err"] = r.choice(ERRS if save else RERRS)
    if do in ("torn", "short", "killtorn"):
        f["frac"] = r.choice([0, 1, 64, 128, 200, 255])
    if do == "err" and r.random() < 0.25:
        f["len"] = r.choice([2, 3, 1000])          # the condition persists
    if do == "short":
        f["len"] = r.choice([1, 3, 1000])
    return f


EDITS = ["score", "category", "evaluated", "pose", "sym", "shift"]


def g_print(r):
    """How the user has numpy show numbers."""
    return r.choice([{"precision": r.choice([0, 2, 3, 17])}, {"suppress": True}, {"threshold": 1}, {"linewidth": 8},
                     {"formatter": "%.1f"}, {"floatmode": "fixed", "precision": 1}, {"sign": "+"}])


class Gen:
    def __init__(self, r, prop):
        self.r = r
        self.prop = prop
        self.slots = {}       # name -> weight tuple of what should be there
        self.saved = []       # (dir, name, weight)
        self.n = 0

    def slot(self):
        return self.r.choice(sorted(self.slots)) if self.slots else None

    def newslot(self):
        return self.r.choice("abcd")

    def name(self):
        self.n += 1
        return self.r.choice(world.NAMES) % self.n

    def new(self, typ=None, small=False, nmax=None):
        s = self.newslot()
        sc = world.g_scene(self.r, typ, small, nmax)
        self.slots[s] = weight(sc)
        return {"op": "new", "slot": s, "scene": sc}

    def save(self, faults=None, again=False, kinds=None):
        r = self.r
        s = self.slot()
        if again and self.saved:
            d, nm, _ = r.choice(self.saved)
        else:
            d, nm = r.choice(DIRS if r.random() < 0.7 else DIRS[:3]), self.name()
            self.saved.append((d, nm, self.slots[s]))
        op = {"op": "save", "slot": s, "dir": d, "name": nm}
        if faults:
            op["faults"] = [g_fault(r, "save", self.slots[s], k) for k in faults]
        return op

    def load(self, faults=None):
        r = self.r
        d, nm, w = r.choice(self.saved)
        s = self.newslot()
        self.slots[s] = w
        op = {"op": "load", "slot": s, "dir": d, "name": nm}
        if faults:
            op["faults"] = [g_fault(r, "load", w, k) for k in faults]
        return op

    def user(self):
        """The user removes, moves or copies the folder of a scene; its name is mostly used again."""
        r = self.r
        if r.random() < 0.3:
            return self.replaced()
        d, nm, w = r.choice(self.saved)
        if r.random() < 0.6:
            ops = [{"op": "discard", "dir": d, "name": nm}]
        else:
            ops = [{"op": "move", "dir": d, "name": nm, "to": r.choice(DIRS[:3]), "copy": r.random() < 0.5}]
            self.saved.append((ops[0]["to"], nm, w))
        if self.slots and r.random() < 0.7:
            ops.append({"op": "save", "slot": self.slot(), "dir": d, "name": nm})
        if r.random() < 0.5:
            ops.append({"op": "load", "slot": self.newslot(), "dir": d, "name": nm})
            self.slots[ops[-1]["slot"]] = w
        return ops

    def replaced(self):
        """A scene is saved and loaded, taken away, and another one of the same outline is saved under its name and loaded."""
        r = self.r
        a = self.new(small=True, nmax=2)
        b = copy.deepcopy(a)
        for e in b["scene"]["elements"]:
            for x in e.get("model", []) + ([e["vox"]] if "vox" in e else []):
                if r.random() < 0.8:
                    x["seed"] = r.getrandbits(30)
            if "bounds" in e:
                e["bounds"] = [[-x for x in c] for c in e["bounds"]]
        s, t = a["slot"], self.newslot()
        save = {"op": "save", "slot": s, "dir": r.choice(DIRS[:3]), "name": self.name()}
        load = dict(save, op="load", slot=t)
        self.saved.append((save["dir"], save["name"], self.slots[s]))
        self.slots[t] = self.slots[s]
        away = {"op": "discard", "dir": save["dir"], "name": save["name"]}
        if r.random() < 0.3:
            away.update(op="move", to="$W/sub" if save["dir"] == "$W" else "$W", copy=False)
        return [a, save, load, away, b, dict(save), dict(load)]

    def miscs(self):
        """A misc operation; one that makes a scene from another is mostly followed by a change in place of one of the two."""
        r = self.r
        before = dict(self.slots)
        o = self.misc()
        ops = [o]
        if o["op"] in ("transform", "convert"):
            if o["dst"] == o["slot"] and r.random() < 0.8:
                other = r.choice([x for x in "abcd" if x != o["slot"]])
                self.slots[other] = self.slots[o["slot"]]
                self.slots[o["slot"]] = before[o["slot"]]
                o["dst"] = other
            if r.random() < 0.65:
                t = r.choice([o["slot"], o["dst"]])
                k = r.random()
                if k < 0.75:
                    ops.append({"op": "edit", "slot": t, "k": r.randrange(8), "what": "shift",
                                "value": [r.randrange(3), r.choice([1.0, -0.25, 40.0])]})
                elif k < 0.85:
                    ops.append({"op": "setting", "slot": t, "key": r.choice(sorted(world.DEFAULTS)), "value": "v %d" % r.randrange(99)})
                elif self.slots[t][0] == "voxels":
                    ops.append({"op": "addvox", "slot": t, "k": r.randrange(8), "seed": r.getrandbits(30), "n": r.choice([1, 2, 20]),
                                "span": r.choice([1, 5, 60])})
                elif self.slots[t][0] == "meshes":
                    ops.append({"op": "addmesh", "slot": t, "k": r.randrange(8), "mesh": world.g_mesh(r)})
        return ops

    def misc(self):
        """An operation in memory (or a change of directory)."""
        r = self.r
        s = self.slot()
        w = self.slots[s]
        k = r.random()
        if k < 0.2:
            d = self.newslot()
            self.slots[d] = w
            return {"op": "transform", "slot": s, "dst": d, "pose": world.g_pose(r)}
        if k < 0.35 and w[0] != "bounding_box":
            d = self.newslot()
            t = "bounding_box" if w[0] == "voxels" else r.choice(["voxels", "bounding_box"])
            self.slots[d] = (t, w[1], 0)
            return {"op": "convert", "slot": s, "dst": d, "type": t}
        if k < 0.55:
            el = world.g_element(r, w[0], 100 + self.n, small=True)
            self.n += 1
            self.slots[s] = (w[0], w[1] + 1, w[2] + 2)
            return {"op": "add", "slot": s, "element": el}
        if k < 0.62:
            return {"op": "remove", "slot": s, "k": r.randrange(8)}
        if k < 0.8:
            what = r.choice(EDITS)
            v = {"score": world.g_score(r), "category": r.choice(world.CATS), "evaluated": r.random() < 0.5,
                 "pose": world.g_pose(r), "sym": r.randrange(len(world.SYMS)), "shift": [r.randrange(3), r.choice([1.0, -0.25, 40.0])]}[what]
            return {"op": "edit", "slot": s, "k": r.randrange(8), "what": what, "value": v}
        if k < 0.86:
            return {"op": "setting", "slot": s, "key": r.choice(sorted(world.DEFAULTS)), "value": "v %d" % r.randrange(99)}
        if k < 0.9 and w[0] == "meshes":
            return {"op": "addmesh", "slot": s, "k": r.randrange(8), "mesh": world.g_mesh(r)}
        if k < 0.94 and w[0] == "voxels":
            return {"op": "addvox", "slot": s, "k": r.randrange(8), "seed": r.getrandbits(30), "n": r.choice([1, 2, 20]),
                    "span": r.choice([1, 5, 60, 500])}
        if k < 0.94 and w[0] == "meshes":
            return {"op": "clone", "slot": s, "k": r.randrange(8), "id": "clone%d" % r.randrange(1000)}
        if r.random() < 0.5:
            return {"op": "print", "opts": g_print(r)}
        return {"op": "chdir", "dir": r.choice(["$W", "$W/sub", "..", ".", "sub"])}


def gen(prop, seed):
    r = random.Random(seed)
    if prop == "C16" and r.random() < 0.45:        # single files instead of scenes
        from . import st_files
        return dict(st_files.gen(r.choice(["C10", "C10", "C11", "C12"]), r.getrandbits(48), True), prop=prop)
    g = Gen(r, prop)
    sessions = []
    nsess = r.choice([1, 1, 2, 2, 3])
    if prop == "C08":
        for k in range(nsess):
            ops = []
            for _ in range(r.randrange(3, 9)):
                x = r.random()
                if not g.slots or x < 0.15:
                    ops.append(g.load() if g.saved and r.random() < 0.3 else g.new())
                elif x < 0.5:
                    ops.append(g.save(["short"] if r.random() < 0.2 else None))
                elif x < 0.65 and g.saved:
                    ops.append(g.load(["short"] if r.random() < 0.2 else None))
                elif x < 0.72 and g.saved:
                    ops += g.user()
                else:
                    ops += g.miscs()
            if g.slots:
                ops.append(g.save())
            sessions.append({"ops": ops, "cwd": r.choice(["w", "w", "w/sub"])})
            g.slots = {}
    elif prop in ("C09", "C13"):
        kill = prop == "C13"
        for k in range(nsess):
            ops = []
            if r.random() < 0.4 or not g.saved:
                ops.append(g.new(small=r.random() < 0.5, nmax=3))
                if r.random() < 0.4:
                    ops.append(g.save())
            else:
                ops.append(g.load())
                if r.random() < 0.3 and g.slots:
                    ops += g.miscs()
            if kill:
                ops.append(g.save([r.choice(["kill", "kill", "killtorn"])]))
            else:
                for _ in range(r.choice([1, 1, 2])):
                    x = r.random()
                    if x < 0.15:
                        o = g.save()
                        w = g.slots[o["slot"]]
                        o["quota"] = int(10 ** r.uniform(0, 2.2 + 2.2 * (w[0] != "bounding_box")))
                    else:
                        o = g.save(["err"] if x < 0.5 else ["torn"] if x < 0.65 else ["short"] if x < 0.85 else [None, "short"])
                    ops.append(o)
            if r.random() < 0.3 and g.saved and not kill:
                ops.append(g.load())
            sessions.append({"ops": ops, "cwd": r.choice(["w", "w", "w/sub"])})
            g.slots = {}
    elif prop == "C14":
        for k in range(nsess):
            ops = [g.new(small=True, nmax=3) for _ in range(r.choice([1, 2]))]
            for _ in range(r.randrange(2, 6)):
                x = r.random()
                if x < 0.35:
                    ops.append(g.save(again=True) if g.saved else g.save())
                elif x < 0.55:
                    ops.append(g.save([r.choice(["err", "torn"])] if r.random() < 0.6 else None, again=r.random() < 0.3))
                elif x < 0.75 and g.saved:
                    ops.append(g.load(["err"] if r.random() < 0.6 else None))
                elif x < 0.83 and g.saved:
                    ops += g.user()
                else:
                    ops += g.miscs()
            if r.random() < 0.25:
                ops.append(g.save(["kill"], again=r.random() < 0.5))
            sessions.append({"ops": ops, "cwd": r.choice(["w", "w", "w/sub"])})
            g.slots = {}
        if r.random() < 0.5:
            sessions[0]["occupied"] = [[r.choice(DIRS[:2]), r.choice(world.NAMES) % r.randrange(1, 4),
                                        r.choice(["file", "empty", "dir", "link"])] for _ in range(2)]
    elif prop == "C15":
        ops = [g.new(small=r.random() < 0.6, nmax=3)]
        ops.append(g.save())
        if r.random() < 0.3:
            ops += [g.new(small=True, nmax=2), g.save()]
        sessions.append({"ops": ops, "cwd": "w"})
        dmg = []
        if r.random() < 0.75:
            for _ in range(r.choice([1, 1, 2])):
                dmg.append({"t": r.randrange(3), "f": r.randrange(6),
                            "how": r.choice(["trunc", "trunc", "trunc", "empty", "missing", "dir", "zeros", "short4", "xmlcut",
                                             "xmldrop", "swap", "dangling"]), "at": r.random()})
        ops = []
        g.slots = {}
        for _ in range(r.choice([1, 2, 3])):
            if r.random() < 0.15:
                g.saved.append(("$W", "missing%d" % r.randrange(9), ("meshes", 0, 0)))
            ops.append(g.load(["err"] if not dmg or r.random() < 0.3 else None))
        sessions.append({"ops": ops, "cwd": "w", "damage": dmg})
    elif prop == "C16":
        for k in range(r.choice([1, 1, 2])):
            ops = [g.new(small=True, nmax=2)]
            for _ in range(r.randrange(2, 6)):
                x = r.random()
                if x < 0.4:
                    ops.append(g.save([r.choice(["err", "err", "torn"])], again=r.random() < 0.15))
                elif x < 0.55:
                    ops.append(g.save())
                elif x < 0.8 and g.saved:
                    ops.append(g.load(["err"] if r.random() < 0.7 else None))
                else:
                    ops += g.miscs()
            sessions.append({"ops": ops, "cwd": r.choice(["w", "w/sub"])})
            g.slots = {}
        if r.random() < 0.3:
            sessions[-1]["damage"] = [{"t": 0, "f": r.randrange(4), "how": "trunc", "at": r.random()}]
    elif prop == "C22":
        from . import st_files
        for k in range(nsess):
            fs, ops = [], []
            for _ in range(r.choice([1, 1, 2]) if not k or r.random() < 0.4 else 0):
                sc, style = foreign.g_scene(r, st_files.g_foreign)
                n = len(sc["elements"])
                fs.append({"dir": r.choice(["$W", "$W/sub"]), "name": g.name(), "scene": sc, "style": style})
                g.saved.append((fs[-1]["dir"], fs[-1]["name"], (sc["type"], n, 2 * n)))
            for _ in range(r.randrange(2, 7)):
                x = r.random()
                if not g.slots or x < 0.35:
                    ops.append(g.load([r.choice(["err", "short"])] if r.random() < 0.3 else None))
                elif x < 0.6:
                    ops.append(g.save(["short"] if r.random() < 0.1 else None))
                elif x < 0.65:
                    ops += g.user()
                else:
                    ops += g.miscs()
            sessions.append({"ops": ops, "cwd": r.choice(["w", "w", "w/sub"]), "foreign": fs})
            g.slots = {}
    return {"prop": prop, "seed": seed & 0xffffffff, "world": "scene", "sessions": sessions}


# ---------------------------------------------------------------- what a simulated process does
def sampleable(s):
    """Whether the voxelizer's sample of a scene (a fixed number of points per square metre) fits in memory."""
    area = 0.0
    for e in s.elements.values():
        for m in e.meshes.primitive_meshes():
            v = np.asarray(m.vertices(), float)
            t = v[:, np.asarray(m.indices(), int).reshape(-1, 3)]        # 3 x triangles x corners
            area += np.linalg.norm(np.cross(t[:, :, 1] - t[:, :, 0], t[:, :, 2] - t[:, :, 0], axis=0), axis=0).sum() / 2
    return area < 2


def by_hand(p, op, t, info):
    """The user removes, moves or copies whatever is at t."""
    if not info["existed"]:
        return False
    real = os.path.isdir(t) and not os.path.islink(t)
    if op["op"] == "discard":
        shutil.rmtree(t) if real else os.unlink(t)
        return True
    to = os.path.join(os.path.abspath(p.path(op["to"])), op["name"])
    if not real or os.path.lexists(to) or (to + "/").startswith(t + "/"):
        return False
    os.makedirs(os.path.dirname(to), exist_ok=True)
    if op["copy"]:
        shutil.copytree(t, to, symlinks=True)
    else:
        os.rename(t, to)
    info["to"] = to[len(p.env.root):]
    return True


def proc(env, arg):
    from sumo.base.vector import Vector3  # noqa
    from sumo.semantic.project_converter import ProjectConverter
    from sumo.semantic.project_object import ProjectObject
    from sumo.semantic.project_scene import ProjectScene
    p = st_run.Proc(env, world.observe_scene)
    S = p.slots
    for i, op in enumerate(arg["ops"]):
        k = op["op"]
        info = {}
        fn = None
        if k in ("save", "load", "discard", "move"):
            d = p.path(op["dir"])
            t = os.path.join(os.path.abspath(d), op["name"])
            info["target"] = t[len(env.root):]
            info["existed"] = os.path.lexists(t)
        if k == "new":
            S[op["slot"]] = world.build_scene(op["scene"])
            rep = {"i": i, "out": ("ok",), "info": info}
        elif k == "chdir":
            try:
                os.chdir(p.path(op["dir"]))
                if not os.getcwd().startswith(env.work):
                    os.chdir(env.work)
            except OSError:
                pass
            info["cwd"] = os.getcwd()[len(env.root):]
            rep = {"i": i, "out": ("ok",), "info": info}
        elif k == "print":
            o = dict(op["opts"])
            if "formatter" in o:
                o["formatter"] = {"float_kind": lambda x, f=o["formatter"]: f % x}
            np.set_printoptions(**o)
            rep = {"i": i, "out": ("ok",), "info": info}
        elif k in ("discard", "move"):
            rep = {"i": i, "out": ("ok",) if by_hand(p, op, t, info) else ("skip",), "info": info}
        elif op.get("slot") not in S and k != "load":
            rep = {"i": i, "out": ("skip",), "info": info}
        elif k == "save":
            s = S[op["slot"]]
            _, rep = p.run(i, op, lambda: s.save(d, op["name"]), info)
        elif k == "load":
            v, rep = p.run(i, op, lambda: ProjectScene.load(d, op["name"]), info)
            if v is not None:
                rep["loaded"] = world.observed(world.observe_scene, v)
                S[op["slot"]] = v
        elif k == "transform":
            s = S[op["slot"]]
            pose = world.build_pose(op["pose"])
            v, rep = p.run(i, op, lambda: s.transform_pose(pose), info)
            if v is not None:
                S[op["dst"]] = v
        elif k == "convert":
            s = S[op["slot"]]
            if (s.project_type, op["type"]) not in ProjectConverter.allowed_conversions or \
                    op["type"] == "voxels" and not sampleable(s):
                rep = {"i": i, "out": ("skip",), "info": info}
            else:
                v, rep = p.run(i, op, lambda: ProjectConverter().run(s, op["type"]), info)
                if v is not None:
                    S[op["dst"]] = v
        else:
            s = S[op["slot"]]
            ids = sorted(s.elements)
            e = s.elements[ids[op["k"] % len(ids)]] if ids and "k" in op else None
            rep = {"i": i, "out": ("ok",), "info": info}
            if k == "setting":
                s.settings[op["key"]] = op["value"]
            elif k == "add" and {"bounding_box": "bounds", "voxels": "vox", "meshes": "model"}[s.project_type] \
                    not in op["element"]:
                rep["out"] = ("skip",)
            elif k == "add":
                po = world.build_element(op["element"], s.project_type)
                s.elements[po.id] = po
            elif e is None or k in ("addmesh", "clone") and e.meshes is None or \
                    k == "addvox" and e.voxels is None:
                rep["out"] = ("skip",)
            elif k == "remove":
                del s.elements[e.id]
            elif k == "edit":
                if op["what"] == "pose":
                    e.pose = world.build_pose(op["value"])
                elif op["what"] == "shift":
                    e.pose.t[op["value"][0]] += op["value"][1]
                elif op["what"] == "sym":
                    e.symmetry = world.build_sym(op["value"])
                else:
                    setattr(e, op["what"], op["value"])
            elif k == "addmesh":
                e.meshes.add_mesh(world.build_mesh(op["mesh"]))
            elif k == "addvox":
                vg = e.voxels
                vg.add_points(np.asarray(vg.min_corner, float) + (world.more_voxels(op) + 0.5) * vg.voxel_size)
            elif k == "clone":
                s.elements[op["id"]] = ProjectObject.gen_meshes_object(
                    op["id"], bounds=e.bounds, meshes=e.meshes.deepcopy(), pose=copy.deepcopy(e.pose), category=e.category,
                    symmetry=e.symmetry, score=e.score, evaluated=e.evaluated)
        p.report(rep, (op.get("slot"), op.get("dst")), i == len(arg["ops"]) - 1)


# ---------------------------------------------------------------- the reference model
class Slot:
    """Expected scene in memory.  Elements are dicts; 'pay' (shape) may be shared between elements."""

    def __init__(self, typ, settings, els):
        self.type, self.settings, self.els = typ, settings, els

    def canon(self):
        out = []
        for e in self.els:
            c = {k: v for k, v in e.items() if k != "pay"}
            c.update({k: v for k, v in e["pay"].items() if k in ("model", "vox")})
            out.append(c)
        return {"type": self.type, "settings": dict(self.settings), "elements": out}

    def written(self):
        """What a save writes: bounds are computed from the shape."""
        c = copy.deepcopy(self.canon())
        for x, e in zip(c["elements"], self.els):
            x["bounds"] = e["pay"]["box"] if self.type != "bounding_box" else x["bounds"]
        return c


def slot_of(d):
    els = []
    for e in d["elements"]:
        c = world.expect_element(e, d["type"])
        els.append(split(c, d["type"]))
    uniq = {}
    for e in els:                  # same id twice: the later one replaces the earlier
        uniq[e["id"]] = e
    return Slot(d["type"], dict(d["settings"] or world.DEFAULTS), list(uniq.values()))


def split(c, typ):
    e = {k: v for k, v in c.items() if k not in ("model", "vox", "_box")}
    e["pay"] = {k: c[k] for k in ("model", "vox") if k in c}
    e["pay"]["box"] = c["_box"]
    if typ == "voxels":
        e["bounds"] = c["_box"]
    return e


def from_loaded(c):
    """Slot for a loaded scene, from the snapshot that was saved."""
    c = copy.deepcopy(c)
    els = []
    for x in c["elements"]:
        e = {k: v for k, v in x.items() if k not in ("model", "vox")}
        e["pay"] = {k: x[k] for k in ("model", "vox") if k in x}
        e["pay"]["box"] = e.pop("_box", x["bounds"])
        els.append(e)
    return Slot(c["type"], c["settings"], els)


class Judge:
    def __init__(self, plan):
        self.plan = plan
        self.viol = []
        self.targets = {}      # path below the root -> {"state", "snap", "digest"}
        self.stats = {}
        self.nontrivial = False

    def v(self, props, sig, msg):
        for p in props if isinstance(props, (list, tuple)) else [props]:
            self.viol.append((p, sig, msg))
            if self.plan["prop"] == "C22" and p in ("C08", "C15"):
                self.viol.append(("C22", sig, msg))

    def count(self, k, n=1):
        if n:
            self.stats[k] = self.stats.get(k, 0) + n

    def start(self):
        self.slots = {}
        self.gone = set()      # names the user took away in this life

    def op(self, op, rep, where):
        k, out, info = op["op"], rep["out"], rep["info"]
        hard = False       # a fault took effect that the operation may report
        soft = False
        for f, n in zip(op.get("faults") or [], rep.get("fired", [])):
            if n:
                self.nontrivial = True
                self.count("fault.%s %s" % (f["do"], f["on"]), n)
                if f["do"] == "short":
                    soft = True
                else:
                    hard = True
        if rep.get("nospace"):
            hard = self.nontrivial = True
            self.count("fault.disk full", rep["nospace"])
        self.count("op." + k + ("" if out[0] != "exc" else " failed"))
        what = "%s %s" % (where, describe_op(op))
        if out[0] == "exc":
            what += " [%s: %s]" % (out[1][0], out[2][:120])
        if rep.get("escaped"):
            self.v(["C14", "C16"], "escape", what + " changed something outside the folders it was given")
        if "cwd" in rep:
            self.leaks(rep, what, hard)
        if out[0] == "skip":
            pass
        elif k == "save":
            self.save(op, rep, what, hard, soft)
        elif k == "load":
            self.load(op, rep, what, hard, soft)
        elif out[0] == "exc":
            self.v("C08", "memory-op", what + " failed")
        elif k == "new":
            self.slots[op["slot"]] = slot_of(op["scene"])
        elif k == "transform":
            s = self.slots.get(op["slot"])
            if s:
                R1, t1 = world.rot(op["pose"]), world.np.array(op["pose"]["t"], float)
                els = []
                for e in s.els:
                    e2 = dict(e)
                    R, t = world.np.array(e["R"]), world.np.array(e["t"])
                    e2["R"], e2["t"] = R1.dot(R).tolist(), (R1.dot(t) + t1).tolist()
                    els.append(e2)
                self.slots[op["dst"]] = Slot(s.type, dict(s.settings), els)
            else:               # made from a scene the model does not know
                self.slots.pop(op["dst"], None)
        elif k == "convert":
            self.convert(op, rep, what)
        elif k == "setting":
            if op["slot"] in self.slots:
                self.slots[op["slot"]].settings[op["key"]] = op["value"]
        elif k in ("discard", "move"):
            t = info["target"]
            g = self.targets.get(t)
            if not op.get("copy"):
                self.targets.pop(t, None)
                self.gone.add(t)
            if "to" in info and g:
                self.targets[info["to"]] = dict(g)
        elif k in ("add", "remove", "edit", "addmesh", "addvox", "clone"):
            self.edit(op, rep)
        # everything in memory is as expected
        for name, obs in sorted((rep.get("slots") or {}).items()):
            s = self.slots.get(name)
            if s is None:
                continue
            d = world.diff_scene(s.canon(), obs)
            if d:
                own = name in (op.get("dst"), op.get("slot"))
                if k in ("save", "load"):
                    pr = ["C14"] if k != "load" or not own else []
                    if not hard:
                        pr.append("C08")
                    sig = "memory-" + k
                else:
                    pr, sig = ["C08"], "memory-" + k
                if pr:
                    self.v(pr, sig, "after %s the scene in memory %r differs: %s" % (what, name, "; ".join(d[:3])))
                self.slots[name] = None     # report once
        self.slots = {a: b for a, b in self.slots.items() if b is not None}

    def convert(self, op, rep, what):
        s = self.slots.get(op["slot"])
        obs = (rep.get("slots") or {}).get(op["dst"])
        self.slots.pop(op["dst"], None)     # whatever it was, it is another scene now
        if not s or obs is None:
            return
        if "observation_failed" in obs:
            self.v("C08", "memory-convert", "%s: %s" % (what, obs["observation_failed"]))
            return
        by = {e["id"]: e for e in obs["elements"]}
        els = []
        for e in s.els:
            e2 = {k: v for k, v in e.items() if k not in ("pay", "bounds")}
            e2["type"] = op["type"]
            o = by.get(e["id"])
            if op["type"] == "bounding_box":
                e2["bounds"] = e["pay"]["box"]
                e2["pay"] = {"box": e["pay"]["box"]}
            else:
                vox = o.get("vox") if o else None
                if not vox or "n" not in vox or vox["n"] < 1:
                    self.v("C08", "memory-convert", "%s: element %r has no voxels" % (what, e["id"]))
                    return
                b = world.vox_box(vox)
                box = e["pay"]["box"]
                tol = 1e-4 * max(1.0, max(abs(x) for p in box for x in p))
                if any(b[0][j] < box[0][j] - tol for j in range(3)) or \
                        any(b[1][j] > box[1][j] + vox["size"] + tol for j in range(3)):
                    self.v("C08", "memory-convert", "%s: element %r: voxels %r outside the model %r" % (what, e["id"], b, box))
                e2["pay"] = {"vox": vox, "box": b}
                e2["bounds"] = b
            els.append(e2)
        self.slots[op["dst"]] = Slot(op["type"], dict(s.settings), els)

    def edit(self, op, rep):
        s = self.slots.get(op["slot"])
        if not s:
            return
        k = op["op"]
        if k == "add":
            e = split(world.expect_element(op["element"], s.type), s.type)
            s.els = [x for x in s.els if x["id"] != e["id"]] + [e]
            return
        ids = sorted(e["id"] for e in s.els)
        if not ids:
            return
        e = [x for x in s.els if x["id"] == ids[op["k"] % len(ids)]][0]
        if k == "remove":
            s.els.remove(e)
        elif k == "edit":
            w, v = op["what"], op["value"]
            if w == "pose":
                e["R"], e["t"] = world.rot(v).tolist(), list(v["t"])
            elif w == "shift":
                e["t"] = [x + v[1] * (i == v[0]) for i, x in enumerate(e["t"])]
            elif w == "sym":
                e["sym"] = list(world.SYMS[v])
            else:
                e[w] = v
        elif k == "addmesh":
            c, box = world.expect_model([op["mesh"]])
            p = e["pay"]
            p["model"] = p["model"] + c
            p["box"] = [[min(a, b) for a, b in zip(p["box"][0], box[0])], [max(a, b) for a, b in zip(p["box"][1], box[1])]]
        elif k == "addvox":
            p = e["pay"]
            if "_ix" not in p["vox"]:         # made by a conversion: which voxels are set is not known
                self.slots[op["slot"]] = None
                for name, x in list(self.slots.items()):
                    if x and any(y["pay"] is p for y in x.els):
                        self.slots[name] = None
                return
            p["vox"], p["box"] = world.vox_add(p["vox"], world.more_voxels(op))
        elif k == "clone":
            e2 = dict(e, id=op["id"], pay=dict(e["pay"]))
            s.els = [x for x in s.els if x["id"] != op["id"]] + [e2]

    def leaks(self, rep, what, hard):
        if rep["cwd"][0] != rep["cwd"][1]:
            self.v("C16", "cwd", "%s changed the working directory from %s to %s" % (what, *rep["cwd"]))
        # the clean-up itself may have been made to fail
        cleanup = any(c in ("unlink", "rmdir", "list", "stat", "close") or c == "openr" and os.path.basename(p) in rep["tmp"]
                      for c, a, p in rep["acted"])
        if rep["tmp"] and not cleanup and not rep["logfull"]:
            self.v("C16", "temp", "%s left temporary files behind: %s" % (what, rep["tmp"][:3]))
        if rep["fds"] and not (hard and all(f.endswith(".h5") for f in rep["fds"])):
            self.v("C16", "fd", "%s left files open: %s" % (what, rep["fds"][:3]))

    def save(self, op, rep, what, hard, soft):
        t = rep["info"]["target"]
        out = rep["out"]
        s = self.slots.get(op["slot"])
        snap = s.written() if s else None
        if rep["info"]["existed"]:
            if out[0] == "ok":
                self.v("C14", "overwrite", "%s succeeded although %s existed" % (what, t))
                self.targets[t] = dict(self.targets.get(t) or {}, state="foreign", snap=None, what=what)
            elif not st_run.is_a(out, ("OSError", "RuntimeError")):
                self.v("C14", "exception", "%s: not the documented exception" % what)
            return
        if out[0] == "ok":
            self.targets[t] = {"state": "complete", "snap": snap, "hard": hard, "soft": soft, "what": what}
            return
        if not hard:
            self.v("C08", "save-failed", "%s failed without a fault" % what)
            if soft:
                self.v("C09", "save-failed", "%s failed after short transfers only" % what)
        if not st_run.is_a(out, SAVE_EXC):
            self.v("C09", "exception", "%s: undocumented kind of exception" % what)
        self.targets[t] = {"state": "failed", "snap": snap, "what": what}

    def load(self, op, rep, what, hard, soft):
        t = rep["info"]["target"]
        out = rep["out"]
        tg = self.targets.get(t)
        if out[0] == "ok" and tg and tg["state"] == "refuse":
            self.v("C22", "accepted", "%s: accepted although it is %s" % (what, tg["what"]))
            self.slots[op["slot"]] = None
            return
        if out[0] == "ok":
            d = world.diff_scene(tg["snap"], rep["loaded"]) if tg and tg["snap"] else []
            if tg is None and not rep["info"]["existed"]:
                d = ["nothing was ever saved there"]
            if d:
                msg = "%s: %s" % (what, "; ".join(d[:3]))
                if tg is None or tg["state"] == "damaged" or hard:
                    self.v("C15", "wrong-load", msg + (" (damaged: %s)" % tg.get("dmg") if tg else ""))
                elif tg["state"] == "complete":
                    if tg.get("hard"):
                        self.v("C09", "lost", "%s reported success, but %s" % (tg["what"], msg))
                    else:
                        self.v("C08", "round-trip", msg)
                        if tg.get("soft"):
                            self.v("C09", "lost", "%s reported success, but %s" % (tg["what"], msg))
                        if tg.get("settled"):
                            self.v("C14", "changed", "saved earlier and intact then; " + msg)
                elif tg["state"] == "crashed":
                    self.v("C13", "partial", "after %s: %s" % (tg["what"], msg))
                else:
                    self.v(["C09", "C13"], "partial", "after the failed %s: %s" % (tg["what"], msg))
                self.slots[op["slot"]] = None
            else:
                self.slots[op["slot"]] = from_loaded(tg["snap"]) if tg and tg["snap"] else None
                if tg:
                    tg["settled"] = True
            return
        if not st_run.is_a(out, LOAD_EXC):
            self.v("C15", "exception", "%s: undocumented kind of exception" % what)
        if tg and tg["state"] == "complete" and not hard:
            if tg.get("hard"):
                self.v("C09", "lost", "%s reported success, but %s" % (tg["what"], what))
            else:
                self.v("C08", "load-failed", "%s failed without a fault; saved by %s" % (what, tg["what"]))
                if tg.get("soft"):
                    self.v("C09", "lost", "%s reported success, but %s" % (tg["what"], what))
                if tg.get("settled"):
                    self.v("C14", "changed", "loadable before; now %s" % what)

    def ended(self, ops, res, last, where):
        """The process life ended early."""
        if res.end == "ok":
            return
        op = ops[last] if last is not None else None
        what = "%s %s" % (where, describe_op(op) if op else "(start)")
        if res.end == "killed":
            self.nontrivial = True
            self.count("fault.process killed")
            return
        props = ["C15"] if op and op["op"] == "load" else ["C09", "C08"]
        self.v(props, "process-death", "%s: the process ended with %s" % (what, res.end))


def describe_op(op):
    k = op["op"]
    if k in ("save", "load"):
        t = "%s %s %s/%s" % (k, op["slot"], op["dir"], op["name"])
    elif k == "new":
        t = "new %s %s[%d]" % (op["slot"], op["scene"]["type"], len(op["scene"]["elements"]))
    else:
        t = " ".join([k] + ["%s=%s" % (a, json.dumps(b)[:60]) for a, b in sorted(op.items())
                            if a not in ("op", "faults", "element", "mesh")])
    if op.get("faults"):
        t += " under " + ", ".join("%s(%s %s#%d%s)" % (f["do"], errno.errorcode.get(f["err"], "") if "err" in f else "",
                                                       f["on"], f["nth"], "+%d" % f["len"] if f.get("len", 1) > 1 else "")
                                   for f in op["faults"])
    if op.get("quota", -1) >= 0:
        t += " with %d bytes of disk space" % op["quota"]
    return t


# ---------------------------------------------------------------- damage between process lives
def damage(root, j, d):
    ts = sorted(t for t, g in j.targets.items() if g["state"] in ("complete", "damaged") and g["snap"])
    if not ts:
        return None
    t = ts[d["t"] % len(ts)]
    top = root + t
    try:
        fs = sorted(os.listdir(top))
    except OSError:
        return None
    if not fs:
        return None
    f = fs[d["f"] % len(fs)]
    how = d["how"]
    if how.startswith("xml"):
        f = [x for x in fs if x.endswith(".xml")][:1]
        if not f:
            return None
        f = f[0]
    p = os.path.join(top, f)
    if not os.path.isfile(p):
        return None
    g = j.targets[t]
    n = os.path.getsize(p)
    if how == "trunc":
        os.truncate(p, int(n * d["at"]))
    elif how == "short4":
        os.truncate(p, max(0, n - 1 - int(d["at"] * 16)))
    elif how == "empty":
        os.truncate(p, 0)
    elif how == "missing":
        os.remove(p)
    elif how == "dir":
        os.remove(p)
        os.mkdir(p)
    elif how == "dangling":
        os.remove(p)
        os.symlink("nowhere", p)
    elif how == "zeros":
        with open(p, "wb") as fh:
            fh.write(b"\0" * n)
    elif how == "swap":          # another kind of file under this name
        with open(p, "wb") as fh:
            fh.write(random.Random(int(d["at"] * 1e6)).choice([b"<html>404</html>", b"PK\x03\x04junk", b"\x89HDF\r\n\x1a\n",
                                                                  b"glTF\x02\0\0\0", b"<?xml version='1.0'?><scene>"]))
    elif how == "xmlcut":
        s = open(p, "rb").read()
        os.truncate(p, int(len(s) * (0.5 + d["at"] / 2)))
    elif how == "xmldrop":       # a required tag is missing
        try:
            s = open(p, encoding="utf-8").read()
        except UnicodeDecodeError:
            return None
        import re
        tags = ["project_type", "elements", "id", "pose", "translation", "rotation", "corner1", "c1", "detectionScore", "symmetry"]
        tag = tags[int(d["at"] * len(tags))]
        if tag in ("pose", "symmetry", "detectionScore"):
            s2 = re.sub("<%s>.*?</%s>" % (tag, tag), "<%s>x</%s>" % (tag, tag), s, count=1, flags=re.S)
        else:
            i = s.find("<elements>")
            if i < 0 and tag not in ("project_type", "elements"):
                return None
            s2 = re.sub("<%s>.*?</%s>" % (tag, tag), "", s, count=1, flags=re.S) if tag in ("project_type", "elements") \
                else s[:i] + re.sub("<%s>.*?</%s>" % (tag, tag), "", s[i:], count=1, flags=re.S)
        if s2 == s:
            return None
        with open(p, "w", encoding="utf-8") as fh:
            fh.write(s2)
    g["state"] = "damaged"
    g["dmg"] = "%s of %s (%d bytes)" % (how, f, n)
    j.nontrivial = True
    j.count("fault.damage " + how)
    return "%s: %s" % (t, g["dmg"])


def occupy(root, items, j):
    for d, nm, how in items:
        base = os.path.normpath(d.replace("$W", root + "/w"))
        t = os.path.join(base, nm)
        if os.path.lexists(t):
            continue
        os.makedirs(base, exist_ok=True)
        if how == "file":
            open(t, "w").write("mine")
        elif how == "link":
            os.symlink("nowhere-%s" % nm, t)
        else:
            os.mkdir(t)
            if how == "dir":
                open(os.path.join(t, "notes.txt"), "w").write("mine")
        j.targets[t[len(root):]] = {"state": "foreign", "snap": None, "what": "user's " + how}


def another(root, f, j):
    """Another program writes a scene."""
    base = os.path.normpath(f["dir"].replace("$W", root + "/w"))
    ok = foreign.write(base, f["name"], f["scene"], f["style"])
    what = "another program's scene" + ("" if ok else " that breaks the format: " + f["style"]["bad"])
    j.targets[os.path.join(base, f["name"])[len(root):]] = {
        "state": "complete" if ok else "refuse", "snap": foreign.expect(f["scene"]), "what": what}
    j.count("foreign scenes" + ("" if ok else " to be refused"))
    return "%s/%s: %s (%s, %d elements)" % (f["dir"], f["name"], what, f["scene"]["type"], len(f["scene"]["elements"]))


# ---------------------------------------------------------------- one run
def snapshot(root, targets):
    out = {}
    for t in targets:
        p = root + t
        if os.path.islink(p):
            out[t] = "link:" + os.readlink(p)
        elif os.path.isdir(p):
            out[t] = st_sim.tree(p)
        elif os.path.exists(p):
            out[t] = open(p, "rb").read()
    return out


def execute(plan, scratch):
    if plan["world"] == "files":
        from . import st_files
        return st_files.execute(plan, scratch)
    root = st_sim.fresh(scratch)
    j = Judge(plan)
    parts, traces = [], []
    sessions = list(plan["sessions"])
    k = 0
    snap = {}
    while k < len(sessions) or k == len(plan["sessions"]):
        if k == len(plan["sessions"]):
            sessions.append(final(plan, j))
        se = sessions[k]
        where = "life %d:" % (k + 1)
        if se.get("occupied"):
            occupy(root, se["occupied"], j)
        for f in se.get("foreign") or []:
            traces.append("  " + another(root, f, j))
        for d in se.get("damage") or []:
            x = damage(root, j, d)
            if x:
                traces.append("  damage %s" % x)
        before = snapshot(root, j.targets)
        st = dict(before)
        j.start()
        cwd = se.get("cwd", "w")
        if not os.path.isdir(os.path.join(root, cwd)):
            cwd = "w"
        res = st_sim.session(root, proc, se, seed=plan["seed"] + k, cwd=cwd)
        traces.append("life %d (%s): %s" % (k + 1, cwd, res.end))
        last = None
        pend = {}
        for m in res.msgs:
            if m[0] == "start":
                last = m[1]
                pend = m[2]
            elif m[0] == "op":
                rep = m[1]
                last = None
                op = se["ops"][rep["i"]]
                nv = len(j.viol)
                j.op(op, rep, where)
                traces.append("  %s -> %s%s" % (describe_op(op), " ".join(map(str, rep["out"][:1])),
                                                "" if rep["out"][0] != "exc" else " %s: %s" % (rep["out"][1][0], rep["out"][2][:100])))
                parts.append((rep["out"][:2], rep.get("acted"), rep.get("slots"), rep.get("nops")))
                for x in j.viol[nv:]:
                    traces.append("  !! %s %s: %s" % tuple(x))
        if last is not None:
            op = se["ops"][last]
            traces.append("  %s -> died: %s" % (describe_op(op), res.end))
            if op["op"] == "save" and pend and not pend["existed"]:
                s = j.slots.get(op["slot"])
                j.targets[pend["target"]] = {"state": "crashed", "snap": s.written() if s else None,
                                             "what": "%s %s" % (where, describe_op(op))}
                for f in op.get("faults") or []:
                    j.count("fault.%s %s" % (f["do"], f["on"]))
        nv = len(j.viol)
        j.ended(se["ops"], res, last, where)
        # nothing that was on disk before this life has changed
        after = snapshot(root, j.targets)
        for t, c in sorted(before.items()):
            if after.get(t) != c and t not in j.gone:
                j.v(["C14"] + (["C13"] if res.end == "killed" else []), "disk-changed",
                    "%s changed %s (%s): %s" % (where, t, j.targets[t]["what"], dif(c, after.get(t))))
        extra = strays(root, j.targets)
        if extra:
            j.v("C16", "strays", "%s left files outside the scenes: %s" % (where, extra[:3]))
        if res.end == "killed":
            for f in os.listdir(root + "/tmp"):
                shutil.rmtree(os.path.join(root, "tmp", f), ignore_errors=True)
        for x in j.viol[nv:]:
            traces.append("  !! %s %s: %s" % tuple(x))
        parts.append((res.end, res.nops, res.counts, res.log))
        j.count("sessions")
        j.count("calls", res.nops)
        k += 1
    seen, viol = set(), []
    for x in j.viol:
        if x not in seen:
            seen.add(x)
            viol.append(x)
    return {"violations": viol, "hash": st_sim.digest(parts), "stats": j.stats, "nontrivial": j.nontrivial or
            plan["prop"] in ("C08", "C14", "C22"), "traces": traces}


def dif(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return str([k for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)][:4])
    return "%s -> %s" % (str(a)[:60], str(b)[:60])


def strays(root, targets):
    """Files below w/ that belong to no target."""
    out = []
    for base, dirs, files in os.walk(root + "/w"):
        rel = base[len(root):]
        if any(rel == t or rel.startswith(t + "/") for t in targets):
            dirs[:] = []
            continue
        for f in files:
            if "%s/%s" % (rel, f) not in targets:
                out.append("%s/%s" % (rel, f))
    return sorted(out)


def final(plan, j):
    """A last, undisturbed process life: load everything; try the names again."""
    ops = []
    ts = sorted(j.targets.items())
    for i, (t, g) in enumerate(ts):
        d, nm = os.path.split(t)
        ops.append({"op": "load", "slot": "s%d" % i, "dir": "$W" + d[2:], "name": nm})
    sc = {"type": "bounding_box", "settings": None, "elements": [world.g_element(random.Random(plan["seed"]), "bounding_box", 1)]}
    ops.append({"op": "new", "slot": "z", "scene": sc})
    for t, g in ts[:4]:
        d, nm = os.path.split(t)
        ops.append({"op": "save", "slot": "z", "dir": "$W" + d[2:], "name": nm})
    ops.append({"op": "save", "slot": "z", "dir": "$W/sub", "name": "fresh name"})
    ops.append({"op": "load", "slot": "y", "dir": "$W/sub", "name": "fresh name"})
    return {"ops": ops, "cwd": "w"}


def freeze(plan, res):
    return plan


def shrinks(plan):
    if plan["world"] == "files":
        from . import st_files
        yield from st_files.shrinks(plan)
        return
    def with_(ss):
        return dict(plan, sessions=ss)
    ss = plan["sessions"]
    for i in range(len(ss)):
        if len(ss) > 1:
            yield with_(ss[:i] + ss[i + 1:])
    for i, s in enumerate(ss):
        for k in ("damage", "occupied", "foreign"):
            for q in range(len(s.get(k) or [])):
                yield with_(ss[:i] + [dict(s, **{k: s[k][:q] + s[k][q + 1:]})] + ss[i + 1:])
        for q, f in enumerate(s.get("foreign") or []):
            def repf(f2):
                return with_(ss[:i] + [dict(s, foreign=s["foreign"][:q] + [f2] + s["foreign"][q + 1:])] + ss[i + 1:])
            els = f["scene"]["elements"]
            for z in range(len(els)):
                yield repf(dict(f, scene=dict(f["scene"], elements=els[:z] + els[z + 1:])))
                if els[z].get("omit"):
                    yield repf(dict(f, scene=dict(f["scene"], elements=els[:z] + [dict(els[z], omit=[])] + els[z + 1:])))
            for a, b in (("enc", "utf-8"), ("indent", ""), ("order", False), ("extra", False), ("comments", False), ("nums", "r"),
                         ("cdata", False), ("refs", False), ("h5", "plain")):
                if f["style"][a] != b:
                    yield repf(dict(f, style=dict(f["style"], **{a: b})))
        for q in range(len(s["ops"])):
            yield with_(ss[:i] + [dict(s, ops=s["ops"][:q] + s["ops"][q + 1:])] + ss[i + 1:])
        for q, o in enumerate(s["ops"]):
            def rep(o2):
                return with_(ss[:i] + [dict(s, ops=s["ops"][:q] + [o2] + s["ops"][q + 1:])] + ss[i + 1:])
            if o.get("faults"):
                yield rep({k: v for k, v in o.items() if k != "faults"})
                for z, f in enumerate(o["faults"]):
                    if f.get("len", 1) > 1:
                        yield rep(dict(o, faults=o["faults"][:z] + [dict(f, len=1)] + o["faults"][z + 1:]))
                    if f["nth"] > 1:
                        for n in sorted({1, f["nth"] // 2, f["nth"] - 1}):
                            yield rep(dict(o, faults=o["faults"][:z] + [dict(f, nth=n)] + o["faults"][z + 1:]))
            if o["op"] == "new":
                els = o["scene"]["elements"]
                for z in range(len(els)):
                    yield rep(dict(o, scene=dict(o["scene"], elements=els[:z] + els[z + 1:])))
                for z, e in enumerate(els):
                    for y in range(len(e.get("model", []))):
                        if len(e["model"]) > 1:
                            e2 = dict(e, model=e["model"][:y] + e["model"][y + 1:])
                            yield rep(dict(o, scene=dict(o["scene"], elements=els[:z] + [e2] + els[z + 1:])))
                    simple = dict(e, category="chair", sym=0, score=-1, evaluated=True,
                                  pose={"axis": [0, 0, 1], "ang": 0.0, "t": [0, 0, 0]}, id="e%d" % z)
                    if "model" in e:
                        simple["model"] = [dict(m, nv=min(m["nv"], 3), nt=1, flat=False, scale=1.0, off=0.0,
                                                bc=[1, 2], mr=[1, 1]) for m in e["model"]]
                    if simple != e:
                        yield rep(dict(o, scene=dict(o["scene"], elements=els[:z] + [simple] + els[z + 1:])))
                if o["scene"]["settings"]:
                    yield rep(dict(o, scene=dict(o["scene"], settings=None)))
            if o["op"] in ("save", "load") and o["dir"] != "$W":
                pass


def describe(plan, res):
    return res["traces"]


def init():
    from . import st_files
    st_files.init()
    import sumo.semantic.project_converter  # noqa
    import sumo.semantic.project_scene  # noqa
    import cv2
    cv2.setNumThreads(1)


COMPONENTS = {
    "real": ["sumo.semantic (scenes, objects, symmetry, converter)", "sumo.threedee (models, meshes, voxel grids, sampler, "
             "voxelizer), sumo.geometry, sumo.images", "their C++ parts with tiny_gltf, OpenCV, HDF5, lxml/ElementTree as built from "
             "/repo", "directory tree on tmpfs"],
    "stub": ["outcome of every file system call (errors, short and torn transfers, disk full, death of the process)",
             "temporary file names", "random streams", "process lives (fork; nothing but the files survives)"]}
ASSUMPTIONS = [
    "a killed process leaves exactly the effects of the system calls made before; loss of unsynced pages (power loss) is not simulated",
    "one process uses a folder at a time", "memory allocation does not fail",
    "ids and scene names contain no path separators or control characters; scenes hold at least one triangle per mesh, one mesh per "
    "model and one voxel per grid", "the order of the elements of a loaded scene is not judged",
    "damage covers truncation, loss, replacement and read errors, not flipped bits (the formats have no checksums)"]
_R = "a run is a history of up to three process lives over scenes generated from the seed (plus a last undisturbed life that reads everything back)"
RULES = {
    "C08": _R + "; every run saves and reads scenes back, under short transfers at most",
    "C09": _R + " with I/O faults in saves; non-trivial: a fault took effect",
    "C13": _R + " with a kill during a save; non-trivial: the process died there",
    "C14": _R + " with repeated names, occupied names, failing saves and loads, kills",
    "C15": _R + " with files damaged between lives or reads failing; non-trivial: a file was damaged or a fault took effect",
    "C22": _R + "; other programs write scenes in every form of the format, or breaking it, before a life; lives load, change and save "
           "them, reads fail or come in pieces; every run counts",
    "C16": _R + " with failing saves and loads; non-trivial: a fault took effect"}

"""Histories of single files: glTF/GLB models, multi-page TIFF images, PLY clouds, voxel grids.

Decides C10, C11, C12.  Process lives build, edit, save, convert and load under the system-call seam, with I/O
faults, kills and damage in between.  The reference model keeps raw arrays; what a save left on disk is judged
twice: by a reader that shares no code with the code under test, and by the real loader in later lives.
"""
import copy
import errno
import json
import os
import random
import shutil

import numpy as np

from . import files_ref as ref
from . import st_run, st_sim, world
from .st_scene import ERRS, RERRS, dif, snapshot

PROPS = ("C10", "C11", "C12")
OWNER = {"gltf": "C10", "glb": "C10", "tif": "C11", "ply": "C12", "txt": "C12", "h5": "C12"}
DIRS = ["$W", "$W/sub", ".", "sub", "./sub/../sub", "$W/d\u00edr sp", "$W/$HOME", "$W/`echo x`", "$W/$(echo x)", "$W/a*b",
        "$W/~", "rel/x", "$W/[ab]", "$W/sub/", "$W/a'b\"c", "$W/x;y&z", "$W/#1%20?"]
NAMES = ["m%d", "m %d", "m\u00e8%d", "a.b%d", "x&%d", "[%d]", "-%d", "%d", "$X%d", "%%20_%d", "q'%d"]
TABLE = {  # about how many calls of a class an operation makes
    "gltf": {"openw": 4, "write": 5, "close": 4, "any": 14, "stat": 2},
    "glb": {"openw": 5, "write": 6, "openr": 4, "read": 6, "close": 6, "mkdir": 1, "unlink": 4, "rmdir": 1, "list": 1, "any": 30},
    "conv": {"openr": 3, "read": 6, "openw": 1, "write": 1, "close": 4, "any": 14},
    "load gltf": {"openr": 4, "read": 8, "close": 4, "any": 16},
    "load glb": {"openr": 1, "read": 3, "close": 1, "any": 5},
    "tif": {"openw": 1, "write": 12, "read": 3, "close": 1, "any": 20},
    "load tif": {"openr": 1, "read": 12, "close": 1, "mmap": 1, "any": 18},
    "ply": {"openw": 1, "write": 2, "close": 1, "any": 4},
    "txt": {"openw": 1, "write": 2, "close": 1, "any": 4},
    "load ply": {"openr": 1, "read": 3, "close": 1, "any": 5},
    "h5": {"openw": 1, "write": 1, "close": 1, "any": 4},
    "load h5": {"openr": 2, "read": 9, "close": 2, "any": 14},
    "update": {"openr": 1, "read": 2, "close": 1, "any": 4}}
LOADS = {"lgltf": "gltf", "lglb": "glb", "tload": "tif", "pload": "ply", "vload": "h5"}
SAVES = {"gltf": "gltf", "glb": "glb", "tsave": "tif", "psave": "ply", "ptext": "txt", "vsave": "h5"}


# ---------------------------------------------------------------- generation
def g_fault(r, table, do, save):
    t = TABLE[table]
    if do == "killtorn" or do == "torn":
        on = "write" if t.get("write") else "any"
    elif do == "short":
        on = r.choice([c for c in ("read", "write") if c in t] or ["read"])
    else:
        on = r.choice([c for c, n in t.items() for _ in range(3 if c in ("write", "read", "openw") else 1)])
    f = {"on": on, "do": do, "nth": 1 + int(t.get(on, 2) * r.random() * r.choice([1, 1.2]))}
    if do in ("err", "torn"):
        f["err"] = r.choice(ERRS if save else RERRS)
    if do in ("torn", "short", "killtorn"):
        f["frac"] = r.choice([0, 1, 64, 128, 200, 255])
    if do == "err" and r.random() < 0.25:
        f["len"] = r.choice([2, 3, 1000])
    if do == "short":
        f["len"] = r.choice([1, 3, 1000])
    return f


def g_tiff(r):
    pages = [p for p in ("category", "instance") if r.random() < 0.5]
    hh, w = r.choice([(1, 1), (1, 7), (5, 1), (3, 4), (8, 8), (17, 5), (64, 33), (40, 600), (130, 257)])
    return {"seed": r.getrandbits(30), "h": hh, "w": w, "pages": pages, "depth": r.choice(["depth", "depth", "invdepth"]),
            "flat": r.random() < 0.15, "late": r.random() < 0.2,
            "lay": [r.choice(["crop", "f", "flip", "rows"]), r.choice([None, None, 0, 1, 2, 3])] if r.random() < 0.12 else None}


def g_cloud(r):
    return {"seed": r.getrandbits(30), "n": r.choice([1, 1, 2, 3, 10, 200, 3000]), "scale": r.choice([1e-3, 1.0, 5.0, 1e4, 1e9]),
            "col": r.random() < 0.5}


def g_foreign(r):
    n = r.choice([1, 1, 2, 3, 5])
    prims = []
    for _ in range(n):
        m = world.g_mesh(r)
        it = r.choice([5121, 5123, 5125])
        m["nv"] = min(m["nv"], 60)
        if r.random() < 0.02:                            # all that 8, 16 or 32 bit indices can reach
            it, m["nv"] = r.choice([(5121, 256), (5123, 65536), (5123, 40000), (5123, 300), (5125, 66000)])
        m["bc"], m["mr"] = [[max(1, x) for x in m[k]] for k in ("bc", "mr")]
        prims.append({"mesh": m, "it": it, "factor": [round(r.random(), 3) for _ in range(3)] + [1] if r.random() < 0.4 else None,
                      "mr": r.random() < 0.6, "bc": r.random() < 0.8, "share": r.random() < 0.3})
    return {"prims": prims, "names": r.choice(["%d.png", "tex%d.png", "a b%d.png", "t\u00e9x%d.png", "0%d.png"]),
            "first": r.choice([0, 0, 1, 2, 5]), "alpha": r.random() < 0.3, "pad": r.choice([0, 0, 1, 3]),
            "group": r.choice([1, 1, 2, 9]), "buffers": r.choice([1, 1, 1, 2, 3]),
            "form": r.choice(["gltf"] * 6 + ["glb"] * 3 + ["data"]), "stride": r.random() < 0.2, "aoff": r.random() < 0.2,
            "tree": r.choice([None] * 4 + ["root", "empty", "scenes"]), "bare": r.random() < 0.2, "extra": r.random() < 0.2,
            "odd": r.choice(ref.ODD) if r.random() < 0.12 else None}


class Gen:
    def __init__(self, r, prop):
        self.r, self.prop, self.n = r, prop, 0
        self.slots = {}            # name -> kind
        self.t = []                # (kind, dir, name)

    def name(self):
        self.n += 1
        return self.r.choice(NAMES if self.r.random() < 0.5 else NAMES[:1]) % self.n

    def dir(self):
        return self.r.choice(DIRS if self.r.random() < 0.5 else DIRS[:4])

    def pick(self, kind):
        c = sorted(s for s, k in self.slots.items() if k == kind)
        return self.r.choice(c) if c else None

    def new(self, kind):
        r = self.r
        s = kind[0] + r.choice("ab")
        self.slots[s] = kind
        if kind == "model":
            return {"op": "mnew", "slot": s, "model": [self.mesh() for _ in range(r.choice([1, 1, 2, 3]))]}
        if kind == "tiff":
            return {"op": "tnew", "slot": s, "img": g_tiff(r)}
        if kind == "cloud":
            return {"op": "pnew", "slot": s, "cloud": g_cloud(r)}
        return {"op": "vnew", "slot": s, "vox": world.g_voxels(r)}

    def mesh(self):
        m = world.g_mesh(self.r, big=self.r.random() < 0.01)
        return m

    def where(self, kind, again=0.2):
        """A target to save to: (dir, name)."""
        r = self.r
        old = [x for x in self.t if x[0] == kind]
        if old and r.random() < again:
            return r.choice(old)[1:]
        d, n = self.dir(), self.name()
        if kind == "gltf":
            g = [x for x in self.t if x[0] == "gltf"]
            if g and r.random() < 0.05:
                d = r.choice(g)[1]                       # two models in one folder
            else:
                d = "%s/f%d" % (d.rstrip("/"), self.n)
        self.t.append((kind, d, n))
        return d, n

    def fault(self, op, table, kinds, save):
        if kinds:
            op["faults"] = [g_fault(self.r, table, k, save) for k in kinds]
        return op

    def save(self, kinds=None):
        r = self.r
        if self.prop == "C10":
            k = "model"
        elif self.prop == "C11":
            k = "tiff"
        else:
            k = r.choice(["cloud", "vox"])
            if self.pick(k) is None:
                k = "vox" if k == "cloud" else "cloud"
        s = self.pick(k)
        if s is None:
            return self.new(k)
        if k == "model":
            o = r.choice(["gltf", "glb", "glb"])
        elif k == "tiff":
            o = "tsave"
        elif k == "cloud":
            o = r.choice(["psave", "psave", "ptext"])
        else:
            o = "vsave"
        d, n = self.where(SAVES[o])
        op = {"op": o, "slot": s, "dir": d, "name": n}
        if o == "tsave":
            op["cls"] = r.choice(["dict", "dict", "rgbd", "rgbdci", "multi"])
            op["near"] = r.choice([None, None, 0.3, 0.05, 1.0, 2.5, r.uniform(0.01, 3), 10 ** r.uniform(-5, 3)])
        if o == "ptext":
            op["color"] = r.choice([None, [1, 2, 3], [0, 128, 255]])
        if kinds == "quota":
            op["quota"] = int(10 ** r.uniform(0, 4.2))
            return op
        return self.fault(op, SAVES[o], kinds, True)

    def again(self, kinds):
        """An object is saved and loaded, and another one of the same outline is saved over it and loaded."""
        r = self.r
        a = self.new(r.choice(kinds))
        b = copy.deepcopy(a)
        for x in b.get("model", []) + [b[k] for k in ("img", "cloud", "vox") if k in b]:
            x["seed"] = r.getrandbits(30)
        o = {"m": r.choice(["gltf", "glb", "glb"]), "t": "tsave", "p": "psave", "v": "vsave"}[a["op"][0]]
        d, n = self.where(SAVES[o], 0.1)
        save = {"op": o, "slot": a["slot"], "dir": d, "name": n}
        load = {"op": [x for x, y in LOADS.items() if y == SAVES[o]][0], "slot": a["slot"][0] + r.choice("ab"), "dir": d, "name": n}
        if o == "tsave":
            save.update(cls="dict", near=r.choice([None, None, 0.3]))
            load["cls"] = r.choice(["dict", "multi"])
        self.slots[load["slot"]] = self.slots[a["slot"]]
        return [a, save, load, b, dict(save), dict(load)]

    def load(self, kinds=None):
        r = self.r
        c = [x for x in self.t if x[0] != "txt"]
        if not c:
            return self.save(kinds)
        k, d, n = r.choice(c)
        o = [a for a, b in LOADS.items() if b == k][0]
        kind = {"gltf": "model", "glb": "model", "tif": "tiff", "ply": "cloud", "h5": "vox"}[k]
        s = kind[0] + r.choice("ab")
        op = {"op": o, "slot": s, "dir": d, "name": n}
        if o == "tload":
            op["cls"] = r.choice(["dict", "dict", "rgbd", "rgbdci", "multi"])
        if o == "vload" and r.random() < 0.4 and self.slots.get(s) == "vox":
            op["into"] = True
        self.slots[s] = kind
        return self.fault(op, "load " + k, kinds, False)

    def conv(self, kinds=None):
        r = self.r
        c = [x for x in self.t if x[0] == "gltf"]
        if not c:
            return self.foreign()
        _, d, n = r.choice(c)
        op = {"op": "conv", "dir": d, "name": n}
        if r.random() < 0.5:
            d2, n2 = self.where("glb", 0.1)
            op["to"] = [d2, n2]
        else:
            self.t.append(("glb", d, n))
        return self.fault(op, "conv", kinds, True)

    def foreign(self):
        r = self.r
        desc = g_foreign(r)
        d, n = self.where("glb" if desc["form"] == "glb" else "gltf", 0)
        return {"op": "foreign", "dir": d, "name": n, "desc": desc}

    def misc(self):
        r = self.r
        if self.prop == "C10":
            s = self.pick("model")
            k = r.random()
            if k < 0.25:
                return {"op": "madd", "slot": s, "mesh": self.mesh()}
            if k < 0.35:
                d = "m" + r.choice("abc")
                self.slots[d] = "model"
                return {"op": "mcopy", "slot": s, "dst": d}
            if k < 0.5:
                self.n += 1
                return {"op": "mcolor", "slot": s, "name": r.choice(["mat%d", "m\u00e4t %d", "x\"%d"]) % self.n,
                        "color": [r.choice([0.0, 1.0, round(r.random(), 3)]) for _ in range(3)],
                        "mr": [r.choice([0.0, 1.0, 0.5, round(r.random(), 3)]) for _ in range(2)]}
            if k < 0.75:
                ms = []
                for _ in range(r.choice([1, 2, 4])):
                    x = r.random()
                    ms.append(None if x < 0.3 else {
                        "color": [r.choice([0.0, 0.0, 1.0, round(r.random(), 3)]) for _ in range(3)],
                        "tex": {"seed": r.getrandbits(20), "h": r.choice([1, 2, 5]), "w": r.choice([1, 3, 4]),
                                "alpha": r.random() < 0.3, "name": r.choice(["t.png", "sub dir/t 1.png", "0.png", "x/y/t"])}
                        if r.random() < 0.6 else None})
                return self.fault({"op": "mupdate", "slot": s, "mats": ms, "dir": self.dir() + "/tx%d" % self.n}, "update",
                                  ["err"] if r.random() < 0.15 else None, False)
            if k < 0.9:
                d = self.pick("model")
                return {"op": "mextract", "slot": s, "dst": d, "k": r.randrange(6)}
            return self.foreign()
        if self.prop == "C12":
            s = self.pick("vox")
            if s and r.random() < 0.6:
                return {"op": "vadd", "slot": s, "seed": r.getrandbits(30), "n": r.choice([1, 2, 20]),
                        "span": r.choice([1, 3, 20, 500]), "bad": r.random() < 0.1}
            c = self.pick("cloud")
            if c:
                return {"op": "padd", "slot": c, "cloud": dict(g_cloud(r), n=r.choice([1, 5]))}
            return self.new("vox")
        return self.new("tiff")


def damages(r, n):
    return [{"t": r.randrange(8), "f": r.randrange(6), "how": r.choice(
        ["trunc", "trunc", "trunc", "empty", "missing", "dir", "zeros", "short4", "swap"]), "at": r.random()} for _ in range(n)]


def gen(prop, seed, faults=None):
    r = random.Random(seed)
    g = Gen(r, prop)
    kinds = {"C10": ["model"], "C11": ["tiff"], "C12": ["cloud", "vox"]}[prop]
    quiet = r.random() < 0.25 and faults is None
    sessions = []
    for k in range(r.choice([1, 1, 2, 2, 3])):
        ops = []
        for _ in range(r.randrange(3, 9)):
            x = r.random()
            if not g.slots:
                ops.append(g.foreign() if prop == "C10" and r.random() < 0.25 else
                           g.load() if g.t and r.random() < 0.5 else g.new(r.choice(kinds)))
                continue
            f = None
            if not quiet:
                f = r.choice([None, None, None, ["short"], ["err"], ["err"], ["torn"], ["err", "short"]])
            if x < 0.1:
                ops.append(g.new(r.choice(kinds)))
            elif x < 0.42:
                if f and r.random() < 0.15:
                    f = "quota"
                ops.append(g.save(f))
            elif x < 0.6:
                ops.append(g.load([q for q in f if q != "torn"] if f else None))
            elif x < 0.68 and prop == "C10":
                ops.append(g.conv(f))
            elif x < 0.74:
                ops += g.again(kinds)
            else:
                ops.append(g.misc())
        if g.slots and not quiet and r.random() < 0.2:
            ops.append(g.save([r.choice(["kill", "killtorn"])]) if prop != "C10" or r.random() < 0.8 else g.conv(["kill"]))
        elif g.slots:
            ops.append(g.save())
        se = {"ops": ops, "cwd": r.choice(["w", "w", "w/sub"])}
        if k and not quiet and r.random() < 0.4:
            se["damage"] = damages(r, r.choice([1, 1, 2]))
        sessions.append(se)
        g.slots = {}
    fin = damages(r, 1) if not quiet and r.random() < 0.25 else []
    return {"prop": prop, "seed": seed & 0xffffffff, "world": "files", "sessions": sessions, "damage": fin}


# ---------------------------------------------------------------- what a simulated process does
class Box:
    """A slot's content: a kind and an object of the code under test."""

    def __init__(self, kind, obj, cls=None):
        self.kind, self.obj, self.cls = kind, obj, cls


def observe(b):
    if b.kind == "model":
        return {"prims": world.observe_model(b.obj)}
    if b.kind == "tiff":
        return ref.canon_tiff(b.obj)
    if b.kind == "cloud":
        return ref.canon_cloud(b.obj.points(), b.obj.colors() if b.obj.colored() else None)
    return world.observe_vox(b.obj)


def tiff_map(obj, cls):
    if cls == "dict":
        return dict(obj)
    if cls == "multi":
        m = {"rgb": obj.rgb, "depth": obj.range, "category": obj.category, "instance": obj.instance}
        return {k: v for k, v in m.items() if v is not None}
    m = {"rgb": obj.rgb, "depth": obj.range}
    if cls == "rgbdci":
        m.update(category=obj.category, instance=obj.instance)
    return m


def tiff_obj(maps, cls):
    """An image object of the class, or None if it cannot hold these pages."""
    from sumo.images.multi_image_tiff import MultiImageTiff
    from sumo.images.rgbd_360 import Rgbd360
    from sumo.images.rgbdci_360 import Rgbdci360
    if cls == "multi":
        return MultiImageTiff(dict(maps))
    if cls == "rgbd" and set(maps) == {"rgb", "depth"}:
        return Rgbd360(maps["rgb"], maps["depth"])
    if cls == "rgbdci" and set(maps) == {"rgb", "depth", "category", "instance"}:
        return Rgbdci360(maps["rgb"], maps["depth"], maps["category"], maps["instance"])
    return None


def fits(cls, pages):
    return cls != "rgbdci" or {"category", "instance"} <= set(pages)


def cloud_of(d):
    from sumo.threedee.point_cloud import PointCloud
    p, c = ref.cloud_arrays(d)
    return PointCloud(p, c) if c is not None else PointCloud(p)


def vadd_points(size, corner, d):
    rs = np.random.RandomState(d["seed"])
    idx = rs.randint(0, d["span"], (d["n"], 3))
    pts = np.array(corner) + (idx + 0.5 + rs.uniform(-0.3, 0.3, idx.shape)) * size
    if d["bad"]:
        i, k = rs.randint(d["n"]), rs.randint(3)
        if rs.randint(2):
            pts[i, k] -= (d["span"] + 1) * size
        else:
            pts[i, k] = corner[k] - size * rs.uniform(0.1, 0.9)         # not even one voxel outside
    return idx, pts


def reader(kind, path):
    try:
        if kind in ("gltf", "glb"):
            return ref.read_model(path)
        if kind == "tif":
            return ref.read_tiff(path)
        if kind == "ply":
            return ref.read_ply(path)
        if kind == "txt":
            return ref.read_text(path)
        return ref.read_vox(path)
    except Exception as e:
        return {"observation_failed": "%s: %s" % (type(e).__name__, str(e).replace(path, "FILE")[:160])}


def proc(env, arg):
    import sumo.images.rgbd_tiff as rgbd_tiff
    from sumo.images.multi_image_tiff import MultiImageTiff
    from sumo.images.rgbd_360 import Rgbd360
    from sumo.images.rgbdci_360 import Rgbdci360
    from sumo.threedee.gltf_model import GltfModel
    from sumo.threedee.glb_converter import gltf2glb
    from sumo.threedee.point_cloud import PointCloud
    from sumo.threedee.voxel_grid import VoxelGrid
    p = st_run.Proc(env, observe)
    S = p.slots
    classes = {"rgbd": Rgbd360, "rgbdci": Rgbdci360, "multi": MultiImageTiff}

    def place(d, n, ext, info, key="target"):
        f = p.path(d)
        os.makedirs(f, exist_ok=True)
        path = os.path.join(f, n + ext)
        t = os.path.normpath(os.path.abspath(path))
        info[key] = t[len(env.root):]
        info["existed" if key == "target" else "existed2"] = os.path.lexists(t)
        return f, path, t

    for i, op in enumerate(arg["ops"]):
        k = op["op"]
        info = {}
        rep = {"i": i, "out": ("ok",), "info": info}
        b = S.get(op.get("slot"))
        touched = [op.get("slot"), op.get("dst")]
        if k == "mnew":
            S[op["slot"]] = Box("model", world.build_model(op["model"]))
        elif k == "tnew":
            S[op["slot"]] = Box("tiff", ref.tiff_arrays(op["img"]))
        elif k == "pnew":
            S[op["slot"]] = Box("cloud", cloud_of(op["cloud"]))
        elif k == "vnew":
            S[op["slot"]] = Box("vox", world.build_vox(op["vox"]))
        elif k == "foreign":
            kind = "glb" if op["desc"].get("form") == "glb" else "gltf"
            f, path, t = place(op["dir"], op["name"], "." + kind, info)
            if info["existed"] or kind == "gltf" and any(x.endswith(".gltf") for x in os.listdir(f)):
                rep["out"] = ("skip",)
            else:
                ref.write_foreign(op["desc"], f, op["name"])
                rep["file"] = reader(kind, t)
        elif k in LOADS:
            kind = LOADS[k]
            f, path, t = place(op["dir"], op["name"], "." + kind, info)
            if k == "vload" and op.get("into") and b is not None and b.kind == "vox":
                v, rep = p.run(i, op, lambda: (b.obj.load(path), b)[1], info)
            elif k in ("lgltf", "lglb"):
                def load():
                    m = getattr(GltfModel, "load_from_" + kind)(path)
                    m.primitive_meshes()
                    return Box("model", m)
                v, rep = p.run(i, op, load, info)
            elif k == "tload":
                def load():
                    c = op["cls"]
                    o = rgbd_tiff.load(path) if c == "dict" else classes[c].load(path)
                    return Box("tiff", tiff_map(o, c))
                v, rep = p.run(i, op, load, info)
            elif k == "pload":
                v, rep = p.run(i, op, lambda: Box("cloud", PointCloud.load_ply(path)), info)
            else:
                v, rep = p.run(i, op, lambda: Box("vox", VoxelGrid.from_file(path)), info)
            if v is not None:
                rep["loaded"] = world.observed(observe, v)
                S[op["slot"]] = v
        elif k == "conv":
            f, path, t = place(op["dir"], op["name"], ".gltf", info, "source")
            if op.get("to"):
                _, out, t2 = place(op["to"][0], op["to"][1], ".glb", info)
            else:
                out = None
                _, _, t2 = place(op["dir"], op["name"], ".glb", info)
            _, rep = p.run(i, op, lambda: gltf2glb(path, out) if out else gltf2glb(path), info)
            if rep["out"][0] == "ok":
                rep["file"] = reader("glb", t2)
        elif b is None or b.kind != {"m": "model", "g": "model", "t": "tiff", "p": "cloud", "v": "vox"}[k[0]]:
            rep["out"] = ("skip",)
        elif k in SAVES:
            kind = SAVES[k]
            f, path, t = place(op["dir"], op["name"], "." + kind, info)
            fn = None
            if k == "gltf":
                def fn():
                    got = b.obj.save_as_gltf(f, op["name"])
                    if os.path.normpath(os.path.abspath(got)) != t:
                        raise AssertionError("save_as_gltf returned %r" % (got,))
            elif k == "glb":
                fn = lambda: b.obj.save_as_glb(path)
            elif k == "tsave":
                o = {"near": op["near"]} if op["near"] is not None else {}
                obj = tiff_obj(b.obj, op["cls"])
                info["cls"] = op["cls"] if obj is not None else "dict"
                fn = (lambda: rgbd_tiff.save(b.obj, path, **o)) if obj is None else (lambda: obj.save(path, **o))
            elif k == "psave":
                fn = lambda: b.obj.write_ply(path)
            elif k == "ptext":
                fn = lambda: b.obj.save(path, np.array(op["color"])) if op["color"] else b.obj.save(path)
            else:
                fn = lambda: b.obj.save(path)
            _, rep = p.run(i, op, fn, info)
            if rep["out"][0] == "ok":
                rep["file"] = reader(kind, t)
        elif k == "mcopy":
            S[op["dst"]] = Box("model", b.obj.deepcopy())
        elif k == "madd":
            b.obj.add_mesh(world.build_mesh(op["mesh"]))
        elif k == "mcolor":
            b.obj.add_colored_material(op["name"], np.array(op["color"]), op["mr"][0], op["mr"][1])
        elif k == "mextract":
            d = S.get(op["dst"])
            if d is None or d.kind != "model":
                rep["out"] = ("skip",)
            else:
                d.obj.add_mesh(b.obj.extract_primitive_mesh(op["k"] % b.obj.num_primitive_meshes()))
        elif k == "mupdate":
            base = p.path(op["dir"])
            ms, texd = [], [m.is_textured() for m in b.obj.primitive_meshes()]
            info["used"] = []
            for q, m in enumerate(op["mats"]):
                if m is None:
                    ms.append(None)
                    info["used"].append(None)
                    continue
                x = m["tex"] if q < len(texd) and texd[q] else None
                uri = ""
                if x:
                    uri = "%d/%s" % (q, x["name"])
                    fp = os.path.join(base, uri)
                    os.makedirs(os.path.dirname(fp), exist_ok=True)
                    with open(fp, "wb") as fh:
                        fh.write(ref.png(ref.tex_pixels(x), x["alpha"], 1))
                ms.append({"color": np.array(m["color"]), "uri": uri})
                info["used"].append([m["color"], x])
            info["dir"] = os.path.abspath(base)[len(env.root):]
            _, rep = p.run(i, op, lambda: b.obj.update_materials(base, ms), info)
        elif k == "vadd":
            _, pts = vadd_points(b.obj.voxel_size, b.obj.min_corner, op)
            _, rep = p.run(i, op, lambda: b.obj.add_points(pts), info)
        elif k == "padd":
            c = dict(op["cloud"], col=b.obj.colored())
            b.obj.append(cloud_of(c))
        p.report(rep, touched, i == len(arg["ops"]) - 1)


# ---------------------------------------------------------------- the reference model
class Judge:
    def __init__(self, plan):
        self.plan = plan
        self.prop = plan["prop"]
        self.viol = []
        self.targets = {}      # path below the root -> {"kind", "ok": [forms], "state", ...}
        self.other = set()     # folders of texture files
        self.stats = {}
        self.nontrivial = False
        self.slots = {}

    def v(self, props, sig, msg):
        for p in props if isinstance(props, (list, tuple)) else [props]:
            self.viol.append((p, sig, msg))

    def count(self, k, n=1):
        if n:
            self.stats[k] = self.stats.get(k, 0) + n

    # forms of what a target may hold: {"model": ...} | {"tiff":, "near":, "only":} | {"cloud":, "color":} | {"vox":}
    def diff(self, kind, form, obs, own, subset=False):
        """Differences of an observation from a form; own: made by the independent reader."""
        if isinstance(obs, dict) and "observation_failed" in obs:
            return [obs["observation_failed"]]
        if kind in ("gltf", "glb"):
            return ref.diff_model(form["model"], obs)
        if kind == "tif":
            near = form["near"]
            if own:
                obs, n2 = obs
                if abs(n2 - near) > 1e-6 * near:
                    return ["near plane %r, not %r" % (n2, near)]
            return ref.diff_tiff(form["tiff"], near, obs, form["only"], subset)
        if kind == "ply":
            return ref.diff_ply(form["cloud"], obs, own)
        if kind == "txt":
            return ref.diff_text(form["cloud"], form["color"], obs)
        return world.diff_vox(form["vox"], obs)

    def best(self, tg, obs, own, only=None, subset=False):
        out, form = None, None
        for f in tg["ok"]:
            g = f
            if only is not None and tg["kind"] == "tif":
                g = dict(f, only=[k for k in only if f["only"] is None or k in f["only"]])
            d = self.diff(tg["kind"], g, obs, own, subset)
            if out is None or len(d) < len(out):
                out, form = d, f
            if not d:
                break
        return out if out is not None else ["nothing was ever saved there"], form

    def start(self):
        self.slots = {}

    def op(self, op, rep, where):
        k, out, info = op["op"], rep["out"], rep["info"]
        hard = soft = False
        if info.get("dir"):
            self.other.add(info["dir"])
        for f, n in zip(op.get("faults") or [], rep.get("fired", [])):
            if n:
                self.nontrivial = True
                self.count("fault.%s %s" % (f["do"], f["on"]), n)
                if f["do"] == "short":
                    soft = True
                else:
                    hard = True
        if rep.get("nospace"):
            hard = self.nontrivial = True
            self.count("fault.disk full", rep["nospace"])
        self.count("op." + k + ("" if out[0] != "exc" else " failed"))
        what = "%s %s" % (where, describe_op(op))
        if out[0] == "exc":
            what += " [%s: %s]" % (out[1][0], out[2][:120])
        owner = self.owner(op)
        if rep.get("escaped"):
            self.v(owner, "escape", what + " changed something outside the folders it was given")
        if "cwd" in rep:
            self.leaks(rep, what, hard)
        if out[0] == "exc" and "Exception" not in out[1]:
            self.v(owner, "exit", what + " ended with an exception that is no error")
        if out[0] == "skip":
            pass
        elif k in SAVES:
            self.save(op, rep, what, hard, soft)
        elif k == "conv":
            self.conv(op, rep, what, hard)
        elif k in LOADS:
            self.load(op, rep, what, hard)
        elif k == "foreign":
            f = {"model": ref.expect_foreign(op["desc"])}
            form = op["desc"].get("form", "gltf")
            kind = "glb" if form == "glb" else "gltf"
            odd = op["desc"].get("odd")
            bad = [] if odd else self.diff(kind, f, rep["file"], True)
            if bad:
                raise RuntimeError("the foreign model differs: %r" % bad)
            self.targets[info["target"]] = {"kind": kind, "ok": [f], "state": "complete", "hard": False, "what": what,
                                            "inside": form == "data"}
            if odd and odd != "colors":                  # must raise or be read as it is meant
                self.targets[info["target"]].update(state="damaged", dmg="made by others: " + odd)
        else:
            self.memory(op, rep, what, hard)
        for name, obs in sorted((rep.get("slots") or {}).items()):
            s = self.slots.get(name)
            if s is None:
                continue
            d = self.slot_diff(s, obs)
            if d:
                self.v({"model": "C10", "tiff": "C11", "cloud": "C12", "vox": "C12"}[s["k"]], "memory-" + k,
                       "after %s the %s in memory %r differs: %s" % (what, s["k"], name, "; ".join(d[:3])))
                self.slots[name] = None
        self.slots = {a: b for a, b in self.slots.items() if b is not None}

    def owner(self, op):
        k = op["op"]
        return OWNER[SAVES.get(k) or LOADS.get(k) or {"v": "h5", "p": "ply", "t": "tif"}.get(k[0], "gltf")]

    def slot_diff(self, s, obs):
        if "observation_failed" in obs:
            return [obs["observation_failed"]]
        if s["k"] == "model":
            return world.diff_model(s["prims"], obs["prims"])
        if s["k"] == "tiff":
            return [] if obs == s["maps"] else ["pages changed"]
        if s["k"] == "cloud":
            return ref.diff_ply(s, obs)
        return world.diff_vox(ref.canon_vox(s["size"], s["corner"], s["set"]), obs)

    def memory(self, op, rep, what, hard):
        k, out = op["op"], rep["out"]
        S = self.slots
        s = S.get(op.get("slot"))
        if k == "mnew":
            S[op["slot"]] = {"k": "model", "prims": [dict(c, factor=None) for c in world.expect_model(op["model"])[0]], "mats": {}}
        elif k == "tnew":
            S[op["slot"]] = {"k": "tiff", "maps": ref.canon_tiff(ref.tiff_arrays(op["img"])), "lay": bool(op["img"].get("lay"))}
        elif k == "pnew":
            p, c = ref.cloud_arrays(op["cloud"])
            S[op["slot"]] = dict(ref.canon_cloud(p, c), k="cloud", carr=c.tolist() if c is not None else None)
        elif k == "vnew":
            size, corner, _, idx = world.voxel_arrays(op["vox"])
            S[op["slot"]] = {"k": "vox", "size": size, "corner": [float(x) for x in corner], "set": set(map(tuple, idx))}
        elif s is None:
            S.pop(op.get("dst"), None)
        elif k == "mcopy":
            S[op["dst"]] = copy.deepcopy(s)
        elif k == "madd":
            s["prims"] = s["prims"] + [dict(c, factor=None) for c in world.expect_model([op["mesh"]])[0]]
        elif k == "mcolor":
            s["mats"] = dict(s["mats"], **{op["name"]: [op["color"] + [1.0]] + op["mr"]})
        elif k == "mextract":
            d = S.get(op["dst"])
            if d is not None:
                d["prims"] = d["prims"] + [dict(s["prims"][op["k"] % len(s["prims"])])]
        elif k == "mupdate":
            if out[0] == "exc":
                if not hard:
                    self.v("C10", "memory-op", what + " failed without a fault")
                S.pop(op["slot"])
                return
            for q, u in enumerate(rep["info"]["used"]):
                if u is None or q >= len(s["prims"]):
                    continue
                c = dict(s["prims"][q])
                if any(u[0]):
                    c["factor"] = u[0] + [1.0]
                if u[1]:
                    c["bc"] = world.h(ref.tex_pixels(u[1]))
                s["prims"][q] = c
        elif k == "vadd":
            if op["bad"]:
                if out[0] == "ok":
                    self.v("C12", "memory-op", what + " accepted a point below the corner")
                    S.pop(op["slot"])
                elif "ValueError" not in out[1]:
                    self.v("C12", "memory-op", what + " raised an undocumented exception")
            elif out[0] == "exc":
                self.v("C12", "memory-op", what + " failed")
            else:
                idx, _ = vadd_points(s["size"], s["corner"], op)
                s["set"] = s["set"] | set(map(tuple, idx.tolist()))
        elif k == "padd":
            p, c = ref.cloud_arrays(dict(op["cloud"], col=s["c"] is not None))
            p0 = ref.unpack(s["p"])
            carr = np.hstack([np.array(s["carr"], np.uint8), c]) if c is not None else None
            S[op["slot"]] = dict(ref.canon_cloud(np.hstack([p0, p]), carr), k="cloud",
                                 carr=carr.tolist() if carr is not None else None)

    def leaks(self, rep, what, hard):
        if rep["cwd"][0] != rep["cwd"][1]:
            self.v("C16", "cwd", "%s changed the working directory from %s to %s" % (what, *rep["cwd"]))
        cleanup = any(c in ("unlink", "rmdir", "list", "stat", "close") or c == "openr" and os.path.basename(p) in rep["tmp"]
                      for c, a, p in rep["acted"])
        if rep["tmp"] and not cleanup and not rep["logfull"]:
            self.v("C16", "temp", "%s left temporary files behind: %s" % (what, rep["tmp"][:3]))
        if rep["fds"] and not (hard and all(f.endswith(".h5") for f in rep["fds"])):
            self.v("C16", "fd", "%s left files open: %s" % (what, rep["fds"][:3]))

    def form(self, op, rep):
        s = self.slots.get(op["slot"])
        if s is None:
            return None
        if s["k"] == "model":
            return {"model": {"prims": copy.deepcopy(s["prims"]), "mats": dict(s["mats"])}}
        if s["k"] == "tiff":
            near = op["near"] if op["near"] is not None else 0.3
            return {"tiff": s["maps"], "near": float(np.float32(near)), "only": None}
        if s["k"] == "cloud":
            return {"cloud": {"p": s["p"], "c": s["c"]}, "color": op.get("color") or [255, 255, 255]}
        return {"vox": ref.canon_vox(s["size"], s["corner"], s["set"])}

    def put(self, t, kind, form, rep, what, hard, existed):
        """Records what a save (or conversion) did to target t; form None: content unknown."""
        own = OWNER[kind]
        old = self.targets.get(t)
        ok = rep["out"][0] == "ok"
        mates = []
        if kind == "gltf":
            mates = [x for x, g in self.targets.items() if x != t and g["kind"] == "gltf" and os.path.dirname(x) == os.path.dirname(t)]
        if ok:
            forms = form if isinstance(form, list) else [form] if form is not None else []
            n = {"kind": kind, "ok": forms, "state": "complete" if forms else "any", "hard": hard, "what": what}
        elif old and old["state"] == "damaged" and old.get("dirs"):
            n = old
        else:
            forms = (form if isinstance(form, list) else [form] if form is not None else [])
            n = {"kind": kind, "ok": forms + (old["ok"] if old else []), "state": "failed", "what": what}
            if (kind == "gltf" and existed) or not forms or old and old["state"] == "any":
                n["state"] = "any"
        self.targets[t] = n
        if mates:
            n["shared"] = True
            for x in mates:
                self.targets[x]["shared"] = True
        if ok and n["state"] == "complete":
            d, _ = self.best(n, rep["file"], True)
            if d:
                self.v(own, "shared-folder" if n.get("shared") else "lost" if hard else "wrong-file",
                       "%s reported success, but the file is wrong: %s" % (what, "; ".join(d[:3])))
                n["state"] = "any"

    def blocked(self, t):
        """Damage put a folder where files of t go."""
        return any(g.get("dirs") and (x == t or os.path.dirname(x) == os.path.dirname(t)) for x, g in self.targets.items())

    def save(self, op, rep, what, hard, soft):
        t, out, kind = rep["info"]["target"], rep["out"], SAVES[op["op"]]
        s = self.slots.get(op["slot"])
        if out[0] == "exc" and s is not None and s.get("lay") and "ValueError" in out[1]:
            return                              # images that are not contiguous may be refused, before anything is written
        if out[0] == "exc" and not hard and not self.blocked(t) and s is not None and not s.get("lossy"):
            self.v(OWNER[kind], "save-failed", "%s failed without a fault" % what)
        self.put(t, kind, self.form(op, rep), rep, what, hard, rep["info"]["existed"])

    def conv(self, op, rep, what, hard):
        t, src, out = rep["info"]["target"], rep["info"]["source"], rep["out"]
        s = self.targets.get(src)
        if out[0] == "exc":
            if s and s["state"] == "complete" and not hard and not s.get("shared") and not self.blocked(t) \
                    and not s.get("inside"):             # gltf2glb does not take data URIs: it says so
                self.v("C10", "save-failed", "%s failed without a fault" % what)
            if s is None and not rep["info"]["existed"]:
                return
            self.put(t, "glb", list(s["ok"]) if s and s["state"] != "any" else None, rep, what, hard, rep["info"]["existed"])
            return
        if s is None or not s["ok"] and s["state"] != "any":
            self.v("C10", "wrong-file", "%s succeeded although there was no source" % what)
            return
        self.put(t, "glb", list(s["ok"]) if s["state"] == "complete" and not s.get("shared") else None, rep, what, hard,
                 rep["info"]["existed"])
        if s.get("shared"):
            self.targets[t]["shared"] = True
        if s["state"] in ("damaged", "failed", "crashed"):
            # converted from a broken source: loading it must fail or give the model
            self.targets[t].update(ok=list(s["ok"]), state="damaged", dmg="converted from a %s source (%s)" %
                                   (s["state"], s.get("dmg") or s["what"]))

    def load(self, op, rep, what, hard):
        t, out, kind = rep["info"]["target"], rep["out"], LOADS[op["op"]]
        own = OWNER[kind]
        tg = self.targets.get(t)
        slot = op["slot"]
        prev = self.slots.get(slot)
        only = None
        if kind == "tif":
            only = {"dict": None, "multi": None, "rgbd": ["rgb", "depth"],
                    "rgbdci": ["rgb", "depth", "category", "instance"]}[op["cls"]]
        if out[0] == "ok":
            if tg and tg["state"] == "any":
                self.slots[slot] = None
                return
            if tg is None and rep["info"]["existed"]:
                self.slots[slot] = None
                return
            sub = kind == "tif" and tg is not None and tg["state"] in ("failed", "crashed", "damaged")
            d, form = self.best(tg or {"ok": [], "kind": kind}, rep["loaded"], False, only, sub)
            if d:
                msg = "%s: %s" % (what, "; ".join(d[:3]))
                if tg and tg.get("shared"):
                    self.v(own, "shared-folder", msg)
                elif tg is None or tg["state"] == "damaged" or hard:
                    self.v(own, "wrong-load", msg + (" (damaged: %s)" % tg.get("dmg") if tg else ""))
                elif tg["state"] == "complete":
                    self.v(own, "lost" if tg.get("hard") else "round-trip", "%s; %s" % (tg["what"], msg))
                else:
                    self.v(own, "partial", "after %s (%s): %s" % (tg["what"], tg["state"], msg))
                self.slots[slot] = None
                return
            obs = rep["loaded"]
            if kind in ("gltf", "glb"):
                self.slots[slot] = {"k": "model", "prims": copy.deepcopy(form["model"]["prims"]), "mats": dict(form["model"]["mats"])}
                if hard:                                   # an image that no mesh uses may be missing
                    self.slots[slot]["lossy"] = True
                if tg["state"] in ("damaged", "crashed", "failed"):
                    # which of the unreferenced materials survived is open
                    self.slots[slot] = None
            elif kind == "tif":
                self.slots[slot] = {"k": "tiff", "maps": obs}
            elif kind == "ply":
                self.slots[slot] = {"k": "cloud", "p": obs["p"], "c": None, "carr": None}
            else:
                v = form["vox"]
                self.slots[slot] = {"k": "vox", "size": v["size"], "corner": v["corner"], "set": set(map(tuple, v["_set"]))}
            return
        # failed
        if prev is not None and not op.get("into"):
            pass                                           # the slot still holds what it held
        if tg and tg["state"] == "complete" and not hard and not tg.get("shared"):
            if kind == "tif" and not all(fits(op["cls"], {"rgb", "depth"} | set(f["tiff"])) for f in tg["ok"]):
                return                                     # the class wants pages the file does not have
            self.v(own, "lost" if tg.get("hard") else "load-failed", "%s failed without a fault; saved by %s" % (what, tg["what"]))

    def died(self, op, info, res, where):
        """The process died during op."""
        t = info.get("target")
        k = op["op"]
        what = "%s %s" % (where, describe_op(op))
        for f in op.get("faults") or []:
            self.count("fault.%s %s" % (f["do"], f["on"]))
        if k in SAVES or k == "conv":
            kind = SAVES.get(k, "glb")
            old = self.targets.get(t)
            if k == "conv":
                s = self.targets.get(info["source"])
                forms = list(s["ok"]) if s and s["state"] != "any" else []
            else:
                f = self.form(op, None)
                forms = [f] if f is not None else []
            if old and old["state"] == "damaged" and old.get("dirs"):
                return
            n = {"kind": kind, "ok": forms + (old["ok"] if old else []), "state": "crashed", "what": what}
            if (kind == "gltf" and info.get("existed")) or not forms or old and old["state"] == "any":
                n["state"] = "any"
            self.targets[t] = n
            if kind == "gltf":
                for x, g in self.targets.items():
                    if x != t and g["kind"] == "gltf" and os.path.dirname(x) == os.path.dirname(t):
                        g["shared"] = n["shared"] = True

    def ended(self, ops, res, last, where):
        if res.end == "ok":
            return
        op = ops[last] if last is not None else None
        what = "%s %s" % (where, describe_op(op) if op else "(start)")
        if res.end == "killed":
            self.nontrivial = True
            self.count("fault.process killed")
            return
        self.v(self.owner(op) if op else self.prop, "process-death", "%s: the process ended with %s" % (what, res.end))


def describe_op(op):
    k = op["op"]
    t = k
    if op.get("slot"):
        t += " " + op["slot"]
    if "dst" in op:
        t += " -> " + op["dst"]
    if "name" in op and "dir" in op:
        t += " %s/%s" % (op["dir"], op["name"])
    if op.get("to"):
        t += " to %s/%s" % tuple(op["to"])
    for a in ("cls", "near", "k", "into"):
        if op.get(a) is not None:
            t += " %s=%s" % (a, op[a])
    if op.get("faults"):
        t += " under " + ", ".join("%s(%s %s#%d%s)" % (f["do"], errno.errorcode.get(f["err"], "") if "err" in f else "",
                                                       f["on"], f["nth"], "+%d" % f["len"] if f.get("len", 1) > 1 else "")
                                   for f in op["faults"])
    if op.get("quota", -1) >= 0:
        t += " with %d bytes of disk space" % op["quota"]
    return t


# ---------------------------------------------------------------- disk
def members(root, t, kind):
    """Files that belong to target t."""
    p = root + t
    if kind != "gltf":
        return [p]
    d = os.path.dirname(p)
    stem = os.path.basename(p)[:-5]
    try:
        fs = sorted(os.listdir(d))
    except OSError:
        return []
    return [os.path.join(d, f) for f in fs if f == stem + ".gltf" or f.startswith(stem) and f.endswith(".bin") or f.endswith(".png")]


def snap(root, targets):
    out = {}
    for t, g in targets.items():
        c = {}
        for f in members(root, t, g["kind"]):
            if os.path.isfile(f):
                with open(f, "rb") as fh:
                    c[f[len(root):]] = world.hashlib.sha256(fh.read()).hexdigest()[:16]
            elif os.path.isdir(f):
                c[f[len(root):]] = "dir"
        out[t] = c
    return out


def damage(root, j, d):
    ts = sorted(t for t, g in j.targets.items() if g["state"] in ("complete", "damaged") and g["kind"] != "txt")
    if not ts:
        return None
    t = ts[d["t"] % len(ts)]
    g = j.targets[t]
    fs = [f for f in members(root, t, g["kind"]) if os.path.isfile(f)]
    if not fs:
        return None
    p = fs[d["f"] % len(fs)]
    how = d["how"]
    n = os.path.getsize(p)
    if how == "trunc":
        os.truncate(p, int(n * d["at"]))
    elif how == "short4":
        os.truncate(p, max(0, n - 1 - int(d["at"] * 16)))
    elif how == "empty":
        os.truncate(p, 0)
    elif how == "missing":
        os.remove(p)
    elif how == "dir":
        os.remove(p)
        os.mkdir(p)
        g["dirs"] = True
    elif how == "zeros":
        if p.endswith(".bin"):
            return None                 # zeros are numbers like others
        with open(p, "wb") as fh:
            fh.write(b"\0" * n)
    elif how == "swap":
        with open(p, "wb") as fh:
            fh.write(random.Random(int(d["at"] * 1e6)).choice([b"<html>404</html>", b"PK\x03\x04junk", b"\x89HDF\r\n\x1a\n", b"{}",
                                                                  b"glTF\x02\0\0\0", b"II*\0\x08\0\0\0", b"ply\nformat ascii 1.0\n"]))
    if g["state"] == "complete" and n == (os.path.getsize(p) if os.path.isfile(p) else -1) and how in ("trunc", "short4", "empty"):
        return None
    g["state"] = "damaged"
    g["dmg"] = "%s of %s (%d bytes)" % (how, os.path.basename(p), n)
    j.nontrivial = True
    j.count("fault.damage " + how)
    return "%s: %s" % (t, g["dmg"])


def strays(root, j):
    own = set()
    for t, g in j.targets.items():
        own.update(x[len(root):] for x in members(root, t, g["kind"]))
        own.add(t)
    out = []
    for base, dirs, files in os.walk(root + "/w"):
        rel = base[len(root):]
        if any(rel == o or rel.startswith(o + "/") for o in j.other):
            continue
        for f in files:
            if "%s/%s" % (rel, f) not in own:
                out.append("%s/%s" % (rel, f))
    return sorted(out)


def execute(plan, scratch):
    root = st_sim.fresh(scratch)
    j = Judge(plan)
    parts, traces = [], []
    sessions = list(plan["sessions"])
    n = len(sessions)
    k = 0
    while k <= n:
        if k == n:
            sessions.append(final(plan, j))
        se = sessions[k]
        where = "life %d:" % (k + 1)
        for d in (se.get("damage") or []) if k < n else (plan.get("damage") or []):
            x = damage(root, j, d)
            if x:
                traces.append("  damage %s" % x)
        before = snap(root, j.targets)
        j.start()
        cwd = se.get("cwd", "w")
        if not os.path.isdir(os.path.join(root, cwd)):
            cwd = "w"
        res = st_sim.session(root, proc, se, seed=plan["seed"] + k, cwd=cwd)
        traces.append("life %d (%s): %s" % (k + 1, cwd, res.end))
        last, pend = None, {}
        written = set()
        nv = len(j.viol)
        for m in res.msgs:
            if m[0] == "start":
                last, pend = m[1], m[2]
            elif m[0] == "op":
                rep = m[1]
                last = None
                op = se["ops"][rep["i"]]
                nv = len(j.viol)
                if rep["out"][0] != "skip" and (op["op"] in SAVES or op["op"] in ("conv", "foreign")):
                    written.add(rep["info"]["target"])
                j.op(op, rep, where)
                traces.append("  %s -> %s%s" % (describe_op(op), " ".join(map(str, rep["out"][:1])),
                                                "" if rep["out"][0] != "exc" else " %s: %s" % (rep["out"][1][0], rep["out"][2][:100])))
                parts.append((rep["out"][:2], rep.get("acted"), rep.get("slots"), rep.get("nops"), rep.get("file"), rep.get("loaded")))
                for x in j.viol[nv:]:
                    traces.append("  !! %s %s: %s" % tuple(x))
        nv = len(j.viol)
        if last is not None:
            op = se["ops"][last]
            traces.append("  %s -> died: %s" % (describe_op(op), res.end))
            if pend.get("target"):
                written.add(pend["target"])
            if op["op"] == "mupdate":
                j.other.add(pend["dir"])
            j.died(op, pend, res, where)
        j.ended(se["ops"], res, last, where)
        after = snap(root, j.targets)
        mine = set()
        for t in written:
            if t in j.targets:
                mine.update(x[len(root):] for x in members(root, t, j.targets[t]["kind"]))
        for t, c in sorted(before.items()):
            if t in written or j.targets[t].get("shared"):
                continue
            a = {x: y for x, y in after.get(t, {}).items() if x not in mine}
            c = {x: y for x, y in c.items() if x not in mine}
            if a != c:
                j.v(OWNER[j.targets[t]["kind"]], "disk-changed", "%s changed %s (%s): %s" % (where, t, j.targets[t]["what"], dif(c, a)))
        extra = strays(root, j)
        if extra:
            j.v("C16", "strays", "%s left files that belong to nothing: %s" % (where, extra[:3]))
        if res.end == "killed":
            for f in os.listdir(root + "/tmp"):
                shutil.rmtree(os.path.join(root, "tmp", f), ignore_errors=True)
        for x in j.viol[nv:]:
            traces.append("  !! %s %s: %s" % tuple(x))
        parts.append((res.end, res.nops, res.counts, res.log))
        j.count("sessions")
        j.count("calls", res.nops)
        k += 1
    seen, viol = set(), []
    for x in j.viol:
        if x not in seen:
            seen.add(x)
            viol.append(x)
    return {"violations": viol, "hash": st_sim.digest(parts), "stats": j.stats, "nontrivial": j.nontrivial, "traces": traces}


def final(plan, j):
    """A last, undisturbed process life that loads everything and converts every model."""
    ops = []
    for i, (t, g) in enumerate(sorted(j.targets.items())):
        d, nm = os.path.split(t)
        nm, ext = os.path.splitext(nm)
        ext = g["kind"]
        o = [a for a, b in LOADS.items() if b == ext]
        if o:
            op = {"op": o[0], "slot": "s%d" % i, "dir": "$W" + d[2:], "name": nm}
            if ext == "tif":
                op["cls"] = ["dict", "rgbd", "multi", "rgbdci"][i % 4]
            ops.append(op)
        if ext == "gltf" and i % 2 == 0:
            ops.append({"op": "conv", "dir": "$W" + d[2:], "name": nm, "to": ["$W/out", "c%d" % i]})
            ops.append({"op": "lglb", "slot": "s%d" % i, "dir": "$W/out", "name": "c%d" % i})
    return {"ops": ops, "cwd": "w"}


def freeze(plan, res):
    return plan


def shrinks(plan):
    def with_(ss, **kw):
        return dict(plan, sessions=ss, **kw)
    ss = plan["sessions"]
    if plan.get("damage"):
        yield with_(ss, damage=[])
    for i in range(len(ss)):
        if len(ss) > 1:
            yield with_(ss[:i] + ss[i + 1:])
    for i, s in enumerate(ss):
        for q in range(len(s.get("damage") or [])):
            yield with_(ss[:i] + [dict(s, damage=s["damage"][:q] + s["damage"][q + 1:])] + ss[i + 1:])
        for q in range(len(s["ops"])):
            yield with_(ss[:i] + [dict(s, ops=s["ops"][:q] + s["ops"][q + 1:])] + ss[i + 1:])
        for q, o in enumerate(s["ops"]):
            def rep(o2):
                return with_(ss[:i] + [dict(s, ops=s["ops"][:q] + [o2] + s["ops"][q + 1:])] + ss[i + 1:])
            if o.get("faults"):
                yield rep({k: v for k, v in o.items() if k != "faults"})
                for z, f in enumerate(o["faults"]):
                    if len(o["faults"]) > 1:
                        yield rep(dict(o, faults=o["faults"][:z] + o["faults"][z + 1:]))
                    if f.get("len", 1) > 1:
                        yield rep(dict(o, faults=o["faults"][:z] + [dict(f, len=1)] + o["faults"][z + 1:]))
                    if f["nth"] > 1:
                        for m in sorted({1, f["nth"] // 2, f["nth"] - 1}):
                            yield rep(dict(o, faults=o["faults"][:z] + [dict(f, nth=m)] + o["faults"][z + 1:]))
            if o["op"] == "mnew":
                ms = o["model"]
                for z, m in enumerate(ms):
                    if len(ms) > 1:
                        yield rep(dict(o, model=ms[:z] + ms[z + 1:]))
                    s2 = dict(m, nv=min(m["nv"], 3), nt=1, flat=False, scale=1.0, off=0.0, bc=[1, 2], mr=[1, 1])
                    if s2 != m:
                        yield rep(dict(o, model=ms[:z] + [s2] + ms[z + 1:]))
            if o["op"] == "foreign":
                d = o["desc"]
                for z, m in enumerate(d["prims"]):
                    if len(d["prims"]) > 1:
                        yield rep(dict(o, desc=dict(d, prims=d["prims"][:z] + d["prims"][z + 1:])))
                for a, b in (("buffers", 1), ("group", 1), ("pad", 0), ("alpha", False), ("names", "%d.png"), ("first", 0),
                             ("stride", False), ("aoff", False)):
                    if d.get(a, b) != b:
                        yield rep(dict(o, desc=dict(d, **{a: b})))
            if o["op"] == "tnew" and (o["img"]["h"], o["img"]["w"]) != (1, 1):
                yield rep(dict(o, img=dict(o["img"], h=1, w=1)))
                yield rep(dict(o, img=dict(o["img"], h=3, w=4)))
            if o.get("quota", -1) >= 0:
                yield rep({k: v for k, v in o.items() if k != "quota"})


def describe(plan, res):
    return res["traces"]


def init():
    import mimetypes
    mimetypes.init()
    import h5py  # noqa
    import cv2
    cv2.setNumThreads(1)
    import sumo.images.multi_image_tiff  # noqa
    import sumo.images.rgbd_360  # noqa
    import sumo.images.rgbdci_360  # noqa
    import sumo.threedee.gltf_model  # noqa
    import sumo.threedee.point_cloud  # noqa
    import sumo.threedee.voxel_grid  # noqa


COMPONENTS = {
    "real": ["sumo.threedee (GltfModel, meshes, GLB converter, point clouds, PLY, voxel grids), sumo.images (TIFF readers and writers, "
             "RGB-D classes), sumo.geometry.inverse_depth, sumo.opencv wrappers",
             "tiny_gltf, tinyply, stb_image, libtiff, OpenCV codecs, HDF5 as built from /repo and installed", "directory tree on tmpfs"],
    "stub": ["outcome of every file system call (errors, short and torn transfers, disk full, death of the process)",
             "temporary file names", "random streams", "process lives (fork; nothing but the files survives)"]}
ASSUMPTIONS = [
    "a killed process leaves exactly the effects of the system calls made before; loss of unsynced pages (power loss) is not simulated",
    "one process uses a file at a time", "memory allocation does not fail",
    "models hold at least one mesh, meshes at least one triangle, clouds and grids at least one point",
    "glTF files of others keep their images beside them as 3- or 4-channel PNG and their names hold no backslash",
    "damage covers truncation, loss, replacement and read errors, not flipped bits (the formats have no checksums)"]
_R = "a run is a history of up to three process lives generated from the seed, plus a last undisturbed life that loads everything; "
RULES = {
    "C10": _R + "models are built, loaded from own and foreign files, edited, saved as glTF and GLB, converted; non-trivial: a fault, "
                "kill or damage took effect",
    "C11": _R + "images of all classes; non-trivial: a fault, kill or damage took effect",
    "C12": _R + "point clouds and voxel grids; non-trivial: a fault, kill or damage took effect"}

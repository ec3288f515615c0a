"""Histories of poses, RGB-D images and category color tables in one process.

Decides C21.  A run is a history of operations on several objects; freed memory is overwritten at once, returned arrays are
overwritten by the caller, poses and images are edited in place, color tables are read under a fault-injecting seam.  After
every operation every living object is compared with a reference model of plain arrays.
"""
import ctypes
import json
import math
import os
import random

import numpy as np

from . import st_run, st_sim, world

PROPS = ("C21",)
NAMES = "abcdef"
F4, U2 = np.float32, np.uint16
ENU = np.array([[1, 0, 0], [0, 0, -1], [0, 1, 0]], float).T
MAYA = np.diag([1.0, -1, -1])


# ---------------------------------------------------------------- contents
def g_new_pose(r):
    how = r.choice(["default", "default", "t", "R", "full", "matrix", "camera", "camera", "axes", "columns"])
    return {"how": how, "pose": world.g_pose(r), "maya": r.random() < 0.5, "at": r.random() < 0.4,
            "rpy": [r.choice([0.0, r.uniform(-3, 3)]) for _ in range(3)]}


def g_image(r):
    n = r.choice([0, 1, 1, 2, 2, 3, 4, 7])
    k = r.random()
    shape = [n, 6 * n] if k < 0.75 else [n, r.randrange(0, 6 * n + 1)] if k < 0.85 else [n, 6 * n + r.choice([1, 2, 9])]
    return {"seed": r.getrandbits(30), "shape": shape, "other": shape if r.random() < 0.92 else [shape[0] + 1, shape[1]],
            "layout": r.choice(["c", "c", "c", "f", "crop", "flip"]), "kind": r.choice(["rgbdci", "rgbdci", "rgbd"])}


def image_arrays(d):
    rs = np.random.RandomState(d["seed"])
    h, w = d["shape"]
    a, b = d["other"]
    rgb = rs.randint(0, 256, (h, w, 3)).astype(np.uint8)
    rng = (rs.uniform(0.05, 30, (a, b)) * 10.0 ** rs.randint(-1, 4)).astype(F4)
    for val in (0.0, np.inf, -1.0, np.nan, 1e-30, 1e30):
        rng[rs.uniform(size=(a, b)) < 0.06] = val
    return {"rgb": rgb, "range": rng, "category": rs.randint(0, 65536, (a, b)).astype(U2),
            "instance": rs.randint(0, 65536, (a, b)).astype(U2)}


def laid(a, how):
    """A new array with the values of <a>, laid out as <how>."""
    if how == "f":
        return np.asfortranarray(a)
    if how == "crop":
        big = np.zeros([n + 2 if i < 2 else n for i, n in enumerate(a.shape)], a.dtype)
        v = big[1:-1, 1:-1]
        v[...] = a
        return v
    if how == "flip":
        return a[::-1].copy()[::-1]
    return a.copy()


WORDS = ["wall", "floor", "chair", "tv stand", "stühle", "x,y", 'say "no"', "", "1", "empty"]


def g_table(r):
    n = r.choice([1, 1, 2, 3, 10, 60, 700])
    rs = random.Random(r.getrandbits(30))
    rows = [["%s%s" % (rs.choice(WORDS), i if rs.random() < 0.9 else ""), rs.random() < 0.5, [rs.randrange(256) for _ in range(3)]]
            for i in range(n)]
    return {"rows": rows, "eol": r.choice(["\n", "\r\n"]), "last": r.random() < 0.7}


def csv_of(t, bad=None):
    def q(s):
        return '"%s"' % s.replace('"', '""') if any(c in s for c in ',"\n') else s
    rows = ["id,category,is_evaluated,color"]
    if bad:
        bad = [int(bad[0] * len(t["rows"])), bad[1]]
    for i, (name, ev, c) in enumerate(t["rows"]):
        if bad and i == bad[0]:             # a color that is none
            rows.append("%d,%s,%s,%s" % (i, q(name), ev, bad[1]))
            continue
        rows.append("%d,%s,%s,%d;%d;%d" % (i, q(name), ev, c[0], c[1], c[2]))
    return t["eol"].join(rows) + (t["eol"] if t["last"] else "")


def g_fault(r):
    do = r.choice(["err", "err", "short", "eintr"])
    f = {"on": r.choice(["openr", "read", "any"]), "do": do, "nth": r.choice([1, 1, 2, 3]), "len": r.choice([1, 1, 2, 99])}
    if do == "eintr":
        f["do"], f["err"], f["len"] = "err", 4, r.choice([1, 2])
    elif do == "err":
        f["err"] = r.choice([5, 12, 23, 24, 13])
    else:
        f["frac"] = r.choice([1, 64, 128, 200])
        f["on"] = "read"
    return f


def gen(prop, seed):
    r = random.Random(seed)
    kinds, ops = {}, []
    tied = set()        # poses that may share their rotation with another one (an inverse)

    def slot(k):
        c = sorted(s for s, x in kinds.items() if x == k)
        return r.choice(c) if c else None

    for _ in range(r.randrange(6, 30)):
        new = r.choice(NAMES)
        p, g, t, c = slot("P"), slot("I"), slot("L"), slot("C")
        todo = [("pose", 4), ("image", 3), ("table", 2), ("depth", 2)]
        if p:
            todo += [("compose", 3), ("inverse", 2), ("shift", 4)] + [("turn", 2)] * (p not in tied)
            todo += [("apply", 3), ("json", 2), ("surreal", 2), ("xml", 2), ("matrix", 1)]
        if g:
            todo += [("cloud", 4), ("paint", 2)]
        if c:
            todo += [("cpoke", 1), ("crange", 1)]
        if t:
            todo += [("color", 3), ("recolor", 3), ("lut", 1)]
        if kinds:
            todo += [("drop", 1)]
        k = r.choices([x for x, _ in todo], [w for _, w in todo])[0]
        o = {"op": k}
        if k in ("pose", "compose", "json", "surreal", "xml"):
            tied.discard(new)
        if k == "pose":
            o.update(dst=new, new=g_new_pose(r))
            kinds[new] = "P"
        elif k == "image":
            o.update(dst=new, image=g_image(r))
            kinds[new] = "I"
        elif k == "table":
            # "keep": whatever an earlier operation left under that name is read
            o.update(dst=new, table=g_table(r), file=r.choice([0, 0, 1]), there=r.choice([True] * 6 + ["keep"] * 3 + [False]))
            if r.random() < 0.2:
                o["bad"] = [r.random(), r.choice(["", "red", "1;x;3", "1;;3", "1.5;2;3"])]
            if r.random() < 0.4:
                o["faults"] = [g_fault(r) for _ in range(r.choice([1, 1, 2]))]
            kinds[new] = "L"
        elif k == "depth":
            o.update(bits=r.choice([8, 16, 16]), back=r.random() < 0.5, one=r.random() < 0.3, seed=r.getrandbits(30),
                     near=r.choice([None, None, 0.3, 1.0, 0.05, 7.5]), shape=[r.choice([0, 1, 2, 5]), r.choice([1, 3, 8])],
                     layout=r.choice(["c", "f", "crop", "flip"]))
        elif k == "compose":
            o.update(slot=p, other=slot("P"), dst=new)
            kinds[new] = "P"
        elif k in ("inverse", "json", "surreal", "xml"):
            o.update(slot=p, dst=new)
            if k == "surreal":
                o["scale"] = r.choice([1, 1, 2.0, 0.125, 3.7])
            kinds[new] = "P"
            if k == "inverse":
                tied |= {p, new}
        elif k == "turn":
            o.update(slot=p, angle=r.uniform(-3, 3))
        elif k == "shift":
            o.update(slot=p, by=[r.choice([0.0, 1.0, r.uniform(-10, 10)]) for _ in range(3)])
        elif k == "apply":
            o.update(slot=p, how=r.choice(["from", "to", "*", "all_from", "all_to", "*n", "R", "unR"]), seed=r.getrandbits(30),
                     n=r.choice([0, 1, 2, 3, 9]))
        elif k == "matrix":
            o.update(slot=p)
        elif k == "cloud":
            o.update(slot=g, dst=new, all=r.random() < 0.4)
            kinds[new] = "C"
        elif k == "paint":
            o.update(slot=g, seed=r.getrandbits(30))
        elif k in ("cpoke", "crange"):
            o.update(slot=c)
        elif k == "color":
            o.update(slot=t, id=r.choice([0, 1, 2, "n", "n-1", "n+1", -1, "name", "name", "no name"]), at=r.random())
        elif k == "recolor":
            o.update(slot=t, seed=r.getrandbits(30), shape=[r.choice([0, 1, 4]), r.choice([1, 5])], over=r.random() < 0.2,
                     dtype=r.choice(["u2", "u2", "i8", "u1"]))
        elif k == "lut":
            o.update(slot=t)
        elif k == "drop":
            s = r.choice(sorted(kinds))
            o.update(slot=s)
            kinds.pop(s)
        ops.append(o)
    return {"prop": prop, "seed": seed & 0xffffffff, "world": "values", "ops": ops, "fill": r.choice([0, 1, 0x5a, 0xff])}


# ---------------------------------------------------------------- what a simulated process does
def raw(x):
    n = type(x).__name__
    if n == "Pose3":
        return {"k": "P", "R": np.array(x.R.matrix(), float), "t": np.array(x.t, float)}
    if n in ("Rgbd360", "Rgbdci360"):
        out = {"k": "I", "cls": n}
        for f in ("rgb", "range", "category", "instance"):
            if hasattr(x, f):
                out[f] = np.array(getattr(x, f), order="C")
        return out
    if n == "PointCloud":
        return {"k": "C", "p": np.array(x.points()), "c": np.array(x.colors()), "n": x.num_points()}
    if n == "ColoredCategory":
        return {"k": "L", "lut": np.array(x.LUT)}
    return {"k": n}


def points_of(o):
    rs = np.random.RandomState(o["seed"])
    one = o["how"] in ("from", "to", "*")
    return rs.uniform(-10, 10, 3) if one else rs.uniform(-10, 10, (3, o["n"]))


def depth_values(o):
    rs = np.random.RandomState(o["seed"])
    sh = [1, 1] if o["one"] else o["shape"]
    if o["back"]:
        return rs.choice([0, 1, 2, 100, 254, 255, 65534, 65535, rs.randint(0, 65536)], sh).astype(U2 if o["bits"] == 16 else np.uint8)
    x = (10.0 ** rs.uniform(-3, 6, sh)).astype(F4)
    x[rs.uniform(size=sh) < 0.15] = rs.choice([0.0, np.inf, 0.3, 1.0])
    return x


def indices_of(o, n):
    rs = np.random.RandomState(o["seed"])
    m = min(n, 256) if o["dtype"] == "u1" else n
    x = rs.randint(0, m, o["shape"])
    if o["over"] and x.size:
        x[-1, -1] = n + rs.choice([0, 1, 50, 256 - n % 256, 256])     # (some the same as a valid one modulo 256)
    return x


def proc(env, arg):
    import sumo.geometry.inverse_depth as idp
    from sumo.base.colored_category import ColoredCategory
    from sumo.geometry.pose3 import Pose3
    from sumo.geometry.rot3 import Rot3
    from sumo.images.rgbd_360 import Rgbd360
    from sumo.images.rgbdci_360 import Rgbdci360
    ctypes.CDLL(None).mallopt(-6, arg["fill"])
    p = st_run.Proc(env, raw)
    S = {}

    def new_pose(d):
        R, t = world.rot(d["pose"]), np.array(d["pose"]["t"], float)
        h, rpy = d["how"], d["rpy"]
        if h == "default":
            return Pose3()
        if h == "t":
            return Pose3(t=t)
        if h == "R":
            return Pose3(R=R)
        if h == "full":
            return Pose3(Rot3(R), t)
        if h == "matrix":
            return Pose3.FromMatrix34(np.hstack([R, t.reshape(3, 1)]))
        if h == "camera":
            f = Pose3.Maya_camera if d["maya"] else Pose3.ENU_camera
            kw = {"position": t} if d["at"] else {}
            return f(roll=rpy[0], pitch=rpy[1], yaw=rpy[2], **kw)
        if h == "axes":
            return Pose3(Rot3.Rx(rpy[0]) * Rot3.Ry(rpy[1]) * Rot3.Rz(rpy[2]), t)
        return Pose3(Rot3.FromColumns(R[:, 0].copy(), R[:, 1].copy(), R[:, 2].copy()), t)

    def depth(o):
        x = laid(depth_values(o), o["layout"])
        was = x.copy()
        kw = {} if o["near"] is None else {"near": o["near"]}
        b = o["bits"] == 16
        if o["one"]:
            f = (idp.depth_of_inverse_depth if b else idp.depth_of_uint8_inverse_depth) if o["back"] else \
                (idp.inverse_depth_of_depth if b else idp.uint8_inverse_depth_of_depth)
            y = np.array([[f(x[0, 0], **kw)]])
        else:
            f = (idp.depth_image_of_inverse_depth_map if b else idp.depth_image_of_uint8_inverse_depth_map) if o["back"] else \
                (idp.inverse_depth_map_of_depth_image if b else idp.uint8_inverse_depth_map_of_depth_image)
            y = f(x, **kw)
        out = [np.array(y), np.array_equal(x, was)]
        if o["back"] and not b and not o["one"]:
            out.append(np.array(idp.uint16_of_uint8_inverse_depth_map(x, **kw)))
        return out

    def apply(o, x):
        q = points_of(o)
        was = q.copy()
        f = {"from": x.transform_from, "to": x.transform_to, "*": lambda v: x * v, "all_from": x.transform_all_from,
             "all_to": x.transform_all_to, "*n": lambda v: x * v, "R": lambda v: x.R * v, "unR": x.R.unrotate}[o["how"]]
        y = f(q)
        out = np.array(y)
        same = np.array_equal(q, was)
        y[...] = 77
        return [out, same and np.array_equal(q, was)]

    def one(o):
        k = o["op"]
        x, y = S.get(o.get("slot")), S.get(o.get("other"))
        if k == "pose":
            return new_pose(o["new"])
        if k == "image":
            d = o["image"]
            a = {f: laid(v, d["layout"]) for f, v in image_arrays(d).items()}
            return Rgbdci360(a["rgb"], a["range"], a["category"], a["instance"]) if d["kind"] == "rgbdci" else Rgbd360(a["rgb"], a["range"])
        if k == "depth":
            return depth(o)
        if k == "compose":
            return x * y
        if k == "inverse":
            return x.inverse()
        if k == "json":
            return Pose3.from_json(json.loads(json.dumps(x.to_json())))
        if k == "surreal":
            d = json.loads(json.dumps(x.to_surreal()))
            d["QuaternionXYZW"] = [v * o.get("scale", 1) for v in d["QuaternionXYZW"]]
            return Pose3.from_surreal(d)
        if k == "xml":
            import xml.etree.ElementTree as ET
            return Pose3.from_xml(ET.fromstring(ET.tostring(x.to_xml())))
        if k == "turn":
            m = x.rotation().matrix()
            c, n = math.cos(o["angle"]), math.sin(o["angle"])
            m[...] = np.array([[c, -n, 0], [n, c, 0], [0, 0, 1]]).dot(m)
            if not np.array_equal(x.rotation().matrix(), m):
                x.R = type(x.R)(m)
        elif k == "shift":
            x.t += np.array(o["by"], float)
        elif k == "apply":
            return apply(o, x)
        elif k == "matrix":
            m, m34 = x.matrix(), x.matrix34()
            out = [np.array(m), np.array(m34)]
            m[...] = 77
            m34[...] = 77
            return out
        elif k == "cloud":
            return x.create_point_cloud(o["all"]) if o["all"] or o["seed_"] % 2 else x.create_point_cloud()
        elif k == "paint":
            a = image_arrays({"seed": o["seed"], "shape": list(x.rgb.shape[:2]), "other": list(x.range.shape)})
            for f in ("rgb", "range", "category", "instance"):
                if hasattr(x, f):
                    getattr(x, f)[...] = a[f]
        elif k == "cpoke":
            x.points()[...] = 77
            x.colors()[...] = 77
        elif k == "crange":
            n = x.num_points()
            out = []
            for j in sorted({0, n // 2, n - 1} & set(range(n))):
                a, b = x.point(j), x.color(j)
                out.append([j, np.array(a), np.array(b)])
                a[...] = 77
                b[...] = 77
            return out
        elif k == "color":
            i, n, names = o["id"], len(rows[o["slot"]]), [w[0] for w in rows[o["slot"]]]
            if i in ("name", "no name"):
                return list(x.category_name_to_rgb(names[int(o["at"] * n)] if i == "name" else "no such category"))
            return list(x.category_id_to_rgb({"n": n, "n-1": n - 1, "n+1": n + 1}.get(i, i)))
        elif k == "recolor":
            q = indices_of(o, len(rows[o["slot"]])).astype(o["dtype"])
            was = q.copy()
            y = x.convert_to_rgb_im(q)
            out = [np.array(y), np.array_equal(q, was)]
            y[...] = 77
            return out
        elif k == "lut":
            return np.array(x.LUT)

    rows, files = {}, {}
    for i, o in enumerate(arg["ops"]):
        k = o["op"]
        need = {"compose": "PP", "inverse": "P", "json": "P", "surreal": "P", "xml": "P", "shift": "P", "turn": "P", "apply": "P", "matrix": "P",
                "cloud": "I", "paint": "I", "cpoke": "C", "crange": "C", "color": "L", "recolor": "L", "lut": "L"}.get(k, "")
        have = [raw_kind(S.get(o[f])) for f in ("slot", "other") if f in o]
        if need and list(need) != have or k == "drop" and have == [None] or \
                k == "cloud" and type(S[o["slot"]]).__name__ != "Rgbdci360":
            env.send(("op", {"i": i, "out": ("skip",)}))
            continue
        if k == "table":
            f = os.path.join(env.work, "table%d.csv" % o["file"])
            if o["there"] is False and os.path.exists(f):
                os.unlink(f)
            elif o["there"] is True:
                files[o["file"]] = o["table"]["rows"]
                with open(f, "w", newline="", encoding="utf-8") as h:
                    h.write(csv_of(o["table"], o.get("bad")))
            x, rep = p.run(i, o, lambda: ColoredCategory(f), {})
        else:
            env.send(("start", i, None))
            rep = {"i": i, "fired": []}
            x = None
            try:
                x = one(dict(o, seed_=i))
                rep["out"] = ("ok",)
            except Exception as e:
                rep["out"] = ("exc", [t.__name__ for t in type(e).__mro__], st_run.plain(str(e))[:160])
                del e
        if rep["out"][0] == "ok":
            if "dst" in o:
                S[o["dst"]] = x
                if k == "table":
                    rows[o["dst"]] = files.get(o["file"], [])
            elif k == "drop":
                del S[o["slot"]]
            else:
                rep["res"] = x
        x = None
        rep["slots"] = {}
        for s in S:
            try:
                rep["slots"][s] = raw(S[s])
            except Exception as e:
                rep["slots"][s] = {"k": "%s: %s" % (type(e).__name__, str(e)[:100])}
        env.send(("op", rep))


def raw_kind(x):
    return {"Pose3": "P", "Rgbd360": "I", "Rgbdci360": "I", "PointCloud": "C", "ColoredCategory": "L"}.get(type(x).__name__)


# ---------------------------------------------------------------- reference model
def rx(t):
    c, s = math.cos(t), math.sin(t)
    return np.array([[1, 0, 0], [0, c, -s], [0, s, c]])


def ry(t):
    c, s = math.cos(t), math.sin(t)
    return np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]])


def rz(t):
    c, s = math.cos(t), math.sin(t)
    return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])


def pose_of(d):
    R, t = world.rot(d["pose"]), np.array(d["pose"]["t"], float)
    h = d["how"]
    if h == "default":
        R, t = np.eye(3), np.zeros(3)
    elif h == "t":
        R = np.eye(3)
    elif h == "R":
        t = np.zeros(3)
    elif h == "camera":
        a, b, c = [float(F4(x)) for x in d["rpy"]]
        R = (MAYA if d["maya"] else ENU).dot(ry(c)).dot(rx(b)).dot(rz(a))
        t = t if d["at"] else np.zeros(3)
    elif h == "axes":
        a, b, c = d["rpy"]
        R = rx(a).dot(ry(b)).dot(rz(c))
    return {"k": "P", "R": R, "t": t}


def cube_rays(side):
    """Direction of every pixel of the faces BACK LEFT FRONT RIGHT UP DOWN of a cube map."""
    s = (np.arange(side) + 0.5) / (side / 2.0) - 1
    x, y = np.meshgrid(s, s)
    o = np.ones_like(x)
    faces = [(-x, y, -o), (-o, y, x), (x, y, o), (o, y, -x), (x, -o, y), (x, o, -y)]
    return np.concatenate([np.stack(f, axis=2) for f in faces], axis=1)


def cloud_of(im, all_points):
    h, w = im["range"].shape
    rays = cube_rays(h)[:, :w] if h else np.zeros((0, w, 3))
    if w > 6 * h:                      # no pixel out there may have a range
        rays = np.concatenate([rays, np.ones((h, w - rays.shape[1], 3))], axis=1)
    rays = rays / np.linalg.norm(rays, axis=2, keepdims=True)
    r = im["range"].astype(float)
    with np.errstate(invalid="ignore"):
        ok = (r > 0) & (r != np.inf)
    pts = np.where(ok[..., None], rays * np.where(ok, r, 0)[..., None], 0)
    col = np.where(ok[..., None], im["rgb"], 0).astype(np.uint8)
    if not all_points:
        pts, col = pts[ok], col[ok]
    return {"k": "C", "p": pts.reshape(-1, 3).T, "c": col.reshape(-1, 3).T, "n": pts.size // 3}


def near_all(a, b, tol):
    if a.shape != b.shape:
        return False
    if not a.size:
        return True
    scale = max(1.0, float(np.max(np.abs(b))))
    return bool(np.all(np.isfinite(a))) and float(np.max(np.abs(a - b))) <= tol * scale


def same(a, b):
    """None or what differs."""
    if a["k"] != b["k"]:
        return "is %s, not %s" % (a["k"], b["k"])
    for f in b:
        x, y = a.get(f), b[f]
        if isinstance(y, np.ndarray):
            if x is None or x.shape != y.shape or x.dtype != y.dtype:
                return "%s is %s, not %s" % (f, None if x is None else (x.dtype, x.shape), (y.dtype, y.shape))
            exact = y.dtype != float
            if not (np.array_equal(x, y, equal_nan=y.dtype.kind == "f") if exact else near_all(x, y, 1e-8)):
                d = np.argwhere(~((x == y) | ((x != x) & (y != y)))) if exact else np.argwhere(~(np.abs(x - y) <= 1e-8 * max(1, np.abs(y).max())))
                i = tuple(d[0])
                return "%s differs at %s: %r, not %r" % (f, list(map(int, i)), x[i].item(), y[i].item())
        elif x != y:
            return "%s is %r, not %r" % (f, x, y)
    return None


def want_depth(o):
    x = depth_values(o)
    near = float(F4(0.3)) if o["near"] is None else o["near"]
    top = 65535 if o["bits"] == 16 else 255
    y = x.astype(float)
    with np.errstate(divide="ignore", over="ignore", invalid="ignore"):
        if o["back"]:
            return np.where(y == 0, np.inf, near * top / y)
        v = 0.5 + near * top / y
        return np.where(y == 0, 0, np.where(y <= near, top, np.where(np.isfinite(v), v, 0)))


class Model:
    def __init__(self):
        self.s, self.files = {}, {}

    def step(self, o, rep):
        S, k, out = self.s, o["op"], rep["out"]
        bad = []
        if out[0] == "skip":
            return bad
        x, y = S.get(o.get("slot")), S.get(o.get("other"))
        ok = out[0] == "ok"
        kinds = [] if ok else out[1]
        want, may = None, None      # expected object; exceptions that are right
        if k == "pose":
            want = pose_of(o["new"])
        elif k == "image":
            d = o["image"]
            a = image_arrays(d)
            if d["kind"] == "rgbd":
                a = {f: a[f] for f in ("rgb", "range")}
            want = dict(a, k="I", cls="Rgbdci360" if d["kind"] == "rgbdci" else "Rgbd360")
        elif k == "compose":
            want = {"k": "P", "R": x["R"].dot(y["R"]), "t": x["R"].dot(y["t"]) + x["t"]}
        elif k == "inverse":
            want = {"k": "P", "R": x["R"].T, "t": -x["R"].T.dot(x["t"])}
        elif k in ("json", "surreal", "xml"):
            want = dict(x)
        elif k == "turn":
            c, n = math.cos(o["angle"]), math.sin(o["angle"])
            S[o["slot"]] = dict(x, R=np.array([[c, -n, 0], [n, c, 0], [0, 0, 1]]).dot(x["R"]))
        elif k == "shift":
            S[o["slot"]] = dict(x, t=x["t"] + np.array(o["by"]))
        elif k == "paint":
            a = image_arrays({"seed": o["seed"], "shape": list(x["rgb"].shape[:2]), "other": list(x["range"].shape)})
            S[o["slot"]] = dict(x, **{f: a[f] for f in a if f in x})
        elif k == "table":
            if o["there"] is not False and o["there"] != "keep":
                self.files[o["file"]] = None if o.get("bad") else o["table"]["rows"]
            elif o["there"] is False:
                self.files.pop(o["file"], None)
            there, table = o["file"] in self.files, self.files.get(o["file"])
            if table is None:
                if there:
                    may = ["Exception"]
                    if ok:
                        bad.append(("accepted", "a table with a row that has no color was accepted"))
            else:
                want = {"k": "L", "lut": np.array([c for _, _, c in table], np.uint8), "rows": table}
            if not there or sum(rep.get("fired", [])) and any(f["do"] == "err" for f in o.get("faults", [])):
                may = ["Exception"] if may else ["OSError", "MemoryError"]
            if not there and ok:
                bad.append(("accepted", "a missing file was accepted"))
        elif k == "cloud":
            h, w = x["range"].shape
            if x["rgb"].shape[:2] != (h, w):
                may = ["ValueError"]
            elif w > 6 * h:
                may = ["Exception"]
                out_there = x["range"][:, 6 * h:]
                if not ((out_there > 0) & (out_there != np.inf)).any():
                    want = cloud_of(x, o["all"])
            else:
                want = cloud_of(x, o["all"])
                if x.get("layout") != "c":
                    may = ["ValueError"]
            if ok and want is None:
                bad.append(("accepted", "an image of wrong size was accepted"))
        elif k == "drop":
            S.pop(o["slot"], None)
        elif k == "color":
            i, rows = o["id"], x["rows"]
            n = len(rows)
            if i == "no name" or i in (-1, "n", "n+1") or isinstance(i, int) and i >= n:
                may = ["KeyError"]
                if ok:
                    bad.append(("accepted", "gave %r" % (rep["res"],)))
            elif ok:
                if i == "name":
                    name = rows[int(o["at"] * n)][0]
                    c = [w[2] for w in rows if w[0] == name]
                else:
                    c = [rows[{"n-1": n - 1}.get(i, i)][2]]
                if rep["res"] not in c:
                    bad.append(("wrong-result", "gave %r, not %r" % (rep["res"], c)))
        elif k == "recolor":
            q = indices_of(o, len(x["rows"]))
            got = rep.get("res")
            if o["over"] and q.size and not (o["dtype"] == "u1" and q.max() > 255):
                may = ["IndexError"]
                if ok:
                    bad.append(("accepted", "an index without a color was accepted"))
            elif o["dtype"] == "u1" and q.size and q.max() > 255:
                may = ["IndexError"]
            elif ok:
                if not np.array_equal(got[0], x["lut"][q]):
                    bad.append(("wrong-result", "the colors differ"))
                if not got[1]:
                    bad.append(("argument", "the argument was changed"))
        if not ok:
            if may is None or not any(m in kinds for m in may):
                bad.append(("failed", "failed: %s: %s" % (kinds[0], out[2])))
            return bad
        got = rep.get("res")
        if k == "depth":
            w = want_depth(o)
            g, b = got[0].astype(float), got[1]
            if g.shape != w.shape:
                bad.append(("wrong-result", "shape is %s, not %s" % (g.shape, w.shape)))
            else:
                with np.errstate(invalid="ignore"):
                    if o["back"]:
                        good = (g == w) | (np.abs(g - w) <= 1e-6 * np.abs(w))
                    else:
                        good = (g == np.floor(w)) | (np.abs(g - np.floor(w)) <= 1) & (np.abs(w - np.round(w)) < 1e-3)
                if not good.all():
                    i = tuple(np.argwhere(~good)[0])
                    bad.append(("wrong-result", "%r becomes %r, not %r" % (depth_values(o)[i].item(), g[i].item(), w[i].item())))
            if not b:
                bad.append(("argument", "the argument was changed"))
            if len(got) > 2:
                d = want_depth(o)
                with np.errstate(divide="ignore"):
                    v = np.where(np.isinf(d), 0, np.where(d <= float(F4(0.3)) * (1 - 1e-6), 65535, np.minimum(65535, 0.5 + 0.3 * 65535 / d)))
                if got[2].shape != v.shape or (np.abs(got[2].astype(float) - np.floor(v)) > 1).any():
                    bad.append(("wrong-result", "the 16-bit map differs"))
        elif k == "apply":
            q, h = points_of(o), o["how"]
            t = x["t"] if q.ndim == 1 else x["t"].reshape(3, 1)
            w = {"from": lambda: x["R"].dot(q) + t, "to": lambda: x["R"].T.dot(q - t), "R": lambda: x["R"].dot(q),
                 "unR": lambda: x["R"].T.dot(q)}[{"*": "from", "*n": "from", "all_from": "from", "all_to": "to"}.get(h, h)]()
            if not near_all(got[0], w, 1e-8):
                bad.append(("wrong-result", "the points differ"))
            if not got[1]:
                bad.append(("argument", "the argument was changed"))
        elif k == "matrix":
            m = np.vstack([np.hstack([x["R"], x["t"].reshape(3, 1)]), [0, 0, 0, 1]])
            if not near_all(got[0], m, 1e-8) or not near_all(got[1], m[:3], 1e-8):
                bad.append(("wrong-result", "the matrix differs"))
        elif k == "crange":
            for j, a, b in got:
                if not near_all(a, x["p"][:, j], 1e-8) or not np.array_equal(b, x["c"][:, j]):
                    bad.append(("wrong-result", "point %d differs" % j))
        elif k == "lut" and not np.array_equal(got, x["lut"]):
            bad.append(("wrong-result", "the table differs"))
        if want is not None:
            d = o["dst"]
            new = dict(rep["slots"].get(d, {"k": None}))
            w = {f: v for f, v in want.items() if f not in ("rows", "layout")}
            tol = same(new, w)
            if k in ("xml", "surreal") and tol:
                lim = 2e-8 if k == "xml" else 1e-8
                if new["k"] == "P" and np.abs(new["R"] - w["R"]).max() <= lim and \
                        np.abs(new["t"] - w["t"]).max() <= lim * max(1, np.abs(w["t"]).max()):
                    tol = None
            if tol:
                bad.append(("wrong-result", "%r %s" % (d, tol)))
            # go on with the values of the real object: rounding does not add up
            S[d] = dict(new if new["k"] == w["k"] and not tol else w)
            if k == "table":
                S[d]["rows"] = want["rows"]
            if k == "image":
                S[d]["layout"] = o["image"]["layout"]
        return bad


# ---------------------------------------------------------------- one run
def describe_op(o):
    t = " ".join([o["op"]] + ["%s=%s" % (a, b) for a, b in sorted(o.items()) if a not in ("op", "new", "image", "table", "faults")])
    if "new" in o:
        t += " %s" % o["new"]["how"]
    if "image" in o:
        t += " %s %s range %s %s" % (o["image"]["kind"], o["image"]["shape"], o["image"]["other"], o["image"]["layout"])
    if "table" in o:
        t += " of %d rows" % len(o["table"]["rows"])
    if o.get("faults"):
        t += " under " + ", ".join("%s %s%s" % (f["do"], f["on"], f["nth"]) for f in o["faults"])
    return t


def execute(plan, scratch):
    root = st_sim.fresh(scratch)
    viol, traces, parts, stats = [], [], [], {}

    def count(k, n=1):
        stats[k] = stats.get(k, 0) + n
    count("fault.freed memory overwritten")
    res = st_sim.session(root, proc, {"ops": plan["ops"], "fill": plan["fill"]}, seed=plan["seed"])
    m = Model()
    last = None
    for x in res.msgs:
        if x[0] == "start":
            last = x[1]
            continue
        if x[0] != "op":
            continue
        rep, last = x[1], None
        o = plan["ops"][rep["i"]]
        count("op." + o["op"] + {"ok": "", "skip": " skipped", "exc": " refused"}[rep["out"][0]])
        for f, n in zip(o.get("faults") or [], rep.get("fired", [])):
            if n:
                count("fault.%s" % f["do"], n)
        traces.append("  %s -> %s" % (describe_op(o), rep["out"][0] if rep["out"][0] != "exc" else " ".join(map(str, (rep["out"][1][0], rep["out"][2])))))
        out = m.step(o, rep)
        if rep["out"][0] != "skip":
            if rep.get("fds") or rep.get("tmp"):
                out.append(("left-behind", "left open or behind: %s %s" % (rep["fds"], rep["tmp"])))
            for s, got in sorted(rep["slots"].items()):
                count("objects compared")
                want = m.s.get(s)
                if want is None or s == o.get("dst") and out:
                    continue
                d = same(got, {f: v for f, v in want.items() if f not in ("rows", "layout")})
                if d:
                    own = s == o.get("slot") and o["op"] in ("shift", "turn", "paint") or s == o.get("dst")
                    out.append(("wrong-result" if own else "disturbed", "object %r %s" % (s, d)))
        for sig, t in out:
            viol.append(("C21", sig, "%s: %s" % (describe_op(o), t)))
            traces.append("  !! " + t)
        parts.append((rep["i"], rep["out"][:2], [(s, repr(sorted((f, v.tobytes() if isinstance(v, np.ndarray) else v) for f, v in c.items())))
                                                 for s, c in sorted(rep.get("slots", {}).items())]))
        if viol:
            break
    if res.end != "ok":
        viol.append(("C21", "process-death", "the process ended with %s%s" % (
            res.end, "" if last is None else " during " + describe_op(plan["ops"][last]))))
        traces.append("  !! " + viol[-1][2])
    return {"violations": viol, "hash": st_sim.digest(parts + [res.end]), "stats": stats, "nontrivial": len(plan["ops"]) > 3, "traces": traces}


def freeze(plan, res):
    return plan


def shrinks(plan):
    ops = plan["ops"]
    for size in (8, 4, 2, 1):
        for i in range(len(ops) - size, -1, -size):
            yield dict(plan, ops=ops[:i] + ops[i + size:])
    for i, o in enumerate(ops):
        def rep(x):
            return dict(plan, ops=ops[:i] + [x] + ops[i + 1:])
        if o.get("faults"):
            yield rep({k: v for k, v in o.items() if k != "faults"})
        if "table" in o and len(o["table"]["rows"]) > 1:
            yield rep(dict(o, table=dict(o["table"], rows=o["table"]["rows"][:1])))
        if "image" in o and o["image"]["layout"] != "c":
            yield rep(dict(o, image=dict(o["image"], layout="c")))


def describe(plan, res):
    return res["traces"]


def init():
    import sumo.base.colored_category  # noqa
    import sumo.geometry.inverse_depth  # noqa
    import sumo.geometry.pose3  # noqa
    import sumo.images.rgbd_360  # noqa
    import sumo.images.rgbdci_360  # noqa


COMPONENTS = {
    "real": ["sumo.geometry: pose3, rot3, quaternion, inverse_depth; sumo.images: rgbd_360, rgbdci_360 and their C++ part; "
             "sumo.base: colored_category, vector; sumo.threedee.point_cloud; sumo.opencv.wrap"],
    "stub": ["contents of freed and of fresh memory (glibc M_PERTURB, chosen by the seed)", "results of the file system calls that read color tables"]}
ASSUMPTIONS = ["poses hold the arrays that they are made of: only poses with arrays of their own are edited in place",
               "images that do not lie row by row in memory may be refused", "negative depths and the NaN are not encoded"]
RULES = {"C21": "a run is a history of 6 to 29 operations over up to six living objects generated from the seed; all living objects are compared "
                "after every one; distinct by the hash of all objects after every operation"}

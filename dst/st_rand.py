"""Sampling and voxelization under a controlled random stream.

Decides C18.  Every random number that the code under test draws comes from the simulator: a seeded uniform
stream, or one that is full of the extreme values a stream may contain.  The sampled points are judged
geometrically against the triangles of the model.
"""
import math
import random

import numpy as np

from . import st_run, st_sim, world

PROPS = ("C18",)
PITCH = 4.0
KINDS = ["big", "big", "big", "tiny", "line", "point", "thin"]


# ---------------------------------------------------------------- contents
def g_mesh(r):
    k = r.random()
    return {"seed": r.getrandbits(30), "tris": [r.choice(KINDS) for _ in range(r.choice([0, 1, 1, 2, 3, 5]))],
            "scale": r.choice([1.0, 1.0, 0.2, 0.5]), "extra": r.choice([0, 0, 1, 4]), "mix": r.random() < 0.5,
            "tex": None if k < 0.25 else [0, 0] if k < 0.35 else [r.choice([1, 2, 3, 6]), r.choice([1, 2, 5, 12])],
            "uv": r.choice(["unit", "unit", "wide", "edge"])}


def arrays(m, row):
    """Raw arrays of a mesh: every triangle in its own cell of the plane, at row <row>."""
    rs = np.random.RandomState(m["seed"])
    vs, ids = [], []
    for k, kind in enumerate(m["tris"]):
        t = rs.uniform(-1, 1, (3, 3)) * m["scale"]
        if kind == "tiny":
            t = t * 1e-3
        elif kind == "line":
            t[2] = t[0] + (t[1] - t[0]) * rs.choice([0.0, 0.5, 1.0])
        elif kind == "point":
            t[:] = t[0]
        elif kind == "thin":
            t[2] = t[1] + rs.uniform(-1, 1, 3) * 0.01
        t += [k * PITCH, 0, row * PITCH]
        ids.append([len(vs), len(vs) + 1, len(vs) + 2])
        vs += list(t)
    vs += list(rs.uniform(-1, 1, (m["extra"], 3)) + [0, 50, 0])       # vertices of no triangle
    v = np.array(vs, np.float32).reshape(-1, 3)
    ids = np.array(ids, np.int64).reshape(-1, 3)
    if m["mix"]:
        p = rs.permutation(len(v))
        inv = np.argsort(p)
        v, ids = v[p], inv[ids]
        ids = ids[rs.permutation(len(ids))]
    nv = len(v)
    a = {"v": v, "i": ids, "n": np.tile(np.array([[0], [1], [0]], np.float32), (1, nv))}
    if m["tex"] is not None:
        if m["uv"] == "unit":
            uv = rs.uniform(0, 0.999, (2, nv))
        elif m["uv"] == "wide":
            uv = rs.uniform(-5, 5, (2, nv))
        else:
            uv = rs.choice([0.0, 1.0, -1.0, 0.5, 2.0], (2, nv))
        a["uv"] = uv.astype(np.float32)
        a["bc"] = rs.randint(0, 256, m["tex"] + [3]).astype(np.uint8)
    return a


def vertex_colors(m, a):
    n = len(a["v"])
    if m["tex"] is None or 0 in m["tex"]:
        return np.full((n, 3), 128.0)
    h, w = m["tex"]
    uv = a["uv"]
    row = np.mod(np.floor(uv[1] * np.float32(h)).astype(int), h)
    col = np.mod(np.floor(uv[0] * np.float32(w)).astype(int), w)
    return a["bc"][row, col].astype(float)


def gen(prop, seed):
    r = random.Random(seed)
    ops = [{"op": "model", "meshes": [g_mesh(r) for _ in range(r.choice([0, 1, 1, 2, 3]))]}]
    for _ in range(r.randrange(2, 8)):
        k = r.random()
        st = {"mode": r.choice(["real", "real", "extreme", "low", "high"]), "seed": r.getrandbits(30)}
        if k < 0.35:
            ops.append({"op": "sample", "density": r.choice([0.5, 30, 150, 625, 100, 37.7]), "stream": st})
        elif k < 0.5:
            ops.append({"op": "element", "density": r.choice([30, 150, 625]), "stream": st, "pose": world.g_pose(r)})
        elif k < 0.75:
            ops.append({"op": "voxels", "density": r.choice([150, 625, 400]), "size": r.choice([0.1, 0.25, 0.07, 1.0]), "stream": st})
        elif k < 0.83:
            ops.append({"op": "thin", "n": r.choice([0, 1, 5, 100]), "of": r.choice([1, 3, 50]), "color": r.random() < 0.5, "stream": st})
        elif k < 0.9:
            ops.append({"op": "more", "mesh": g_mesh(r)})
        elif k < 0.96:                     # another model of the same outline, and the same again
            now = []
            for o in ops:
                now = list(o["meshes"]) if o["op"] == "model" else now + [o["mesh"]] if o["op"] == "more" else now
            ops.append({"op": "model", "meshes": [dict(m, seed=r.getrandbits(30)) for m in now]})
            same = [o for o in ops if o["op"] in ("sample", "element", "voxels")]
            if same:
                ops.append(dict(same[-1]))
        else:
            ops.append({"op": "model", "meshes": [g_mesh(r) for _ in range(r.choice([0, 1, 2]))]})
    if r.random() < 0.01:
        ops.append({"op": "many", "n": r.choice([32769, 65536, 65537, 70001]), "split": r.choice([1, 1, 2, 5]), "each": r.choice([1, 2]),
                    "stream": {"mode": "real", "seed": r.getrandbits(30)}})
    return {"prop": prop, "seed": seed & 0xffffffff, "ops": ops}


def many_arrays(op):
    """Very many small triangles, every one in its own cell of a grid: per mesh, indices and vertices."""
    k = np.arange(op["n"])
    at = np.stack([k % 256 * 2.0, 0.0 * k, k // 256 * 2.0], axis=1)
    v = (at[:, None, :] + np.array([[0, 0, 0], [0.5, 0, 0], [0, 0, 0.5]])).astype(np.float32)
    return [(np.arange(3 * len(p), dtype=np.uint32), np.ascontiguousarray(p.reshape(-1, 3).T)) for p in np.array_split(v, op["split"])]


def many_summary(op, x):
    """What is wrong with samples of these triangles."""
    x = np.asarray(x, float)[:, :3]
    if len(x) != op["n"] * op["each"]:
        return "%d points, not %d" % (len(x), op["n"] * op["each"])
    c, r = np.floor(x[:, 0] / 2 + 1e-4).astype(int), np.floor(x[:, 2] / 2 + 1e-4).astype(int)
    a, b = x[:, 0] - 2 * c, x[:, 2] - 2 * r
    if min(a.min(), b.min()) < -1e-3 or (a + b).max() > 0.501 or np.abs(x[:, 1]).max() > 1e-3:
        return "points are off the faces"
    n = np.bincount(np.clip(r * 256 + c, 0, op["n"]), minlength=op["n"] + 1)
    if n[op["n"]] or (n[:-1] != op["each"]).any():
        return "face %d has %d points, not %d" % (int(np.argmax(n[:-1] != op["each"])), n[int(np.argmax(n[:-1] != op["each"]))], op["each"])
    return None


# ---------------------------------------------------------------- the random seam
class Stream:
    """Replaces the global random functions of numpy."""

    def __init__(self, spec):
        self.rs = np.random.RandomState(spec["seed"])
        self.mode = spec["mode"]
        self.drawn = 0

    def u(self, size=None):
        x = np.asarray(self.rs.random_sample(size))
        top = np.nextafter(1.0, 0.0)
        k = self.rs.random_sample(x.shape)
        if self.mode == "extreme":
            x = np.where(k < 0.3, 0.0, np.where(k < 0.6, top, np.where(k < 0.7, 5e-324, x)))
        elif self.mode == "low":
            x = np.zeros_like(x)
        elif self.mode == "high":
            x = np.full_like(x, top)
        self.drawn += x.size
        return x if size is not None else float(x)

    def uniform(self, low=0.0, high=1.0, size=None):
        return np.minimum(low + (np.asarray(high) - low) * self.u(size), np.nextafter(high, low)) if size is not None else \
            low + (high - low) * self.u()

    def rand(self, *shape):
        return self.u(shape or None)

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        if np.any(np.asarray(high) <= low):
            raise ValueError("low >= high")
        x = np.asarray(low + np.floor(self.u(size if size is not None else ()) * (high - low))).astype(dtype)
        return x if size is not None else int(x)

    def __enter__(self):
        self.old = {n: getattr(np.random, n) for n in ("uniform", "rand", "randint", "random_sample", "random", "ranf", "sample")}
        np.random.uniform, np.random.rand, np.random.randint = self.uniform, self.rand, self.randint
        np.random.random_sample = np.random.random = np.random.ranf = np.random.sample = self.u
        return self

    def __exit__(self, *a):
        for n, f in self.old.items():
            setattr(np.random, n, f)


# ---------------------------------------------------------------- the process
def build(m, row):
    from sumo.threedee.mesh import Mesh
    from sumo.threedee.textured_mesh import TexturedMesh
    a = arrays(m, row)
    i = np.ascontiguousarray(a["i"].reshape(-1), np.uint32)
    v = np.ascontiguousarray(a["v"].T, np.float32)
    if m["tex"] is None:
        return Mesh(i, v, a["n"])
    return TexturedMesh(i, v, a["n"], np.ascontiguousarray(a["uv"]), a["bc"], np.zeros((1, 1, 3), np.uint8))


def proc(env, arg):
    from sumo.metrics.mesh_evaluator import sample_element
    from sumo.semantic.project_object import ProjectObject
    from sumo.threedee.gltf_model import GltfModel
    from sumo.threedee.mesh import Mesh
    from sumo.threedee.model_sampler import ModelSampler
    from sumo.threedee.point_cloud import PointCloud
    from sumo.threedee.voxelizer import Voxelizer
    p = st_run.Proc(env, lambda x: None)
    g, n = None, 0
    for i, op in enumerate(arg["ops"]):
        k = op["op"]
        res = None
        if k == "model":
            g = e = v = None             # the former model is gone before there is another
            g, n = GltfModel(), 0
            for m in op["meshes"]:
                g.add_mesh(build(m, n))
                n += 1
            rep = {"i": i, "out": ("ok",)}
        elif k == "more":
            g.add_mesh(build(op["mesh"], n))
            n += 1
            rep = {"i": i, "out": ("ok",)}
        else:
            if k == "element":
                e = ProjectObject.gen_meshes_object(meshes=g, id="1", pose=world.build_pose(op["pose"]))
            elif k == "many":
                big = GltfModel()
                for ids, v in many_arrays(op):
                    big.add_mesh(Mesh(ids, v, np.tile(np.array([[0], [1], [0]], np.float32), (1, v.shape[1]))))
            elif k == "thin":
                c = cloud(op)
                pc = PointCloud(c[0], c[1]) if op["color"] else PointCloud(c[0])
            with Stream(op["stream"]) as s:
                if k == "sample":
                    v, rep = p.run(i, op, lambda: ModelSampler(op["density"]).run(g), {})
                elif k == "many":
                    v, rep = p.run(i, op, lambda: ModelSampler(8 * op["each"] + 0.5).run(big), {})
                elif k == "element":
                    v, rep = p.run(i, op, lambda: sample_element(e, op["density"]), {})
                elif k == "voxels":
                    v, rep = p.run(i, op, lambda: Voxelizer(op["density"], op["size"]).run(g), {})
                else:
                    v, rep = p.run(i, op, lambda: pc.thin(op["n"]), {})
            rep["drawn"] = s.drawn
            if v is not None:
                if k == "voxels":
                    c = v.voxel_centers()
                    res = {"size": v.voxel_size, "centers": np.asarray(c, float).tolist(), "min": [float(x) for x in v.min_corner]}
                elif k == "many":
                    res = {"bad": many_summary(op, v)}
                elif k == "thin":
                    res = {"points": v.points().T.tolist(), "colors": v.colors().T.tolist() if v.colored() else None}
                else:
                    res = {"shape": list(v.shape), "points": np.asarray(v, float).tolist()}
            if k not in ("thin", "many"):
                rep["meshes"] = world.observe_model(g)
        rep["res"] = res
        env.send(("op", rep))
    env.send(("end",))


def cloud(op):
    rs = np.random.RandomState(op["of"])
    return np.ascontiguousarray(rs.uniform(-5, 5, (3, op["of"])).astype(np.float32)), rs.randint(0, 256, (3, op["of"])).astype(np.uint8)


# ---------------------------------------------------------------- judging
def faces_of(meshes):
    """[(vertices 3x3, colors 3x3)] keyed by (cell, row)."""
    out = {}
    for row, m in enumerate(meshes):
        a = arrays(m, row)
        c = vertex_colors(m, a)
        for t in a["i"]:
            v = a["v"][t].astype(float)
            out[(int(round(v[0][0] / PITCH)), row)] = (v, c[t])
    return out


def area(v):
    return 0.5 * float(np.linalg.norm(np.cross(v[0] - v[2], v[1] - v[2])))


def bary(v, p):
    """Barycentric coordinates and distance of points p (N x 3) to the triangle v."""
    m = np.vstack([v.T, np.ones(3)])
    x = np.linalg.lstsq(m, np.vstack([p.T, np.ones(len(p))]), rcond=1e-9)[0].T
    return x, np.linalg.norm(x @ v - p, axis=1)


def point_segment(a, b, p):
    d = b - a
    t = np.clip((p - a) @ d / max(1e-300, float(d @ d)), 0, 1)
    return np.linalg.norm(a + t[:, None] * d - p, axis=1)


def judge_points(meshes, op, res, out):
    P = np.array(res["points"], float).reshape(-1, 6) if res["shape"][1:] == [6] else None
    if P is None or len(res["shape"]) != 2:
        out.append(("shape", "the result has shape %s, not N x 6" % (res["shape"],)))
        return
    if not np.isfinite(P).all():
        out.append(("points", "the result has values that are not finite"))
        return
    F = faces_of(meshes)
    X = P[:, :3]
    tol = 1e-5
    if op["op"] == "element":
        R, t = world.rot(op["pose"]), np.array(op["pose"]["t"])
        X = (X - t) @ R
        tol = 1e-5 + 1e-6 * float(np.abs(t).max())
        if tol > 2e-3:
            if F or len(P):     # 32-bit vertices in room coordinates: too coarse to judge more than the number
                n = len(P)
                if n < len(F):
                    out.append(("count", "%d points for %d faces" % (n, len(F))))
            return
    cell = [(int(a), int(b)) for a, b in zip(np.round(X[:, 0] / PITCH), np.round(X[:, 2] / PITCH))]
    by = {}
    for k, c in enumerate(cell):
        by.setdefault(c, []).append(k)
    for c in by:
        if c not in F:
            out.append(("points", "point %s is on no face of the model" % np.round(P[by[c][0]], 4).tolist()))
            return
    for c, (v, col) in sorted(F.items()):
        ks = by.get(c, [])
        da = op["density"] * area(v)
        slack = op["density"] * 20 * tol * max(1.0, float(np.ptp(v, axis=0).max()))
        lo, hi = max(1, math.floor(da - slack - 1e-9)), max(1, math.floor(da + slack + 1e-9))
        if not lo <= len(ks) <= hi:
            out.append(("count", "face %s of area %.5g has %d points at density %s, not %d" % (c, area(v), len(ks), op["density"], lo)))
            return
        p, pc = X[ks], P[ks, 3:]
        ext = float(np.ptp(v, axis=0).max())
        if area(v) > 1e-3 * ext * ext and ext > 50 * tol:
            b, d = bary(v, p)
            e = 60 * tol / math.sqrt(area(v)) if area(v) else 1
            if d.max() > 20 * tol or b.min() < -e or b.max() > 1 + e:
                k = int(np.argmax(np.maximum(d, np.maximum(-b.min(1), b.max(1) - 1))))
                out.append(("points", "point %s of face %s is not on the face (distance %.3g, coordinates %s)" % (
                    np.round(p[k], 4).tolist(), c, d[k], np.round(b[k], 4).tolist())))
                return
            want = b @ col
            bad = np.abs(want - pc).max(axis=1) > 0.05 + 300 * e
            if bad.any():
                k = int(np.argmax(bad))
                out.append(("colors", "a point of face %s has color %s; interpolated from the vertices it is %s" % (
                    c, np.round(pc[k], 2).tolist(), np.round(want[k], 2).tolist())))
                return
            n = len(ks)
            if op["stream"]["mode"] == "real" and n >= 100:
                # for a uniform distribution every barycentric coordinate has mean 1/3 and variance 1/18
                mean, var = b.mean(0), b.var(0)
                if np.abs(mean - 1 / 3).max() > 7 * math.sqrt(1 / 18 / n) or np.abs(var - 1 / 18).max() > 7 * 0.062 / math.sqrt(n):
                    out.append(("distribution", "the %d points of face %s are not spread evenly: barycentric means %s, variances %s" % (
                        n, c, np.round(mean, 3).tolist(), np.round(var, 4).tolist())))
                    return
        else:
            d = np.min([point_segment(v[a], v[b], p) for a, b in ((0, 1), (1, 2), (2, 0))], axis=0)
            if d.max() > 20 * tol + 2 * area(v) / max(ext, 1e-9):
                out.append(("points", "a point of the degenerate face %s is %.3g away from it" % (c, d.max())))
                return
            if (pc < col.min(0) - 1e-6).any() or (pc > col.max(0) + 1e-6).any():
                out.append(("colors", "a point of face %s has a color outside its vertex colors" % (c,)))
                return


def closest(v, p):
    """Distance of points p to triangle v."""
    d = np.min([point_segment(v[a], v[b], p) for a, b in ((0, 1), (1, 2), (2, 0))], axis=0)
    if area(v) > 1e-12:
        n = np.cross(v[1] - v[0], v[2] - v[0])
        n = n / np.linalg.norm(n)
        h = (p - v[0]) @ n
        b, _ = bary(v, p - h[:, None] * n)
        d = np.where((b >= 0).all(axis=1), np.minimum(d, np.abs(h)), d)
    return d


def judge_voxels(meshes, op, res, out):
    F = faces_of(meshes)
    s = op["size"]
    if abs(res["size"] - s) > 1e-9:
        out.append(("voxel-size", "voxels have size %r, not %r" % (res["size"], s)))
    C = np.array(res["centers"], float).reshape(-1, 3)
    if not F:
        if len(C):
            out.append(("voxels", "%d voxels for a model without faces" % len(C)))
        return
    tol = 1e-4 * s + 2e-5
    near = np.full(len(C), np.inf)
    rs = np.random.RandomState(1)
    if len({tuple(c) for c in np.round((C - res["min"]) / s - 0.5).astype(int).tolist()}) != len(C):
        out.append(("voxels", "a voxel is listed twice"))
        return
    for c, (v, _) in sorted(F.items()):
        near = np.minimum(near, closest(v, C) if len(C) else near)
        # a point of the face lies in an occupied voxel
        lim = s * math.sqrt(3) / 2 + tol
        if not len(C) or closest(v, C).min() > lim:
            out.append(("voxels", "no voxel touches face %s" % (c,)))
            return
        if op["stream"]["mode"] == "real" and op["density"] * s * s >= 6:
            u = np.sqrt(rs.random_sample((40, 1)))
            w = rs.random_sample((40, 1))
            q = (1 - u) * v[0] + u * (1 - w) * v[1] + u * w * v[2]
            d = np.linalg.norm(q[:, None, :] - C[None], axis=2).min(axis=1)
            if area(v) > 1e-4 and op["density"] * area(v) >= 1 and d.max() > 3.4 * s + tol + 2 / math.sqrt(op["density"]) + \
                    (math.inf if min(np.linalg.norm(v[a] - v[b]) for a, b in ((0, 1), (1, 2), (2, 0))) < 0.5 else 0):
                out.append(("voxels", "part of face %s is %.3g away from every voxel of size %s" % (c, d.max(), s)))
                return
    if len(C) and near.max() > s * math.sqrt(3) / 2 + tol:
        out.append(("voxels", "voxel %s touches no face (distance %.4g)" % (np.round(C[int(near.argmax())], 4).tolist(), near.max())))


def judge_thin(op, res, out):
    v, c = cloud(op)
    if len(res["points"]) != op["n"]:
        out.append(("thin", "%d points are left, not %d" % (len(res["points"]), op["n"])))
        return
    if (res["colors"] is not None) != op["color"] and op["n"]:
        out.append(("thin", "colors were %s" % ("lost" if op["color"] else "added")))
        return
    known = {tuple(v[:, k].tolist()): tuple(c[:, k].tolist()) for k in range(op["of"])}
    for k, q in enumerate(res["points"]):
        if tuple(q) not in known:
            out.append(("thin", "point %s is not of the cloud" % q))
            return
        if op["color"] and tuple(int(x) for x in res["colors"][k]) != known[tuple(q)]:
            out.append(("thin", "point %s has another color" % q))
            return


def expect_meshes(meshes):
    out = []
    for row, m in enumerate(meshes):
        a = arrays(m, row)
        d = {"v": np.ascontiguousarray(a["v"].T), "n": a["n"], "idx": np.ascontiguousarray(a["i"].reshape(-1), np.uint32),
             "tex": m["tex"] is not None}
        if d["tex"]:
            d.update(uv=a["uv"], bc=a["bc"], mr=np.zeros((1, 1, 3), np.uint8))
        out.append(world.canon_mesh(d))
    return out


def judge_many(res, out):
    if res["bad"]:
        out.append(("points", res["bad"]))


def describe_op(op):
    k = op["op"]
    s = op.get("stream") or {}
    if k == "model":
        return "new model with %d meshes" % len(op["meshes"])
    if k == "more":
        return "add a mesh of %d faces" % len(op["mesh"]["tris"])
    return "%s %s, random stream %s/%d" % (k, {a: b for a, b in op.items() if a in ("density", "size", "n", "of", "split", "each")}, s.get("mode"), s.get("seed", 0))


def execute(plan, scratch):
    root = st_sim.fresh(scratch)
    viol, traces, parts, stats = [], [], [], {}

    def count(k, n=1):
        stats[k] = stats.get(k, 0) + n
    res = st_sim.session(root, proc, {"ops": plan["ops"]}, seed=plan["seed"])
    meshes, nontrivial, done = [], False, 0
    for m in res.msgs:
        if m[0] != "op":
            continue
        rep = m[1]
        op = plan["ops"][rep["i"]]
        done += 1
        k, out = op["op"], []
        traces.append("  %s -> %s" % (describe_op(op), rep["out"][0] if rep["out"][0] != "exc" else rep["out"][1:]))
        count("op." + k)
        if k == "model":
            meshes = list(op["meshes"])
        elif k == "more":
            meshes = meshes + [op["mesh"]]
        elif rep["out"][0] == "exc":
            if not (k == "thin" and op["of"] == 0):
                out.append(("failed", "failed: %s" % (rep["out"][1:],)))
        else:
            nontrivial = nontrivial or rep["drawn"] > 0
            count("drawn " + op["stream"]["mode"], rep["drawn"])
            {"sample": judge_points, "element": judge_points, "voxels": judge_voxels}[k](meshes, op, rep["res"], out) \
                if k not in ("thin", "many") else judge_thin(op, rep["res"], out) if k == "thin" else judge_many(rep["res"], out)
            if k not in ("thin", "many") and rep.get("meshes") != expect_meshes(meshes):
                out.append(("model-changed", "the model differs from the one that was built"))
        for s, t in out:
            viol.append(("C18", s, "%s: %s" % (describe_op(op), t)))
            traces.append("  !! " + t)
        q = rep.get("res") or {}
        parts.append((rep["i"], rep["out"][:2], len(q.get("points", q.get("centers", []))), rep.get("drawn"),
                      [round(float(x), 2) + 0.0 for x in np.sum(np.array(q.get("points", q.get("centers", []))).reshape(-1, 3), axis=0)] if q else 0))
    if res.end != "ok":
        viol.append(("C18", "process-death", "the process ended with %s during %s" % (
            res.end, describe_op(plan["ops"][done]) if done < len(plan["ops"]) else "its end")))
    count("sessions")
    return {"violations": viol, "hash": st_sim.digest(parts), "stats": stats, "nontrivial": nontrivial, "traces": traces}


def freeze(plan, res):
    return plan


def shrinks(plan):
    ops = plan["ops"]
    for i in range(len(ops) - 1, 0, -1):
        yield dict(plan, ops=ops[:i] + ops[i + 1:])
    for i, o in enumerate(ops):
        def rep(x):
            return dict(plan, ops=ops[:i] + [x] + ops[i + 1:])
        if o["op"] == "model":
            for k, m in enumerate(o["meshes"]):
                yield rep(dict(o, meshes=o["meshes"][:k] + o["meshes"][k + 1:]))
                for t in range(len(m["tris"])):
                    yield rep(dict(o, meshes=o["meshes"][:k] + [dict(m, tris=m["tris"][:t] + m["tris"][t + 1:])] + o["meshes"][k + 1:]))
        if (o.get("stream") or {}).get("mode") in ("extreme", "low", "high"):
            yield rep(dict(o, stream=dict(o["stream"], mode="real")))


def describe(plan, res):
    return res["traces"]


def init():
    from . import st_eval
    st_eval.init()


COMPONENTS = {
    "real": ["sumo.threedee.model_sampler, voxelizer, voxel_grid, compute_bbox, gltf_model, mesh, textured_mesh, point_cloud",
             "sumo.metrics.mesh_evaluator.sample_element"],
    "stub": ["the random functions of numpy (uniform, rand, random_sample, randint)", "pymesh, pyny3d and the TkAgg backend (imports only)"]}
ASSUMPTIONS = ["triangles lie in separate cells so that every sampled point belongs to one face",
               "points of faces far away from the origin (32-bit rounding above 2 mm) are only counted"]
RULES = {"C18": "a run is a history of building, growing, sampling, voxelizing and thinning generated from the seed, each random draw taken "
                "from a uniform stream or one of extreme values; non-trivial: random numbers were drawn"}

"""Histories of evaluations: scenes are built, saved, loaded, edited and scored, over restarts and read faults.

Decides C17.  The metrics are computed a second time by an executable reference model from the raw
descriptors; what the evaluators and the evaluation program report must agree with it, for every random
stream, whatever was evaluated before, and never for scenes that could not be read.
"""
import copy
import errno
import math
import os
import random
import re
import shutil

import numpy as np

from . import st_run, st_sim, world
from .st_scene import RERRS

PROPS = ("C17",)
CATS = ["chair", "sofa", "floor", "wall", "desk", "floor", "not_a_category", "unknown"]
KEYS = ("shape_score", "rotation_error", "translation_error", "semantics_score", "perceptual_score")
RMS = ("rms_points_error", "rms_color_error")
DENSITY = 3000


# ---------------------------------------------------------------- contents
def g_pose(r, i, typ):
    k = r.random()
    if k < 0.5:
        axis, ang = [0, 1, 0], r.choice([0.0, math.pi / 2, math.pi, -math.pi / 2, r.uniform(-3.1, 3.1)])
    elif k < 0.6:
        axis, ang = r.choice([[1, 0, 0], [0, 0, 1]]), r.choice([math.pi / 2, math.pi])
    else:
        axis, ang = [r.gauss(0, 1) for _ in range(3)], r.uniform(-3.1, 3.1)
    gap = 8.0 if typ == "meshes" else r.choice([0.4, 1.5, 4.0])
    post = None
    if r.random() < 0.15:
        axis, ang, post = [0, 1, 0], r.choice([math.pi / 2, -math.pi / 2]), [[1, 0, 0], r.choice([math.pi / 2, r.uniform(-3, 3)])]
    return {"axis": axis, "ang": ang, "post": post, "t": [i * gap + r.uniform(-0.2, 0.2), r.uniform(-1, 1), r.uniform(-0.3, 0.3)]}


def g_score(r, used):
    while True:
        s = r.choice([round(r.random(), 3), r.random(), r.uniform(0, 100)])
        if s not in used:
            used.add(s)
            return s


def g_gt(r, typ, i):
    e = {"id": r.choice(["%d", "gt_%d", "g %d"]) % i, "category": r.choice(CATS), "sym": r.choice([0, r.randrange(len(world.SYMS))]),
         "score": -1, "evaluated": r.random() < 0.8, "pose": g_pose(r, i, typ)}
    if typ == "bounding_box":
        c = [r.uniform(-0.3, 0.3) for _ in range(3)]
        s = [r.uniform(0.2, 1.2) for _ in range(3)]
        e["bounds"] = [[a - b for a, b in zip(c, s)], [a + b for a, b in zip(c, s)]]
    elif typ == "voxels":
        e["vox"] = {"seed": r.getrandbits(30), "n": r.choice([1, 3, 10, 40]), "size": r.choice([0.1, 0.07, 0.25]),
                    "corner": [r.choice([0.0, -0.5, 0.33]) for _ in range(3)], "span": r.choice([1, 4, 9]), "parts": 1}
    else:
        e["box"] = {"d": [[round(r.uniform(0.2, 0.9), 2) for _ in range(3)] for _ in range(r.choice([1, 1, 2]))],
                    "c": [r.randrange(256) for _ in range(3)] if r.random() < 0.7 else None,
                    "px": [r.choice([1, 2, 4]), r.choice([1, 3])]}
    return e


def g_det(r, typ, g, i, used):
    """A detection near ground truth element g."""
    e = copy.deepcopy(g)
    e["id"] = r.choice(["%d", "det_%d", "d %d"]) % i if r.random() < 0.5 else "x%d" % i
    e["score"] = g_score(r, used)
    e["evaluated"] = r.random() < 0.5
    e["sym"] = 0 if r.random() < 0.5 else e["sym"]
    if r.random() < 0.25:
        e["category"] = r.choice(CATS)
    if typ == "meshes":
        v = np.array([r.gauss(0, 1) for _ in range(3)])
        v = v / np.linalg.norm(v) * r.choice([0.0, 0.001, 0.01, 0.02])
        e["pose"]["t"] = [a + float(b) for a, b in zip(e["pose"]["t"], v)]
        if not e["pose"]["post"]:
            e["pose"]["post"] = [[r.choice([0, 1, 1]), 1, 0.3], r.choice([0.0, 0.003, 0.01])]
        if r.random() < 0.5:
            e["box"]["c"] = [r.randrange(256) for _ in range(3)]
        return e
    s = r.choice([0.0, 0.003, 0.02, 0.1, 0.3])
    e["pose"]["t"] = [a + r.gauss(0, s) for a in e["pose"]["t"]]
    k = r.random()
    if e["pose"]["post"]:
        pass
    elif k < 0.3:
        e["pose"]["post"] = [[r.gauss(0, 1) for _ in range(3)], r.choice([0.01, 0.1, 0.5])]
    elif k < 0.5:
        e["pose"]["post"] = [r.choice([[1, 0, 0], [0, 1, 0], [0, 0, 1]]), r.choice([math.pi / 2, math.pi, -math.pi / 2, 1.0])]
    if typ == "bounding_box" and r.random() < 0.5:
        f = [r.choice([1.0, 0.8, 1.1, 1.5]) for _ in range(3)]
        e["bounds"] = [[a * b for a, b in zip(x, f)] for x in e["bounds"]]
    if typ == "voxels" and r.random() < 0.3:
        e["vox"]["seed"] = r.getrandbits(30)
    return e


def g_pair(r, typ):
    gt = [g_gt(r, typ, i) for i in range(r.choice([0, 1, 2, 2, 3, 4, 5]))]
    used, sub = set(), []
    for g in gt:
        for _ in range(r.choice([0, 1, 1, 1, 1, 2])):
            sub.append(g_det(r, typ, g, len(sub), used))
    for k in range(r.choice([0, 0, 1, 2])):
        e = g_gt(r, typ, len(gt) + 2 + k)
        e["id"], e["score"] = "x%d" % len(sub), g_score(r, used)
        sub.append(e)
    r.shuffle(sub)
    return {"type": typ, "elements": sub}, {"type": typ, "elements": gt}


# the terms of the perceptual score: weight, mean, standard deviation
TERMS = {"room_scale": (100, 1.0, 0.15), "true_obj_scale": (5, 1.0, 0.18), "relative_obj_scale": (5, 1.0, 0.18),
         "translation": (5, 0.0, 0.5), "elevation": (5, 0.0, 0.005)}


def terms_of(settings):
    given = settings.get("perceptual") or {}
    out = {k: (given[k][0], m, given[k][1]) if k in given else (w, m, sd) for k, (w, m, sd) in TERMS.items()}
    return out, given.get("missed_weight", 25), given.get("extra_weight", 25)


def g_settings(r):
    if r.random() < 0.3:
        return {}
    s = {}
    if r.random() < 0.8:
        s["thresholds"] = r.choice([[0.5], [0.6, 0.2, 0.4], [0.05, 0.9, 0.3], [0.3, 0.35]])
    if r.random() < 0.5:
        s["categories"] = r.choice([["chair", "sofa"], ["wall"], ["not_a_category", "floor", "desk"]])
    if r.random() < 0.3:
        s["overlap"] = r.choice([0.1, 0.2, 0.3])
    if r.random() < 0.3:
        s["perceptual"] = {k: [r.choice([0, 1, 5, 40]), r.choice([0.01, 0.3, 2.0])] for k in sorted(TERMS) if r.random() < 0.5}
        s["perceptual"].update({k: r.choice([0, 0.5, 60]) for k in ("missed_weight", "extra_weight") if r.random() < 0.6})
    return s


def g_faults(r):
    do = r.choice(["err", "err", "short"])
    f = {"on": r.choice(["read", "openr", "read", "any", "close"]) if do == "err" else "read", "do": do,
         "nth": 1 + int(30 * r.random() ** 2)}
    if do == "err":
        f["err"] = r.choice(RERRS)
        if r.random() < 0.2:
            f["len"] = 1000
    else:
        f.update(frac=r.choice([0, 1, 64, 128, 200]), len=r.choice([1, 3, 1000]))
    return [f]


def g_edit(r, typ, slot, n, what=None):
    e = {"op": "edit", "slot": slot, "k": r.randrange(8),
         "what": what or r.choice(["pose", "score", "category", "evaluated", "drop", "sym", "order"]), "i": n}
    e["v"] = {"pose": [r.uniform(-0.1, 0.1) for _ in range(3)], "score": r.random() * 1000 + 100 + n,
              "category": r.choice(CATS), "sym": r.randrange(len(world.SYMS))}.get(e["what"])
    if typ == "meshes" and e["what"] == "pose":
        e["v"] = [20.0, 0.0, 0.0]
    return e


def gen(prop, seed):
    r = random.Random(seed)
    typ = r.choice(["bounding_box", "bounding_box", "voxels", "meshes"])
    sub, gt = g_pair(r, typ)
    lives = [[{"op": "new", "slot": "s", "scene": sub}, {"op": "new", "slot": "g", "scene": gt},
              {"op": "save", "slot": "s"}, {"op": "save", "slot": "g"}]]
    n = 0
    for k in range(r.choice([1, 2, 2])):
        ops = lives[0] if k == 0 and r.random() < 0.6 else []
        if not ops:
            ops += [{"op": "load", "slot": "s"}, {"op": "load", "slot": "g"}]
            lives.append(ops)
        if r.random() < 0.25:
            s2, g2 = g_pair(r, r.choice(["bounding_box", typ]))
            ops += [{"op": "new", "slot": "s2", "scene": s2}, {"op": "new", "slot": "g2", "scene": g2}]
        for _ in range(r.randrange(2, 6)):
            x = r.random()
            if x < 0.5:
                a, b = r.choice([("s", "g"), ("s", "g"), ("s", "g"), ("g", "s"), ("g", "g"), ("s", "s"), ("s2", "g2"), ("s2", "g")])
                ops.append({"op": "eval", "sub": a, "gt": b, "settings": g_settings(r), "seed": r.getrandbits(30),
                            "keep": r.choice(["", "", "a", "b"]), "parts": r.random() < 0.2})
            elif x < 0.6:
                ops.append({"op": "again", "name": r.choice(["a", "b"])})
            elif x < 0.8:
                ops.append({"op": "tool", "sub": "s", "gt": "g", "how": r.choice(["rel", "abs"])})
                if r.random() < 0.6:
                    ops[-1]["faults"] = g_faults(r)
            else:
                ops.append(g_edit(r, typ, r.choice(["s", "g", "s2"]), n))
                n += 1
            if ops[-1]["op"] == "eval" and r.random() < 0.35:      # the same pair again after a change
                e = ops[-1]
                ops += [g_edit(r, typ, e[r.choice(["sub", "sub", "gt"])], n, r.choice(["pose", "pose", None])),
                        dict(e, seed=r.getrandbits(30), keep="")]
                n += 1
    last = [{"op": "tool", "sub": "s", "gt": "g", "how": "abs"}]
    if r.random() < 0.35:
        last[0]["damage"] = {"who": r.choice(["s", "g"]), "f": r.randrange(12), "how": r.choice(["trunc", "missing", "empty", "swap", "dir"]),
                             "at": r.random()}
    elif r.random() < 0.5:
        last[0]["faults"] = g_faults(r)
    if r.random() < 0.15:
        last[0]["gt"] = "s"
    lives.append(last)
    return {"prop": prop, "seed": seed & 0xffffffff, "type": typ, "lives": lives}


# ---------------------------------------------------------------- building with the code under test
def box_mesh(d, k):
    """Vertices and triangles of a box with half sizes d/2; the k-th of a model is shifted."""
    a, b, c = (x / 2 for x in d)
    v = np.array([[x, y, z] for x in (-a, a) for y in (-b, b) for z in (-c, c)], np.float32).T
    v = v + np.array([[k * 0.3], [0], [0]], np.float32)
    f = [0, 1, 3, 0, 3, 2, 4, 6, 7, 4, 7, 5, 0, 4, 5, 0, 5, 1, 2, 3, 7, 2, 7, 6, 0, 2, 6, 0, 6, 4, 1, 5, 7, 1, 7, 3]
    return np.ascontiguousarray(v), np.array(f, np.uint32)


def build_model(b):
    from sumo.threedee.gltf_model import GltfModel
    from sumo.threedee.mesh import Mesh
    from sumo.threedee.textured_mesh import TexturedMesh
    g = GltfModel()
    for k, d in enumerate(b["d"]):
        v, f = box_mesh(d, k)
        n = np.ascontiguousarray((v / np.linalg.norm(v, axis=0)).astype(np.float32))
        if b["c"] is None:
            g.add_mesh(Mesh(f, v, n))
        else:
            rs = np.random.RandomState(k)
            uv = np.ascontiguousarray(rs.uniform(-1, 2, (2, v.shape[1])).astype(np.float32))
            t = np.empty(b["px"] + [3], np.uint8)
            t[:] = b["c"]
            g.add_mesh(TexturedMesh(f, v, n, uv, t, np.zeros((1, 1, 3), np.uint8)))
    return g


def matrix(p):
    R = world.rot(p)
    return R @ world.rot({"axis": p["post"][0], "ang": p["post"][1]}) if p.get("post") else R


def build_scene(d):
    from sumo.base.vector import Vector3
    from sumo.geometry.pose3 import Pose3
    from sumo.geometry.rot3 import Rot3
    from sumo.semantic.project_object import ProjectObject
    from sumo.semantic.project_object_dict import ProjectObjectDict
    from sumo.semantic.project_scene import ProjectScene
    from sumo.threedee.box_3d import Box3d
    els = ProjectObjectDict()
    for e in d["elements"]:
        k = dict(id=e["id"], pose=Pose3(Rot3(matrix(e["pose"])), Vector3(*e["pose"]["t"])), category=e["category"],
                 symmetry=world.build_sym(e["sym"]), score=e["score"], evaluated=e["evaluated"])
        if "bounds" in e:
            a, b = e["bounds"]
            po = ProjectObject.gen_bounding_box_object(bounds=Box3d(np.array(a), np.array(b)), **k)
        elif "vox" in e:
            vg = world.build_vox(e["vox"])
            po = ProjectObject.gen_voxels_object(voxels=vg, bounds=vg.bounds(), **k)
        else:
            from sumo.threedee.compute_bbox import ComputeBbox
            m = build_model(e["box"])
            po = ProjectObject.gen_meshes_object(meshes=m, bounds=ComputeBbox().from_gltf_object(m), **k)
        els[po.id] = po
    return ProjectScene(d["type"], els)


def apply_edit(els, op):
    """An edit on a list of descriptors: (index, new list)."""
    if not els:
        return None
    i = op["k"] % len(els)
    e = els[i]
    w = op["what"]
    if w == "pose":
        e["pose"]["t"] = [a + b for a, b in zip(e["pose"]["t"], op["v"])]
    elif w == "drop":
        del els[i]
    elif w == "order":
        els.append(els.pop(i))
    elif w == "evaluated":
        e["evaluated"] = not e["evaluated"]
    else:
        e[w] = op["v"]
    return i


def edit(scene, op):
    from sumo.geometry.pose3 import Pose3
    ids = list(scene.elements.keys())
    if not ids:
        return
    po = scene.elements[ids[op["k"] % len(ids)]]
    w = op["what"]
    if w == "pose":
        po.pose = Pose3(po.pose.R, po.pose.t + np.array(op["v"]))
    elif w == "drop":
        del scene.elements[po.id]
    elif w == "order":
        del scene.elements[po.id]
        scene.elements[po.id] = po
    elif w == "evaluated":
        po.evaluated = not po.evaluated
    elif w == "sym":
        po.symmetry = world.build_sym(op["v"])
    else:
        setattr(po, w, op["v"])


def settings_of(s):
    from sumo.metrics.evaluator import Evaluator
    d = Evaluator.default_settings()
    d["density"] = DENSITY
    if "thresholds" in s:
        d["thresholds"] = np.array(s["thresholds"])
    if "categories" in s:
        d["categories"] = list(s["categories"])
    if "overlap" in s:
        d["mesh_overlap_thresh"] = d["voxel_overlap_thresh"] = s["overlap"]
    if "perceptual" in s:
        terms, missed, extra = terms_of(s)
        d["perceptual"] = dict({k: {"weight": w, "mean": m, "std_dev": sd} for k, (w, m, sd) in terms.items()},
                               missed_weight=missed, extra_weight=extra)
    return d


def evaluator_of(typ):
    from sumo.metrics.bb_evaluator import BBEvaluator
    from sumo.metrics.mesh_evaluator import MeshEvaluator
    from sumo.metrics.voxel_evaluator import VoxelEvaluator
    return {"meshes": MeshEvaluator, "voxels": VoxelEvaluator, "bounding_box": BBEvaluator}[typ]


def parts_of(ev, typ):
    """The single metrics, asked for one by one and in another order."""
    m = {"perceptual_score": ev.perceptual_score(), "semantics_score": ev.semantics_score()}
    if typ != "bounding_box":
        m["rms_color_error"] = ev.rms_color_error()
        m["rms_points_error"] = ev.rms_points_error()
    m["rotation_error"], m["translation_error"] = ev.pose_error()
    m["shape_score"] = ev.shape_score()
    return m


TOOL = "/repo/tools/evaluate-one.py"


def run_tool(gt, sub):
    import contextlib
    import io
    import sys
    out = io.StringIO()
    old = sys.argv
    sys.argv = ["evaluate-one.py", gt, sub]
    try:
        with contextlib.redirect_stdout(out):
            exec(CODE, {"__name__": "__main__", "__file__": TOOL})
    finally:
        sys.argv = old
    return out.getvalue()


CODE = None
NAMES = {"Shape Score": "shape_score", "Translation Error": "translation_error", "Rotation Error": "rotation_error",
         "Semantics Score": "semantics_score", "Perceptual Score": "perceptual_score"}


def parse(text):
    m = {}
    for a, b in re.findall(r"^([A-Za-z ]+?) *\([^)]*\): *(\S+)$", text, re.M):
        if a in NAMES:
            m[NAMES[a]] = float(b)
    return m


def proc(env, arg):
    import gc
    from sumo.semantic.project_scene import ProjectScene
    p = st_run.Proc(env, world.observe_scene)
    S, kept = p.slots, {}
    if arg.get("seed") is not None:
        np.random.seed(arg["seed"] & 0xffffffff)
    for i, op in enumerate(arg["ops"]):
        k = op["op"]
        rep = {"i": i, "out": ("ok",), "info": {}}
        if k == "new":
            S[op["slot"]] = build_scene(op["scene"])
        elif k == "save":
            S[op["slot"]].save(env.work, op["slot"])
        elif k == "load":
            v, rep = p.run(i, op, lambda: ProjectScene.load(env.work, op["slot"]), {})
            if v is not None:
                S[op["slot"]] = v
        elif k == "edit":
            if op["slot"] in S:
                edit(S[op["slot"]], op)
        elif k == "eval":
            a, b = S.get(op["sub"]), S.get(op["gt"])
            if a is None or b is None or a.project_type != b.project_type:
                rep["out"] = ("skip",)
            else:
                np.random.seed(op["seed"])
                st = settings_of(op["settings"])

                def fn():
                    ev = evaluator_of(a.project_type)(a, b, st)
                    return ev, parts_of(ev, a.project_type) if op["parts"] else ev.evaluate_all()
                v, rep = p.run(i, op, fn, {})
                if v is not None:
                    rep["metrics"] = {x: float(y) for x, y in v[1].items()}
                    if op["keep"]:
                        kept[op["keep"]] = v[0]
        elif k == "again":
            ev = kept.get(op["name"])
            if ev is None:
                rep["out"] = ("skip",)
            else:
                v, rep = p.run(i, op, ev.evaluate_all, {})
                if v is not None:
                    rep["metrics"] = {x: float(y) for x, y in v.items()}
        elif k == "tool":
            base = env.work if op["how"] == "abs" else "."
            v, rep = p.run(i, op, lambda: run_tool(os.path.join(base, op["gt"]), os.path.join(base, op["sub"])), {})
            if v is not None:
                rep["text"] = v
        gc.collect()
        if RATIOS:
            rep["solids"] = sorted(RATIOS)
            RATIOS.clear()
        p.report(rep, [op.get("slot")], i == len(arg["ops"]) - 1)


# ---------------------------------------------------------------- the reference model
def convex_intersection(a, b):
    """Volume of the intersection of the convex hulls of two vertex sets (N x 3), and its vertices."""
    from scipy.optimize import linprog
    from scipy.spatial import ConvexHull, HalfspaceIntersection, QhullError
    o = a.mean(axis=0)
    try:
        ha, hb = ConvexHull(a - o), ConvexHull(b - o)
    except QhullError:
        return 0.0, None, None
    h = np.unique(np.round(np.vstack([ha.equations, hb.equations]), 12), axis=0)
    n = np.linalg.norm(h[:, :3], axis=1, keepdims=True)
    res = linprog([0, 0, 0, -1], A_ub=np.hstack([h[:, :3], n]), b_ub=-h[:, 3], bounds=[(None, None)] * 3 + [(0, None)])
    if res.status != 0 or res.x[3] < 1e-7:
        return 0.0, None, None
    pts = HalfspaceIntersection(h, res.x[:3]).intersections
    hull = ConvexHull(pts)
    return float(hull.volume), pts + o, hull


def corners(lo, hi):
    return np.array([[x, y, z] for x in (lo[0], hi[0]) for y in (lo[1], hi[1]) for z in (lo[2], hi[2])], float)


class Amb(Exception):
    """A value so close to a threshold that rounding decides."""


def shape(e):
    """(kind, data) for the similarity of an element, its bounds."""
    R, t = matrix(e["pose"]), np.array(e["pose"]["t"], float)
    if "bounds" in e:
        p = np.array(e["bounds"], float)
        lo, hi = p.min(0), p.max(0)
        c = corners(lo, hi)
        return ("box", c @ R.T + t, float(np.prod(hi - lo)), (lo, hi))
    if "vox" in e:
        size, corner, _, idx = world.voxel_arrays(e["vox"])
        ix = np.array(idx, float)
        lo, hi = corner + ix.min(0) * size, corner + (ix.max(0) + 1) * size
        return ("pts", (corner + (ix + 0.5) * size) @ R.T + t, None, (lo, hi))
    v = np.hstack([box_mesh(d, k)[0] for k, d in enumerate(e["box"]["d"])]).T.astype(float)
    return ("mesh", v @ R.T + t, None, (v.min(0), v.max(0)))


def nn(a, b):
    from scipy.spatial import cKDTree
    return cKDTree(b).query(a)[0], cKDTree(a).query(b)[0]


def similarity(x, y, th):
    if x[0] == "box":
        v = convex_intersection(x[1], y[1])[0]
        return v / (x[2] + y[2] - v)
    if x[0] == "pts":
        a, b = nn(x[1], y[1])
        d = np.concatenate([a, b])
        if np.any(np.abs(d - th) < 1e-5):
            raise Amb("distance")
        return float(np.sum(d <= th)) / len(d)
    if th < 0.15:
        raise Amb("sparse samples")
    if x[1].shape == y[1].shape and float(np.linalg.norm(x[1] - y[1], axis=1).max()) < 0.045:
        return 1.0
    lo = np.maximum(x[1].min(0), y[1].min(0)) - np.minimum(x[1].max(0), y[1].max(0))
    if lo.max() > th + 0.05:
        return 0.0
    raise Amb("mesh overlap")


def ap(matches, n_gt):
    """Area under the interpolated precision-recall curve; matches by decreasing score."""
    tp = 0
    pr = []
    for k, m in enumerate(matches):
        tp += m
        pr.append((tp / n_gt, tp / (k + 1)))
    area, last = 0.0, 0.0
    for k, (rc, _) in enumerate(pr):
        area += (rc - last) * max(p for _, p in pr[k:])
        last = rc
    return area


def axis_rot(axis, ang):
    return world.rot({"axis": [int(axis == k) for k in range(3)], "ang": ang})


def angle(A, B):
    D = A.T @ B
    s = np.array([D[2, 1] - D[1, 2], D[0, 2] - D[2, 0], D[1, 0] - D[0, 1]])
    return math.atan2(np.linalg.norm(s), np.trace(D) - 1)


def rotation_error(det, gt):
    D, G = matrix(det["pose"]), matrix(gt["pose"])
    cands = [G]
    for axis, s in enumerate(world.SYMS[gt["sym"]]):
        if s == "spherical":
            return 0.0
        if s == "twoFold":
            cands += [c @ axis_rot(axis, math.pi) for c in cands]
        elif s == "fourFold":
            cands += [c @ axis_rot(axis, k * math.pi / 2) for c in list(cands) for k in (1, 2, 3)]
        elif s == "cylindrical":
            new = []
            for c in cands:
                e = []
                for M in (D, c):
                    if abs(M[2, 0]) > 0.999:
                        raise Amb("gimbal lock")
                    e.append([math.atan2(M[2, 1], M[2, 2]), math.asin(-M[2, 0]), math.atan2(M[1, 0], M[0, 0])])
                f = list(e[1])
                f[axis] = e[0][axis]
                new.append(axis_rot(2, f[2]) @ axis_rot(1, f[1]) @ axis_rot(0, f[0]))
            cands = new
    return min(angle(D, c) for c in cands)


def expected(sub, gt, settings):
    """The metrics of the white paper for two lists of descriptors; "rms" entries as (low, high)."""
    sc = sorted(e["score"] for e in sub["elements"])
    m = scores(sub, gt, settings)
    if any(a == b for a, b in zip(sc, sc[1:])):
        o = scores(dict(sub, elements=sub["elements"][::-1]), gt, settings)
        if any(abs(np.subtract(m[k], o[k])).max() > 1e-9 for k in m if np.all(np.isfinite(m[k]))):
            raise Amb("equal scores")
    return m


def scores(sub, gt, settings):
    typ = sub["type"]
    th = sorted(settings.get("thresholds") or np.linspace(0.25, 0.75, 11))
    cats = settings.get("categories")
    S, G = sub["elements"], gt["elements"]
    ss, sg = [shape(e) for e in S], [shape(e) for e in G]
    sim = [[similarity(x, y, settings.get("overlap", 0.15)) for y in sg] for x in ss]
    for row in sim:
        if any(abs(v - t) < 1e-5 for v in row for t in th):
            raise Amb("threshold")
    order = sorted(range(len(S)), key=lambda i: -S[i]["score"])

    def assoc(dets, gts, t):
        out, taken = {}, set()
        for i in dets:
            c = [j for j in gts if j not in taken and sim[i][j] >= t]
            if c:
                b = max(sim[i][j] for j in c)
                if sum(abs(sim[i][j] - b) < 1e-6 for j in c) > 1:
                    raise Amb("similarity")
                j = [j for j in c if sim[i][j] == b][0]
                out[i] = j
                taken.add(j)
        return out

    def score_ap(dets, a, n):
        return ap([int(i in a) for i in dets if i not in a or G[a[i]]["evaluated"]], n)

    m = {k: [] for k in ("shape", "rot", "tra", "sem", "per", "pts", "col")}
    n_gt = sum(e["evaluated"] for e in G)
    known = CATALOGUE if cats is None else set(cats)
    area = lambda e, s: (s[3][1] - s[3][0])[0] * (s[3][1] - s[3][0])[2]
    ga = sum(area(e, s) for e, s in zip(G, sg) if e["category"] == "floor" and e["evaluated"])
    sa = sum(area(e, s) for e, s in zip(S, ss) if e["category"] == "floor")
    room = sa / ga if ga > 0 else 0
    vol = lambda s: float(np.prod(s[3][1] - s[3][0]))

    terms, missed, extra = terms_of(settings)

    def term(k, x):
        w, mean, sd = terms[k]
        return np.array([w * math.exp(-0.5 * ((x - mean) / sd) ** 2), w])
    for t in th:
        a = assoc(order, range(len(G)), t)
        if n_gt:
            m["shape"].append(score_ap(order, a, n_gt))
        ev = [(i, j) for i, j in a.items() if G[j]["evaluated"]]
        if ev:
            m["rot"].append(np.mean([rotation_error(S[i], G[j]) for i, j in ev]))
            m["tra"].append(np.mean([np.linalg.norm(np.subtract(S[i]["pose"]["t"], G[j]["pose"]["t"])) for i, j in ev]))
        for c in sorted(known):
            n = sum(e["evaluated"] for e in G if e["category"] == c)
            if n:
                dets = [i for i in order if S[i]["category"] == c]
                m["sem"].append(score_ap(dets, assoc(dets, [j for j in range(len(G)) if G[j]["category"] == c], t), n))
        s = term("room_scale", room)             # score, and what would be perfect
        for i, j in ev:
            v = vol(sg[j])
            if v > 0:
                s = s + term("true_obj_scale", vol(ss[i]) / v)
            if v * room > 0:
                s = s + term("relative_obj_scale", vol(ss[i]) / (v * room))
            p, q = S[i]["pose"]["t"], G[j]["pose"]["t"]
            s = s + term("translation", math.hypot(p[0] - q[0], p[2] - q[2])) + term("elevation", p[1] - q[1])
        s, top = s.tolist()
        s -= missed * sum(vol(sg[j]) for j in range(len(G)) if G[j]["evaluated"] and j not in a.values())
        s -= extra * sum(vol(ss[i]) for i in range(len(S)) if i not in a)
        m["per"].append(s / top if s > 0 else 0.0)
        for i, j in a.items():
            if typ == "voxels":
                d = np.concatenate(nn(ss[i][1], sg[j][1]))
                x = math.sqrt(float(np.mean(d * d)))
                m["pts"].append((x, x))
                m["col"].append(0.0)
            elif typ == "meshes":
                off = float(np.linalg.norm(ss[i][1] - sg[j][1], axis=1).max())
                own = 1 / math.sqrt(math.pi * DENSITY)
                m["pts"].append((0.5 * own, off + 2 * own))
                g = [128, 128, 128]
                m["col"].append(float(np.linalg.norm(np.subtract(S[i]["box"]["c"] or g, G[j]["box"]["c"] or g))))
    mean = lambda x, e: float(np.mean(x)) if len(x) else e
    out = {"shape_score": mean(m["shape"], math.nan), "rotation_error": mean(m["rot"], math.inf),
           "translation_error": mean(m["tra"], math.inf), "semantics_score": mean(m["sem"], math.nan),
           "perceptual_score": mean(m["per"], 0.0)}
    if typ != "bounding_box":
        out["rms_points_error"] = (mean([x for x, _ in m["pts"]], math.inf), mean([x for _, x in m["pts"]], math.inf))
        out["rms_color_error"] = mean(m["col"], math.inf)
    return out


CATALOGUE = set(CATS) - {"not_a_category", "unknown"}


def diff(exp, got, tool=False):
    out = []
    for k, e in exp.items():
        if tool and k in RMS:
            continue
        if k not in got:
            out.append("%s is missing" % k)
            continue
        g = got[k]
        lo, hi = e if isinstance(e, tuple) else (e, e)
        if math.isnan(lo):
            good = math.isnan(g)
        elif math.isinf(lo):
            good = g == lo
        else:
            tol = 2e-4 * max(1.0, abs(lo))
            good = lo - tol <= g <= hi + tol
        if not good:
            out.append("%s is %r, not %s" % (k, g, "%.6g" % lo if lo == hi else "between %.4g and %.4g" % (lo, hi)))
    return out


def rounded(m):
    """Without the last bits, which depend on how memory is aligned."""
    return sorted((k, round(x, 5) + 0.0) for k, x in (m or {}).items())


# ---------------------------------------------------------------- runs
def describe_op(op):
    k = op["op"]
    if k == "eval":
        t = "evaluate %s against %s %s" % (op["sub"], op["gt"], op["settings"] or "")
    elif k == "tool":
        t = "evaluate-one.py %s %s" % (op["gt"], op["sub"])
    elif k == "edit":
        t = "edit %s: %s of element %d" % (op["slot"], op["what"], op["k"])
    else:
        t = "%s %s" % (k, op.get("slot") or op.get("name"))
    if op.get("faults"):
        t += " under " + ", ".join("%s(%s %s#%d)" % (f["do"], errno.errorcode.get(f["err"], "") if "err" in f else "",
                                                     f["on"], f["nth"]) for f in op["faults"])
    return t


def damage(root, d):
    fs = []
    top = os.path.join(root, "w", d["who"])
    for base, dirs, files in os.walk(top):
        dirs.sort()
        fs += [os.path.join(base, f) for f in sorted(files)]
    if not fs:
        return None
    p = fs[d["f"] % len(fs)]
    how, n = d["how"], os.path.getsize(p)
    if how == "trunc":
        os.truncate(p, int(n * d["at"]))
    elif how == "empty":
        os.truncate(p, 0)
    elif how == "swap":
        with open(p, "wb") as f:
            f.write(b"<html>404</html>")
    else:
        os.remove(p)
        if how == "dir":
            os.mkdir(p)
    return "%s of %s" % (how, p[len(root):])


def execute(plan, scratch):
    root = st_sim.fresh(scratch)
    viol, traces, parts, stats = [], [], [], {}
    disk = {}
    nontrivial = False

    def count(k, n=1):
        stats[k] = stats.get(k, 0) + n

    def v(sig, msg):
        viol.append(("C17", sig, msg))
        traces.append("  !! %s: %s" % (sig, msg))
    for k, ops in enumerate(plan["lives"]):
        where = "life %d:" % (k + 1)
        dmg = None
        for op in ops:
            if op.get("damage"):
                x = damage(root, op["damage"])
                if x:
                    dmg = x
                    nontrivial = True
                    count("fault.damage " + op["damage"]["how"])
                    traces.append("  damage: " + x)
        res = st_sim.session(root, proc, {"ops": ops, "seed": plan["seed"] + k}, seed=plan["seed"] + k)
        traces.append("life %d: %s" % (k + 1, res.end))
        S, kept = {}, {}
        for m in res.msgs:
            if m[0] != "op":
                continue
            rep = m[1]
            op = ops[rep["i"]]
            o, out = op["op"], rep["out"]
            what = "%s %s" % (where, describe_op(op))
            traces.append("  %s -> %s" % (describe_op(op), out[0] if out[0] != "exc" else "%s: %s" % (out[1][0], out[2])))
            count("op." + o + (" failed" if out[0] == "exc" else ""))
            for q in rep.get("solids", []):
                if q != 1:
                    v("box-mesh" if abs(q - 5 / 6) < 1e-4 else "bad-box-mesh",
                      "the mesh made of a bounding box encloses %.4f of its volume" % q)
            hard = False
            for f, n in zip(op.get("faults") or [], rep.get("fired", [])):
                if n:
                    nontrivial = True
                    count("fault.%s %s" % (f["do"], f["on"]), n)
                    hard = hard or f["do"] == "err"
            if o == "new":
                S[op["slot"]] = copy.deepcopy(op["scene"])
            elif o == "save":
                disk[op["slot"]] = copy.deepcopy(S[op["slot"]])
            elif o == "load":
                if out[0] == "ok":
                    S[op["slot"]] = copy.deepcopy(disk[op["slot"]])
                else:
                    v("load-failed", what + " failed: " + repr(out[2]))
            elif o == "edit" and op["slot"] in S:
                apply_edit(S[op["slot"]]["elements"], op)
                kept = {a: b for a, b in kept.items() if op["slot"] not in b[2:]}
            elif o in ("eval", "again", "tool") and out[0] != "skip":
                if o == "eval":
                    a, b, st = S[op["sub"]], S[op["gt"]], op["settings"]
                    nontrivial = nontrivial or len(kept) > 0
                elif o == "again":
                    nontrivial = True
                    if op["name"] not in kept:
                        continue
                    a, b, st = S[kept[op["name"]][2]], S[kept[op["name"]][3]], kept[op["name"]][0]
                else:
                    a, b, st = disk[op["sub"]], disk[op["gt"]], {}
                exp = None
                try:
                    exp = expected(a, b, st)
                    if a is b and "rms_points_error" in exp:
                        exp["rms_points_error"] = (0.0, exp["rms_points_error"][1])       # the same sampled points
                except Amb as e:
                    count("ambiguous: %s" % e)
                if o == "tool":
                    if out[0] == "ok":
                        d = diff(exp, parse(rep["text"]), True) if exp else []
                        if d:
                            v("wrong-score", "%s%s printed wrong scores: %s" % (what, " (damage: %s)" % dmg if dmg else "", "; ".join(d[:3])))
                        count("judged" if exp else "not judged")
                    elif not hard and not dmg:
                        v("failed", "%s failed without a fault: %s" % (what, out[1:]))
                    elif "Exception" not in out[1]:
                        v("failed", "%s ended with no error: %s" % (what, out[1]))
                elif out[0] == "exc":
                    v("failed", "%s failed: %s" % (what, out[1:]))
                else:
                    d = diff(exp, rep["metrics"]) if exp else []
                    if d:
                        v("wrong-metric", "%s: %s" % (what, "; ".join(d[:3])))
                    count("judged" if exp else "not judged")
                    if o == "eval" and op["keep"]:
                        kept[op["keep"]] = (st, 0, op["sub"], op["gt"])
            elif o == "eval":
                pass
            if o == "eval" and out[0] == "skip" or o == "new":
                kept = {a: b for a, b in kept.items() if op.get("slot") not in b[2:]}
            if o in ("eval", "again", "tool", "load") and rep.get("tmp"):
                v("left-behind", what + " left temporary files: %s" % rep["tmp"])
            for name, obs in sorted((rep.get("slots") or {}).items()):
                d = content_diff(S.get(name), obs)
                if d:
                    v("changed", "after %s scene %s differs: %s" % (what, name, "; ".join(d[:3])))
                    S.pop(name, None)
            parts.append((out[:2], rounded(rep.get("metrics")), rounded(parse(rep.get("text") or "")), rep.get("nops"), rep.get("slots")))
        if res.end != "ok":
            v("process-death", "%s the process ended with %s" % (where, res.end))
        parts.append((res.end, res.counts))
        count("sessions")
        count("calls", res.nops)
    seen, out = set(), []
    for x in viol:
        if x not in seen:
            seen.add(x)
            out.append(x)
    return {"violations": out, "hash": st_sim.digest(parts), "stats": stats, "nontrivial": nontrivial, "traces": traces}


def content_diff(want, obs):
    """What evaluating must not change: identity, attributes, pose and shape of every element."""
    if want is None:
        return []
    if "observation_failed" in obs:
        return [obs["observation_failed"]]
    if [e["id"] for e in obs["elements"]] != [e["id"] for e in want["elements"]]:
        if sorted(e["id"] for e in obs["elements"]) != sorted(e["id"] for e in want["elements"]):
            return ["elements are %r, not %r" % ([e["id"] for e in obs["elements"]], [e["id"] for e in want["elements"]])]
    out = []
    by = {e["id"]: e for e in obs["elements"]}
    for e in want["elements"]:
        o = by[e["id"]]
        for k, x in (("category", e["category"]), ("evaluated", e["evaluated"]), ("sym", list(world.SYMS[e["sym"]]))):
            if o[k] != x:
                out.append("element %r: %s is %r, not %r" % (e["id"], k, o[k], x))
        if not isinstance(o["score"], (int, float)) or abs(o["score"] - e["score"]) > 1e-9 * max(1, abs(e["score"])):
            out.append("element %r: score is %r, not %r" % (e["id"], o["score"], e["score"]))
        if not world.vec_close(matrix(e["pose"]).tolist(), o["R"]) or not world.vec_close(e["pose"]["t"], o["t"]):
            out.append("element %r: pose changed" % e["id"])
        lo, hi = shape(e)[3]
        if not world.vec_close([lo.tolist(), hi.tolist()], o.get("bounds")):
            out.append("element %r: bounds are %r, not %r" % (e["id"], o.get("bounds"), [lo.tolist(), hi.tolist()]))
        if "vox" in e:
            out += world.diff_vox(world.expect_vox(e["vox"])[0], o.get("vox") or {"observation_failed": "no voxels"})
        if "box" in e and [m["v"] for m in o.get("model") or []] != [world.h(box_mesh(d, k)[0]) for k, d in enumerate(e["box"]["d"])]:
            out.append("element %r: mesh changed" % e["id"])
    return out


def freeze(plan, res):
    return plan


def shrinks(plan):
    ls = plan["lives"]

    def with_(x):
        return dict(plan, lives=x)
    for i in range(1, len(ls)):
        yield with_(ls[:i] + ls[i + 1:])
    for i, ops in enumerate(ls):
        for q in range(len(ops) - 1, -1, -1):
            if i == 0 and q < 4:
                continue
            yield with_(ls[:i] + [ops[:q] + ops[q + 1:]] + ls[i + 1:])
    for i, ops in enumerate(ls):
        for q, o in enumerate(ops):
            def rep(o2):
                return with_(ls[:i] + [ops[:q] + [o2] + ops[q + 1:]] + ls[i + 1:])
            if o.get("faults"):
                yield rep({a: b for a, b in o.items() if a != "faults"})
            if o["op"] == "new":
                for z in range(len(o["scene"]["elements"])):
                    e = o["scene"]["elements"]
                    yield rep(dict(o, scene=dict(o["scene"], elements=e[:z] + e[z + 1:])))
            if o.get("settings"):
                yield rep(dict(o, settings={}))


def describe(plan, res):
    return res["traces"]


# ---------------------------------------------------------------- what is not installed here
RATIOS = set()          # volume within the triangles over volume of the solid, of every mesh handed to pymesh


class StubMesh:
    """A convex solid given by its vertices; the sign of its volume follows the triangles."""

    def __init__(self, vertices, faces):
        from scipy.spatial import ConvexHull, QhullError
        self.vertices = np.asarray(vertices, float)
        self.faces = np.asarray(faces, int)
        self.volume = 0.0
        if len(self.faces):
            o = self.vertices.mean(axis=0)
            a, b, c = (self.vertices[self.faces[:, k]] - o for k in range(3))
            v = float(np.sum(np.einsum("ij,ij->i", a, np.cross(b, c))) / 6)
            try:
                self.volume = math.copysign(float(ConvexHull(self.vertices - o).volume), v)
                RATIOS.add(round(v / self.volume, 6))
            except QhullError:
                pass


def stub_boolean(a, b, operation="intersection", **kw):
    if operation != "intersection":
        raise NotImplementedError(operation)
    vol, pts, hull = convex_intersection(a.vertices, b.vertices)
    if pts is None:
        return StubMesh(np.zeros((0, 3)), np.zeros((0, 3), int))
    c = pts.mean(0)
    f = []
    for s in hull.simplices:
        p, q, r = pts[s]
        f.append(s if np.dot(np.cross(q - p, r - p), p - c) < 0 else s[[0, 2, 1]])      # inward: a negative volume
    return StubMesh(pts, np.array(f))


def init():
    import mimetypes
    import sys
    import types
    mimetypes.init()
    os.environ["MPLBACKEND"] = "Agg"
    import matplotlib
    use = matplotlib.use
    matplotlib.use = lambda backend, **kw: None if backend == "TkAgg" else use(backend, **kw)
    pm = types.ModuleType("pymesh")
    pm.form_mesh = lambda vertices, faces, voxels=None: StubMesh(vertices, faces)
    pm.boolean = stub_boolean
    mu = types.ModuleType("pymesh.meshutils")
    mu.remove_duplicated_vertices_raw = lambda v, f, *a, **k: (v, f, {})
    pm.meshutils = mu
    py = types.ModuleType("pyny3d")
    pg = types.ModuleType("pyny3d.geoms")
    py.geoms = pg
    for n, m in (("pymesh", pm), ("pymesh.meshutils", mu), ("pyny3d", py), ("pyny3d.geoms", pg)):
        sys.modules.setdefault(n, m)
    import h5py  # noqa
    import scipy.linalg, scipy.optimize, scipy.spatial  # noqa
    import cv2
    cv2.setNumThreads(1)
    import sumo.metrics.bb_evaluator, sumo.metrics.mesh_evaluator, sumo.metrics.voxel_evaluator  # noqa
    import sumo.semantic.project_scene  # noqa
    global CODE
    with open(TOOL) as f:
        CODE = compile(f.read(), TOOL, "exec")


COMPONENTS = {
    "real": ["sumo.metrics (evaluators and utilities)", "tools/evaluate-one.py", "sumo.semantic, sumo.threedee, sumo.geometry as loaded "
             "and used by them", "numpy, scipy, scikit-learn"],
    "stub": ["pymesh (convex intersection by half-spaces; volumes may be negative), pyny3d, the TkAgg backend",
             "outcome of every file system call", "random streams", "process lives (fork)"]}
ASSUMPTIONS = [
    "detection scores are distinct and no similarity lies within 1e-5 of a threshold (rounding would decide)",
    "meshes are closed boxes sampled densely enough that the similarity of every pair is 0 or 1 for all but astronomically few random streams",
    "pymesh intersects convex boxes correctly"]
RULES = {"C17": "a run is a history of process lives generated from the seed: scenes are built, saved, loaded, edited and evaluated in "
                "memory and by the program, the last life under read faults or damage; non-trivial: a fault or damage took effect or "
                "evaluators interleaved"}

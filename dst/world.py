"""Contents for the storage simulation: descriptors, builders, canonical forms and comparison.

A descriptor is plain JSON.  `expect_*` computes the canonical form of what a descriptor describes from
the raw arrays alone; `build_*` makes the objects with the code under test; `observe_*` reads such objects
through their public interface.  The simulation compares expected and observed canonical forms.
"""
import hashlib
import math

import numpy as np

SYMS = [("none", "none", "none"), ("twoFold", "none", "none"), ("none", "twoFold", "none"),
        ("none", "none", "twoFold"), ("fourFold", "none", "none"), ("none", "fourFold", "none"),
        ("none", "none", "fourFold"), ("fourFold", "twoFold", "twoFold"), ("twoFold", "fourFold", "twoFold"),
        ("twoFold", "twoFold", "fourFold"), ("fourFold", "fourFold", "fourFold"), ("twoFold", "twoFold", "twoFold"),
        ("cylindrical", "none", "none"), ("none", "cylindrical", "none"), ("none", "none", "cylindrical"),
        ("cylindrical", "twoFold", "twoFold"), ("twoFold", "cylindrical", "twoFold"),
        ("twoFold", "twoFold", "cylindrical"), ("spherical", "spherical", "spherical")]
DEFAULTS = {"version": "2.0", "categories_id": "fb_categories_v1_0",
            "categories_url": "https://sumochallenge.org/en/categories-1_0.json"}
CATS = ["chair", "bed", "unknown", "tv_stand", "wall", "sofa & co", "<table>", "\u30c6\u30fc\u30d6\u30eb",
        "caf\u00e9 \"x\"", "a'b", "with  two spaces", "tab\tinside", " lead", "trail ", "100%", "None", "1.5"]
IDS = ["%d", "obj_%d", "obj %d", "\u00e9l\u00e9ment%d", "<%d>", "a&b%d", "x.y.%d", "it's%d", "\u6905\u5b50%d",
       "A-%d", "%d.glb", "#%d", "100%%_%d", "q\"%d", "..%d", "-%d", "~%d", " %d"]
NAMES = ["scene%d", "sc ene%d", "sc\u00e8ne%d", "a.b%d", "s&%d", "[%d]", "x%d.xml", "-%d", "%d"]


# ---------------------------------------------------------------- generation
def g_pose(r):
    k = r.random()
    if k < 0.06:                   # whatever a pose is when nothing is said
        return {"axis": [0, 0, 1], "ang": 0.0, "t": [0.0, 0.0, 0.0], "default": True}
    axis = [r.gauss(0, 1) for _ in range(3)]
    if k < 0.15:
        axis, ang = [0, 0, 1], 0.0
    elif k < 0.3:
        axis, ang = r.choice([[1, 0, 0], [0, 1, 0], [0, 0, 1]]), r.choice([math.pi / 2, math.pi, -math.pi / 2])
    else:
        ang = r.uniform(-3.14, 3.14)
    s = 10 ** r.uniform(-4, 5) if r.random() < 0.3 else r.choice([0, 1, 10])
    t = [r.uniform(-s, s) if r.random() < 0.8 else 0.0 for _ in range(3)]
    return {"axis": axis, "ang": ang, "t": t}


def g_mesh(r, big=False):
    n = r.choice([3, 3, 4, 5, 8, 24, 60]) if not big else r.choice([65537, 70000])
    nt = r.choice([1, 1, 2, 3, 7, 12, 40]) if not big else r.choice([3, 60])
    return {"seed": r.getrandbits(30), "nv": n, "nt": nt, "tex": r.random() < 0.6,
            "scale": r.choice([0.01, 1.0, 1.0, 3.0, 250.0]), "off": r.choice([0.0, 0.0, -4.0, 1000.0]),
            "bc": ([r.choice([1, 2, 3, 4, 5, 7, 16]), r.choice([1, 2, 3, 4, 5, 9, 31])] if r.random() < 0.99 else [150, 149])
            if r.random() < 0.97 else [0, 0],
            "mr": [r.choice([1, 2, 3, 6]), r.choice([1, 2, 4, 5])] if r.random() < 0.95 else [0, 0],
            "flat": r.random() < 0.1}


def g_model(r, small=False):
    n = 1 if small else r.choice([1, 1, 1, 2, 2, 3, 5])
    return [g_mesh(r, big=(not small and r.random() < 0.004)) for _ in range(n)]


def g_voxels(r):
    return {"seed": r.getrandbits(30), "n": r.choice([1, 1, 2, 3, 10, 60]),
            "size": r.choice([0.1, 0.05, 1.0, 0.25, 0.37, 2.5]),
            "corner": [r.choice([0.0, 0.0, -1.5, 12.25, -1000.0, 0.1, -7.3]) for _ in range(3)],
            "span": r.choice([1, 3, 10, 50, 300, 40000]), "parts": r.choice([1, 1, 2, 3])}


def g_score(r):
    k = r.random()
    if k < 0.3:
        return -1
    if k < 0.8:
        return r.random()
    return r.choice([0, 1, 0.0, 1.0, 1e-12, 1e17, 123456789.123456789, -0.5, 1 / 3, 5e-324, 100])


def g_element(r, typ, i, small=False):
    e = {"id": r.choice(IDS[:2] if r.random() < 0.6 else IDS) % i, "category": r.choice(CATS[:5] if r.random() < .6 else CATS),
         "sym": r.randrange(len(SYMS)) if r.random() < 0.7 else 0, "score": g_score(r),
         "evaluated": r.random() < 0.7, "pose": g_pose(r)}
    if r.random() < 0.06:                                  # nothing said but what it is
        e.update(category="unknown", sym=0, score=-1, evaluated=True, plain=True)
    if typ == "bounding_box":
        s = r.choice([1.0, 1.0, 0.001, 5000.0])
        e["bounds"] = [[r.uniform(-s, s) for _ in range(3)] for _ in range(2)]
    elif typ == "voxels":
        e["vox"] = g_voxels(r)
    else:
        e["model"] = g_model(r, small)
    return e


def g_scene(r, typ=None, small=False, nmax=None):
    typ = typ or r.choice(["meshes", "meshes", "voxels", "bounding_box"])
    k = r.choice([0, 1, 1, 2, 2, 3, 4]) if typ != "bounding_box" else r.choice([0, 1, 2, 5, 12, 30])
    if nmax is not None:
        k = min(k, nmax)
    d = {"type": typ, "settings": None, "elements": [g_element(r, typ, i, small) for i in range(k)]}
    if r.random() < 0.4:
        d["settings"] = {"version": r.choice(["2.0", "1.0", "3.1-beta"]),
                         "categories_id": r.choice(["fb_categories_v1_0", "mine & yours", "\u30ab\u30c6"]),
                         "categories_url": r.choice(["https://x.org/?a=1&b=2", "file:///c.json", "x"])}
    return d


# ---------------------------------------------------------------- raw arrays
def mesh_arrays(d):
    rs = np.random.RandomState(d["seed"])
    nv, nt = d["nv"], d["nt"]
    v = (rs.uniform(-1, 1, (3, nv)) * d["scale"] + d["off"]).astype(np.float32)
    if d["flat"]:
        v[rs.randint(3)] = np.float32(d["off"])
    n = rs.normal(0, 1, (3, nv))
    n = (n / np.maximum(1e-9, np.linalg.norm(n, axis=0))).astype(np.float32)
    idx = rs.randint(0, nv, 3 * nt).astype(np.uint32)
    idx[-1] = nv - 1
    out = {"idx": idx, "v": np.ascontiguousarray(v), "n": np.ascontiguousarray(n), "tex": d["tex"]}
    if d["tex"]:
        out["uv"] = np.ascontiguousarray(rs.uniform(-0.5, 1.5, (2, nv)).astype(np.float32))
        out["bc"] = rs.randint(0, 256, d["bc"] + [3]).astype(np.uint8)
        out["mr"] = rs.randint(0, 256, d["mr"] + [3]).astype(np.uint8)
    return out


def voxel_arrays(d):
    """(voxel size, min corner, list of point arrays, set of indices)"""
    rs = np.random.RandomState(d["seed"])
    idx = rs.randint(0, d["span"], (d["n"], 3))
    if d["span"] > 1000:
        idx[:, 2] %= 50
    corner = np.array(d["corner"])
    pts = corner + (idx + 0.5 + rs.uniform(-0.3, 0.3, idx.shape)) * d["size"]
    parts = [p for p in np.array_split(pts, d["parts"]) if len(p)]
    return d["size"], corner, parts, sorted(set(map(tuple, idx.tolist())))


def rot(p):
    a = np.array(p["axis"], float)
    a = a / np.linalg.norm(a)
    c, s = math.cos(p["ang"]), math.sin(p["ang"])
    dd = np.outer(a, a)
    sk = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
    return dd + c * (np.eye(3) - dd) + s * sk


# ---------------------------------------------------------------- canonical forms
def h(a):
    a = np.ascontiguousarray(a)
    return "%s%s:%s" % (a.dtype.str, list(a.shape), hashlib.sha256(a.tobytes()).hexdigest()[:12])


def box_of(points3n):
    return [[float(x) for x in np.amin(points3n, axis=1)], [float(x) for x in np.amax(points3n, axis=1)]]


def canon_mesh(a):
    c = {"idx": h(a["idx"]), "v": h(a["v"]), "n": h(a["n"]), "tex": bool(a["tex"])}
    if a["tex"]:
        c.update(uv=h(a["uv"]), bc=h(a["bc"]), mr=h(a["mr"]))
    return c


def expect_model(model):
    arrs = [mesh_arrays(m) for m in model]
    box = box_of(np.hstack([a["v"] for a in arrs]))
    return [canon_mesh(a) for a in arrs], box


def expect_vox(d):
    size, corner, parts, idx = voxel_arrays(d)
    ix = np.array(idx, float)
    box = [list(corner + ix.min(0) * size), list(corner + (ix.max(0) + 1) * size)]
    return {"size": size, "corner": [float(x) for x in corner], "n": len(idx), "idx": h(np.array(idx, np.int64)),
            "lo": ix.min(0).tolist(), "hi": ix.max(0).tolist(), "_ix": idx}, [[float(x) for x in b] for b in box]


def more_voxels(op):
    """Indices of the voxels an 'addvox' operation adds."""
    return np.random.RandomState(op["seed"]).randint(0, op["span"], (op["n"], 3))


def vox_add(c, ix):
    """The canonical grid c (whose indices are known) with more voxels; and its bounding box."""
    idx = sorted(set(map(tuple, c["_ix"])) | set(map(tuple, ix.tolist())))
    a = np.array(idx, float)
    c = dict(c, n=len(idx), idx=h(np.array(idx, np.int64)), lo=a.min(0).tolist(), hi=a.max(0).tolist(), _ix=idx)
    return c, vox_box(c)


def vox_box(c):
    """Bounding box of a canonical voxel grid."""
    return [[o + i * c["size"] for o, i in zip(c["corner"], c["lo"])],
            [o + (i + 1) * c["size"] for o, i in zip(c["corner"], c["hi"])]]


def expect_element(e, typ):
    b = None
    c = {"id": e["id"], "category": e["category"], "sym": list(SYMS[e["sym"]]), "score": e["score"],
         "evaluated": e["evaluated"], "type": typ, "R": rot(e["pose"]).tolist(), "t": list(map(float, e["pose"]["t"]))}
    if typ == "bounding_box":
        p = np.array(e["bounds"])
        b = [p.min(0).tolist(), p.max(0).tolist()]
        c["bounds"] = b
    elif typ == "voxels":
        c["vox"], b = expect_vox(e["vox"])
    else:
        c["model"], b = expect_model(e["model"])
    c["_box"] = b        # the bounding box of the shape; shown by loaded scenes
    return c


def expect_scene(d):
    return {"type": d["type"], "settings": dict(d["settings"] or DEFAULTS),
            "elements": [expect_element(e, d["type"]) for e in d["elements"]]}


def as_loaded(c):
    """What a loaded scene shows: like the saved one, with the bounds that were written."""
    return dict(c, elements=[dict(e, bounds=e["_box"]) for e in c["elements"]])


# ---------------------------------------------------------------- building with the code under test
def build_model(model):
    from sumo.threedee.gltf_model import GltfModel
    g = GltfModel()
    for m in model:
        g.add_mesh(build_mesh(m))
    return g


def build_mesh(m):
    from sumo.threedee.mesh import Mesh
    from sumo.threedee.textured_mesh import TexturedMesh
    a = mesh_arrays(m)
    if a["tex"]:
        return TexturedMesh(a["idx"], a["v"], a["n"], a["uv"], a["bc"], a["mr"])
    return Mesh(a["idx"], a["v"], a["n"])


def build_vox(d):
    from sumo.threedee.voxel_grid import VoxelGrid
    size, corner, parts, _ = voxel_arrays(d)
    vg = VoxelGrid(size, corner, parts[0])
    for p in parts[1:]:
        vg.add_points(p)
    return vg


def build_pose(p):
    from sumo.base.vector import Vector3
    from sumo.geometry.pose3 import Pose3
    from sumo.geometry.rot3 import Rot3
    if p.get("default"):
        return Pose3()
    a = np.array(p["axis"], float)
    return Pose3(Rot3.AxisAngle(a / np.linalg.norm(a), p["ang"]), Vector3(*p["t"]))


def build_sym(i):
    from sumo.semantic.object_symmetry import ObjectSymmetry
    return ObjectSymmetry.from_strings(list(SYMS[i]))


def build_element(e, typ):
    from sumo.base.vector import Vector3f
    from sumo.semantic.project_object import ProjectObject
    from sumo.threedee.box_3d import Box3d
    k = dict(id=e["id"], pose=build_pose(e["pose"]), category=e["category"], symmetry=build_sym(e["sym"]),
             score=e["score"], evaluated=e["evaluated"])
    if e["pose"].get("default"):
        del k["pose"]
    if e.get("plain"):
        for x in ("category", "symmetry", "score", "evaluated"):
            del k[x]
    if typ == "bounding_box":
        a, b = e["bounds"]
        return ProjectObject.gen_bounding_box_object(bounds=Box3d(np.array(a), np.array(b)), **k)
    if typ == "voxels":
        vg = build_vox(e["vox"])
        return ProjectObject.gen_voxels_object(voxels=vg, bounds=vg.bounds(), **k)
    return ProjectObject.gen_meshes_object(meshes=build_model(e["model"]), **k)


def build_scene(d):
    from sumo.semantic.project_object_dict import ProjectObjectDict
    from sumo.semantic.project_scene import ProjectScene
    els = ProjectObjectDict()
    for e in d["elements"]:
        po = build_element(e, d["type"])
        els[po.id] = po
    if d["settings"] is None:
        return ProjectScene(d["type"], els)
    return ProjectScene(d["type"], els, dict(d["settings"]))


# ---------------------------------------------------------------- observing
def observe_mesh(m):
    a = {"idx": m.indices(), "v": m.vertices(), "n": m.normals(), "tex": bool(m.is_textured())}
    if a["tex"]:
        a.update(uv=m.uv_coords(), bc=m.base_color(), mr=m.metallic_roughness())
    return canon_mesh(a)


def observe_model(g):
    ms = g.primitive_meshes()
    return [observe_mesh(m) for m in ms]


def observe_vox(vg):
    c = np.asarray(vg.voxel_centers(), float)
    size = float(vg.voxel_size)
    corner = np.asarray(vg.min_corner, float)
    f = (c - corner) / size - 0.5
    i = np.rint(f)
    if len(f) and np.abs(f - i).max() > 0.01 * max(1.0, np.abs(f).max() * 1e-5):
        return {"size": size, "corner": corner.tolist(), "n": len(f), "idx": "off grid %r" % float(np.abs(f - i).max())}
    ix = sorted(map(tuple, i.astype(np.int64).tolist()))
    return {"size": size, "corner": corner.tolist(), "n": len(ix), "idx": h(np.array(ix, np.int64)),
            "lo": i.min(0).tolist() if len(ix) else [0, 0, 0], "hi": i.max(0).tolist() if len(ix) else [-1, -1, -1]}


def observe_element(po, payload=True):
    c = {"id": po.id, "category": po.category,
         "sym": [getattr(po.symmetry, "%s_symmetry" % k).name for k in "xyz"],
         "score": po.score if isinstance(po.score, (int, float)) else repr(po.score),
         "evaluated": po.evaluated, "type": po.project_type,
         "R": np.asarray(po.pose.R.matrix(), float).tolist(), "t": [float(x) for x in po.pose.t]}
    if po.bounds is not None:
        c["bounds"] = [[float(x) for x in po.bounds.min_corner], [float(x) for x in po.bounds.max_corner]]
    if payload:
        if po.meshes is not None:
            c["model"] = observe_model(po.meshes)
        if po.voxels is not None:
            c["vox"] = observe_vox(po.voxels)
    return c


def observe_scene(s):
    out = {"type": s.project_type, "settings": dict(s.settings), "elements": []}
    for k, po in s.elements.items():
        e = observe_element(po)
        if k != po.id:
            e["key"] = repr(k)
        out["elements"].append(e)
    return out


def observed(fn, x):
    try:
        return fn(x)
    except Exception as e:
        return {"observation_failed": "%s: %s" % (type(e).__name__, str(e)[:160])}


# ---------------------------------------------------------------- comparison
def close(a, b, tol=2e-5):
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    return a == b or abs(a - b) <= tol * max(1.0, abs(a)) or (a != a and b != b)


def vec_close(a, b, tol=2e-5):
    """Nested vectors, relative to the size of the whole vector (text keeps 8 digits of its largest)."""
    try:
        x, y = np.array(a, float), np.array(b, float)
    except (TypeError, ValueError):
        return False
    return x.shape == y.shape and bool(np.all(np.abs(x - y) <= tol * max(1e-3, float(np.abs(x).max(initial=0)))))


def diff_mesh(i, a, b, out):
    for k in ("tex", "idx", "v", "n", "uv", "bc", "mr"):
        if a.get(k) != b.get(k):
            out.append("mesh %d: %s is %s, not %s" % (i, {"v": "vertices", "n": "normals", "idx": "indices",
                                                          "uv": "texture coordinates", "bc": "base colour texture",
                                                          "mr": "metallic/roughness texture",
                                                          "tex": "textured"}[k], b.get(k), a.get(k)))


def diff_model(a, b):
    out = []
    if isinstance(b, dict):
        return ["model: %s" % b.get("observation_failed")]
    if len(a) != len(b):
        return ["%d meshes, not %d" % (len(b), len(a))]
    for i, (x, y) in enumerate(zip(a, b)):
        diff_mesh(i, x, y, out)
    return out


def diff_vox(a, b):
    out = []
    if "observation_failed" in b:
        return ["voxels: " + b["observation_failed"]]
    if not close(a["size"], b["size"], 1e-12):
        out.append("voxel size %r, not %r" % (b["size"], a["size"]))
    if not vec_close(a["corner"], b["corner"], 1e-12):
        out.append("min corner %r, not %r" % (b["corner"], a["corner"]))
    if a["n"] != b["n"] or a["idx"] != b["idx"]:
        out.append("occupied voxels %d %s, not %d %s" % (b["n"], b["idx"], a["n"], a["idx"]))
    return out


def diff_element(a, b, bounds=True, exact=False):
    out = []
    for k in ("id", "category", "sym", "evaluated", "type"):
        if a[k] != b.get(k):
            out.append("%s is %r, not %r" % (k, b.get(k), a[k]))
    if "key" in b:
        out.append("stored under key %s" % b["key"])
    if not (isinstance(b.get("score"), (int, float)) and float(a["score"]) == float(b["score"])):
        out.append("score is %r, not %r" % (b.get("score"), a["score"]))
    if not vec_close(a["R"], b["R"], 1e-9) or not vec_close(a["t"], b["t"], 1e-9):
        out.append("pose is %r %r, not %r %r" % (b["R"], b["t"], a["R"], a["t"]))
    if bounds and a.get("bounds") is not None:
        if b.get("bounds") is None or not vec_close(a["bounds"], b["bounds"], 1e-9):
            out.append("bounds are %r, not %r" % (b.get("bounds"), a["bounds"]))
    if bounds and "bounds" in a and a["bounds"] is None and b.get("bounds") is not None:
        out.append("bounds are %r, not left out" % (b["bounds"],))
    if ("model" in a) != ("model" in b) or ("vox" in a) != ("vox" in b):
        out.append("has %s, not %s" % ([k for k in ("model", "vox") if k in b], [k for k in ("model", "vox") if k in a]))
    else:
        if "model" in a:
            out += diff_model(a["model"], b["model"])
        if "vox" in a:
            out += diff_vox(a["vox"], b["vox"])
    return out


def diff_scene(a, b, exact=False):
    """Differences of the observed scene b from the expected one a."""
    if "observation_failed" in b:
        return [b["observation_failed"]]
    out = []
    if a["type"] != b["type"]:
        out.append("project type is %r, not %r" % (b["type"], a["type"]))
    if a["settings"] != b["settings"]:
        out.append("settings are %r, not %r" % (b["settings"], a["settings"]))
    ia, ib = [e["id"] for e in a["elements"]], [e["id"] for e in b["elements"]]
    if sorted(ia) != sorted(ib):
        out.append("elements are %r, not %r" % (ib, ia))
        return out
    mb = {e["id"]: e for e in b["elements"]}
    for e in a["elements"]:
        out += ["element %r: %s" % (e["id"], x) for x in diff_element(e, mb[e["id"]], exact=exact)]
    return out

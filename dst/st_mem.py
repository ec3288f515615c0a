"""Histories of meshes, models, point clouds and boxes in memory, under an adversarial allocator.

Decides C20.  A run is a history of operations on several objects whose lifetimes the seed decides; freed memory is
overwritten at once (glibc M_PERTURB), arguments are overwritten after the call, returned arrays are overwritten by the
caller.  After every operation every living object is compared with a reference model made of plain arrays.
"""
import ctypes
import gc
import math
import random

import numpy as np

from . import st_run, st_sim, world

PROPS = ("C20",)
F4 = np.float32


# ---------------------------------------------------------------- contents
def g_mesh(r, tex=None):
    nv = r.choice([0, 1, 3, 3, 4, 5, 8, 12, 30])
    return {"seed": r.getrandbits(30), "nv": nv, "nt": r.choice([0, 1, 2, 4, 9, 20]) if nv else 0,
            "zero": r.random() < 0.3, "scale": r.choice([1.0, 1.0, 10.0, 0.01, 1000.0]),
            "tex": r.random() < 0.6 if tex is None else tex, "bc": [r.choice([1, 2, 3, 7]), r.choice([1, 2, 5, 33])],
            "mr": r.choice([[0, 0], [1, 1], [2, 3], [4, 4]]), "f": r.random() < 0.3}


def mesh_arrays(d):
    rs = np.random.RandomState(d["seed"])
    nv, nt = d["nv"], d["nt"]
    v = (rs.uniform(-1, 1, (3, nv)) * d["scale"]).astype(F4)
    if d["zero"]:
        for i in range(0, nv, 3):
            v[:, i] = 0
    n = rs.normal(0, 1, (3, nv))
    n = (n / np.maximum(1e-9, np.linalg.norm(n, axis=0))).astype(F4)
    out = {"k": "M", "idx": rs.randint(0, max(1, nv), 3 * nt).astype(np.uint32), "v": v, "n": n}
    if d["tex"]:
        out.update(k="T", uv=rs.uniform(-2, 2, (2, nv)).astype(F4), bc=rs.randint(0, 256, d["bc"] + [3]).astype(np.uint8),
                   mr=rs.randint(0, 256, d["mr"] + [3]).astype(np.uint8))
    return out


def g_cloud(r):
    return {"seed": r.getrandbits(30), "n": r.choice([0, 1, 2, 5, 20, 60]), "color": r.random() < 0.5}


def cloud_arrays(d):
    rs = np.random.RandomState(d["seed"])
    p = rs.uniform(-1, 1, (3, d["n"])) * 10.0 ** rs.randint(-2, 4)
    return {"k": "P", "p": p, "c": rs.randint(0, 256, (3, d["n"])).astype(np.uint8) if d["color"] and d["n"] else None}


NAMES = "abcdef"


def gen(prop, seed):
    r = random.Random(seed)
    kinds = {}          # slot -> kind expected (only to propose sensible operations)
    ops = []

    def slot(k):
        c = sorted(s for s, x in kinds.items() if x in k)
        return r.choice(c) if c else None

    for _ in range(r.randrange(6, 34)):
        new = r.choice(NAMES)
        m, t, g, p, b = slot("MT"), slot("T"), slot("G"), slot("P"), slot("B")
        todo = [("new", 3)]
        if m:
            todo += [("turn", 2), ("clean", 1), ("poke", 1), ("merge", 4), ("replace", 2), ("gadd", 4 if g else 0), ("box", 1),
                     ("color", 1), ("normals", 1), ("compare", 1)]
        if t:
            todo += [("renumber", 2), ("gfrom", 1)]
        if g:
            todo += [("gget", 3), ("gcopy", 2)]
        if p:
            todo += [("pmerge", 3), ("pappend", 3), ("pregister", 2), ("pturn", 2), ("ppoke", 1), ("box", 1)]
        if b:
            todo += [("bmerge", 1), ("bmesh", 2), ("bask", 2)]
        todo += [("bad", 1), ("drop", 2 if len(kinds) > 2 else 0), ("churn", 1), ("quads", 1), ("example", 1), ("open3d", 1), ("bnew", 1)]
        k = r.choices([x for x, _ in todo], [w for _, w in todo])[0]
        o = {"op": k}
        if k == "new":
            x = r.random()
            if x < 0.55:
                o["mesh"] = g_mesh(r)
                kind = "T" if o["mesh"]["tex"] else "M"
            elif x < 0.85:
                o["cloud"] = g_cloud(r)
                kind = "P"
            else:
                kind = "G"
            o["dst"] = new
            kinds[new] = kind
        elif k == "turn":
            o.update(slot=m, dst=new, pose=world.g_pose(r), only=r.random() < 0.3)
            kinds[new] = kinds[m]
        elif k == "clean":
            o.update(slot=m, what=r.choice(["edges", "origin"]), at=r.choice([0.0, 0.5, 1.0, 1.5, 5.0]))
        elif k in ("poke",):
            o.update(slot=m)
        elif k == "merge":
            o.update(slot=m, other=slot(kinds[m]) if r.random() < 0.7 else m, common=r.choice([0, 0, 0, 1.0, r.random()]))
        elif k == "replace":
            o.update(slot=m, other=slot(kinds[m]) if r.random() < 0.75 else m)
        elif k == "renumber":
            o.update(slot=t, part=1.0 if r.random() < 0.85 else r.random(), seed=r.getrandbits(20))
            if o["part"] < 1.0:
                kinds.pop(t)
        elif k == "color":
            o.update(slot=m, dst=new, color=[r.randrange(256) for _ in range(3)] if r.random() < 0.8 else None)
            kinds[new] = "T"
        elif k == "normals":
            o.update(slot=m)
        elif k == "compare":
            o.update(slot=m, other=slot("MT"))
        elif k == "gfrom":
            o.update(slot=t, dst=new)
            kinds[new] = "G"
        elif k == "gadd":
            o.update(slot=g, other=m)
        elif k == "gget":
            o.update(slot=g, k=r.randrange(6), dst=new, keep=r.random() < 0.3)
            kinds[new] = "?"
        elif k == "gcopy":
            o.update(slot=g, dst=new)
            kinds[new] = "G"
        elif k == "pmerge":
            o.update(slot=p, other=slot("P"), dst=new, how=r.choice(["merge", "+", "sum"]))
            kinds[new] = "P"
        elif k == "pappend":
            o.update(slot=p, other=slot("P") if r.random() < 0.75 else p)
        elif k == "pregister":
            o.update(of=[[slot("P"), world.g_pose(r)] for _ in range(r.choice([0, 1, 2, 2, 3]))], dst=new)
            kinds[new] = "P"
        elif k == "pturn":
            o.update(slot=p, dst=new, pose=world.g_pose(r), to=r.random() < 0.5)
            kinds[new] = "P"
        elif k == "ppoke":
            o.update(slot=p)
        elif k == "box":
            o.update(slot=slot("MTGP"), dst=new)
            kinds[new] = "B"
        elif k == "bmerge":
            o.update(of=[slot("B") for _ in range(r.choice([1, 2, 3]))], dst=new)
            kinds[new] = "B"
        elif k == "bmesh":
            o.update(slot=b, dst=new, out=r.random() < 0.6, tex=r.random() < 0.5)
            kinds[new] = "T" if o["tex"] else "M"
        elif k == "bad":
            o.update(slot=slot("MTGP"), what=r.randrange(17))
            if not o["slot"]:
                continue
        elif k == "drop":
            s = r.choice(sorted(kinds))
            o.update(slot=s, gc=r.random() < 0.5)
            kinds.pop(s)
        elif k == "churn":
            o.update(seed=r.getrandbits(20))
        elif k == "quads":
            o.update(dst=new, seed=r.getrandbits(20))
            kinds[new] = "T"
        elif k == "open3d":
            o.update(dst=new, seed=r.getrandbits(20), nv=r.choice([1, 3, 8, 40]), nt=r.choice([1, 2, 30]), normals=r.random() < 0.5,
                     f=r.random() < 0.3)
            kinds[new] = "M"
        elif k == "bnew":
            c = [[r.choice([0.0, r.uniform(-3, 3), 1.0, -1e6]) for _ in range(3)] for _ in range(2)]
            o.update(dst=new, c=c, f4=r.random() < 0.4)
            kinds[new] = "B"
        elif k == "bask":
            o.update(slot=b, other=slot("B"), pts=[[r.choice([0, 0.5, 1, -0.2, 1.2, r.random()]) for _ in range(3)] for _ in range(4)])
        elif k == "example":
            o.update(dst=new, length=r.choice([2.0, 1.0, 0.125, 7.5]), inward=r.random() < 0.5)
            kinds[new] = "M"
            if r.random() < 0.5:                          # a room with six walls
                o.update(op="cube", tex=r.random() < 0.6, n=r.choice([1, 2, 4, 7]), mr=r.choice([0, 1, 3]), seed=r.getrandbits(20))
                kinds[new] = "T" if o["tex"] else "M"
        ops.append(o)
    return {"prop": prop, "seed": seed & 0xffffffff, "world": "memory", "ops": ops, "fill": r.choice([0, 1, 0x5a, 0xff])}


# ---------------------------------------------------------------- what a simulated process does
def raw_mesh(x):
    t = x.is_textured()
    out = {"k": "T" if t else "M", "idx": np.array(x.indices()), "v": np.array(x.vertices()), "n": np.array(x.normals())}
    if t:
        out.update(uv=np.array(x.uv_coords()), bc=np.array(x.base_color()), mr=np.array(x.metallic_roughness()))
    if x.num_vertices() != out["v"].shape[1] or x.num_indices() != len(out["idx"]):
        out["counts"] = [x.num_vertices(), x.num_indices()]
    return out


def raw(x):
    from sumo.threedee.box_3d import Box3d
    from sumo.threedee.gltf_model import GltfModel
    from sumo.threedee.mesh import Mesh
    from sumo.threedee.point_cloud import PointCloud
    if isinstance(x, Mesh):
        return raw_mesh(x)
    if isinstance(x, GltfModel):
        ms = [raw_mesh(m) for m in x.primitive_meshes()]
        return {"k": "G", "m": ms, "n": [x.num_primitive_meshes(), x.num_images()]}
    if isinstance(x, PointCloud):
        out = {"k": "P", "p": np.array(x.points()), "c": np.array(x.colors()) if x.colored() else None}
        if x.num_points() != out["p"].shape[1]:
            out["counts"] = x.num_points()
        return out
    if isinstance(x, Box3d):
        return {"k": "B", "lo": np.array(x.min_corner), "hi": np.array(x.max_corner)}
    return {"k": repr(type(x))}


def key(o):
    """Comparable form of a raw object."""
    if o is None:
        return None
    out = [o["k"]]
    for f in sorted(o):
        if f == "k":
            continue
        x = o[f]
        if isinstance(x, np.ndarray):
            x = np.ascontiguousarray(x)
            x = (x.dtype.str, x.shape if x.size or f in ("v", "n", "uv") else 0, x.tobytes())
        elif f == "m":
            x = [key(y) for y in x]
        out.append((f, x))
    return repr(out)


def spoil(*arrays):
    for a in arrays:
        a[...] = 77


def build(o):
    from sumo.threedee.gltf_model import GltfModel
    from sumo.threedee.mesh import Mesh
    from sumo.threedee.point_cloud import PointCloud
    from sumo.threedee.textured_mesh import TexturedMesh
    if "mesh" in o:
        a = mesh_arrays(o["mesh"])
        if o["mesh"]["f"]:
            for f in ("v", "n"):
                a[f] = np.asfortranarray(a[f])
        if a["k"] == "M":
            x = Mesh(a["idx"], a["v"], a["n"])
            spoil(a["idx"], a["v"], a["n"])
        else:
            x = TexturedMesh(a["idx"], a["v"], a["n"], a["uv"], a["bc"], a["mr"])
            spoil(a["idx"], a["v"], a["n"], a["uv"], a["bc"], a["mr"])
        return x
    if "cloud" in o:
        a = cloud_arrays(o["cloud"])
        x = PointCloud(a["p"], a["c"]) if a["c"] is not None else PointCloud(a["p"])
        spoil(a["p"])
        if a["c"] is not None:
            spoil(a["c"])
        return x
    return GltfModel()


def quads(seed):
    """Four quads of a 3 x 3 grid of vertices numbered 2 7 3 / 4 6 8 / 0 5 1, and the mesh they make up."""
    rs = np.random.RandomState(seed)
    v, n, uv = [rs.uniform(-1, 1, (d, 9)).astype(F4) for d in (3, 3, 2)]
    bc, mr = rs.randint(0, 256, (2, 2, 3)).astype(np.uint8), rs.randint(0, 256, (1, 2, 3)).astype(np.uint8)
    tri = [[0, 1, 2, 1, 3, 2], [0, 1, 3, 0, 3, 2]]
    corners = [[0, 5, 4, 6], [5, 1, 6, 8], [4, 6, 2, 7], [6, 8, 7, 3]]
    parts, idx = [], []
    for c in corners:
        i = np.array(tri[rs.randint(2)], np.uint32)
        parts.append((i, np.ascontiguousarray(v[:, c]), np.ascontiguousarray(n[:, c]), np.ascontiguousarray(uv[:, c]), bc.copy(), mr.copy()))
        idx += [c[j] for j in i]
    return parts, {"k": "T", "idx": np.array(idx, np.uint32), "v": v, "n": n, "uv": uv, "bc": bc, "mr": mr}


class Open3d:
    """A mesh as Open3D has it."""

    def __init__(self, o):
        rs = np.random.RandomState(o["seed"])
        self.vertices = rs.uniform(-2, 2, (o["nv"], 3))
        self.triangles = rs.randint(0, o["nv"], (o["nt"], 3)).astype(np.int32)
        self.later = rs.uniform(-1, 1, (o["nv"], 3))
        self.vertex_normals = self.later if o["normals"] else np.zeros((0, 3))
        if o["f"]:
            self.vertices, self.triangles = np.asfortranarray(self.vertices), np.asfortranarray(self.triangles)

    def compute_vertex_normals(self):
        self.vertex_normals = self.later


def points_at(lo, hi, pts):
    """Points given as fractions of a box (exactly on its sides at 0 and 1)."""
    return [np.array([l if f == 0 else h if f == 1 else l + f * (h - l) for l, h, f in zip(lo, hi, p)], float) for p in pts]


def walls(o):
    """The textures of a cube with o['n'] pixels along an edge."""
    rs = np.random.RandomState(o["seed"])
    return (rs.randint(0, 256, (o["n"], 6 * o["n"], 3)).astype(np.uint8),
            rs.randint(0, 256, (o["mr"], 6 * o["mr"], 3)).astype(np.uint8))


def ncommon(o, na, nb):
    return min(na, nb, int(o["common"] * (min(na, nb) + 1)))


def proc(env, arg):
    from sumo.threedee.box_3d import Box3d
    from sumo.threedee.compute_bbox import ComputeBbox
    from sumo.threedee.gltf_model import GltfModel
    from sumo.threedee.mesh import Mesh
    from sumo.threedee.point_cloud import PointCloud
    from sumo.threedee.textured_mesh import TexturedMesh
    ctypes.CDLL(None).mallopt(-6, arg["fill"])
    S = {}

    def one(o):
        k = o["op"]
        x, y = S.get(o.get("slot")), S.get(o.get("other"))
        if k == "new":
            return build(o)
        if k == "turn":
            p = world.build_pose(o["pose"])
            return x.rotate(p.R) if o["only"] else x.transform(p)
        if k == "clean":
            if o["what"] == "origin":
                x.cleanup_edges_to_origin()
            else:
                x.cleanup_long_edges(o["at"])
        elif k == "poke":
            spoil(x.indices(), x.vertices(), x.normals())
            if x.is_textured():
                spoil(x.uv_coords(), x.base_color(), x.metallic_roughness())
        elif k == "merge":
            x.merge(y, ncommon(o, x.num_vertices(), y.num_vertices()))
        elif k == "replace":
            x.replace_geometry(y)
        elif k == "renumber":
            n = int(o["part"] * x.num_vertices())
            x.renumber(n, [int(i) for i in np.random.RandomState(o["seed"]).permutation(n)])
        elif k == "color":
            if o["color"] is None:
                return TexturedMesh.from_mesh(x)
            c = np.array(o["color"], np.uint8).reshape(3, 1)
            t = TexturedMesh.from_mesh(x, c)
            spoil(c)
            return t
        elif k == "normals":
            i, v = x.indices(), x.vertices()
            return [np.array(Mesh.calculate_face_normals(i, v)), np.array(Mesh.estimate_normals(i, v))]
        elif k == "compare":
            return [x.same_size(y), bool(x.is_textured()), x.has_same_material(y),
                    x.has_dual_texture_material() if x.is_textured() else None]
        elif k == "gfrom":
            return GltfModel.from_textured_mesh(x)
        elif k == "gadd":
            x.add_mesh(y)
        elif k == "gget":
            n = x.num_primitive_meshes()
            if not n:
                return None
            ms = x.primitive_meshes()
            m = ms[o["k"] % n]
            if o["keep"]:
                m = x.extract_primitive_mesh(o["k"] % n)
            del ms
            return m
        elif k == "gcopy":
            return x.deepcopy()
        elif k == "pmerge":
            return PointCloud.merge(x, y) if o["how"] == "merge" else x + y if o["how"] == "+" else sum([x, y])
        elif k == "pappend":
            x.append(y)
        elif k == "pregister":
            return PointCloud.register((world.build_pose(p), S[s]) for s, p in o["of"])
        elif k == "pturn":
            p = world.build_pose(o["pose"])
            return x.transform_to(p) if o["to"] else x.transform_from(p)
        elif k == "ppoke":
            spoil(x.points())
            for i in range(x.num_points()):
                spoil(x.point(i))
            if x.colored():
                spoil(x.colors(), x.color(0))
        elif k == "box":
            c = ComputeBbox()
            if isinstance(x, PointCloud):
                return c.from_point_cloud(x.points())
            return c.from_mesh(x) if isinstance(x, Mesh) else c.from_gltf_object(x)
        elif k == "bmerge":
            return Box3d.merge([S[s] for s in o["of"]])
        elif k == "bmesh":
            return x.to_textured_mesh(o["out"]) if o["tex"] else x.to_mesh(o["out"])
        elif k == "quads":
            parts, _ = quads(o["seed"])
            ms = [TexturedMesh(*p) for p in parts]
            for p in parts:
                spoil(*p)
            return TexturedMesh.merge_quadrant_meshes(*ms)
        elif k == "example":
            return Mesh.example(o["length"], o["inward"])
        elif k == "open3d":
            m = Open3d(o)
            x = Mesh.from_open3d_mesh(m)
            spoil(m.vertices, m.triangles, m.vertex_normals)
            return x
        elif k == "bnew":
            a, b = [np.array(c, F4 if o["f4"] else float) for c in o["c"]]
            x = Box3d(a, b)
            spoil(a, b)
            return x
        elif k == "bask":
            lo, hi = np.array(x.min_corner, float), np.array(x.max_corner, float)
            q = points_at(lo, hi, o["pts"])
            z = Box3d.from_xml(x.to_xml())
            c = x.corners()
            out = [np.array(c), float(x.volume()), np.array(x.center(), float), [bool(x.point_in_box(p)) for p in q], bool(x == y),
                   bool(x.almost_equal(y)), np.array(z.min_corner, float), np.array(z.max_corner, float)]
            spoil(c)
            return out
        elif k == "cube":
            if not o["tex"]:
                return Mesh.cube()
            bc, mr = walls(o)
            t = TexturedMesh.cube(bc, mr)
            spoil(bc, mr)
            return t
        elif k == "churn":
            rs = random.Random(o["seed"])
            junk = [bytearray(b"\xee" * int(10 ** rs.uniform(1, 5))) for _ in range(60)]
            rs.shuffle(junk)
        elif k == "bad":
            bad(o["what"], x)
        return None

    def bad(w, x):
        i, v = np.zeros(3, np.uint32), np.zeros((3, 3), F4)
        if w == 0:
            Mesh(i.astype(np.int64), v, v)
        elif w == 1:
            Mesh(i, v, v[:, :2])
        elif w == 2:
            Mesh(i, v.astype(float), v)
        elif w == 3:
            TexturedMesh(i, v, v, np.zeros((2, 4), F4))
        elif w == 4:
            (x.add_mesh if isinstance(x, GltfModel) else x.append if isinstance(x, PointCloud) else x.merge)("no mesh")
        elif w == 5:
            TexturedMesh.merge(S_any(TexturedMesh) or TexturedMesh(), Mesh())
        elif w == 6:
            PointCloud(np.zeros((3, 4)), np.zeros((3, 5), np.uint8))
        elif w == 7:
            (x if isinstance(x, GltfModel) else GltfModel()).extract_primitive_mesh(999)
        elif w == 8:
            Mesh(i, v[:2], v[:2])
        elif w == 9:
            Mesh(i, v, np.zeros((4, 3), F4))
        elif w == 10:
            TexturedMesh(i, v, v, np.zeros((3, 3), F4))
        elif w == 11:
            TexturedMesh(i, v, v, v[:2], np.asfortranarray(np.ones((3, 4, 3), np.uint8)))
        elif w == 12:
            (x if isinstance(x, GltfModel) else GltfModel()).add_colored_material("bad", np.zeros(2), 0.5, 0.5)
        elif w == 13:
            PointCloud(np.array([["a"], ["b"], ["c"]]))
        elif w == 14:
            PointCloud(np.zeros((3, 1)), np.array([[300], [-1], [3]]))
        elif w == 15:
            (Mesh.calculate_face_normals if i.size % 2 else Mesh.estimate_normals)(i, np.zeros((2, 3), F4))
        elif w == 16:
            TexturedMesh.cube(np.zeros((4, 20, 3), np.uint8), np.zeros((2, 2, 3), np.uint8))

    def S_any(t):
        for k in sorted(S):
            if isinstance(S[k], t):
                return S[k]
        return None

    for i, o in enumerate(arg["ops"]):
        need = [o[f] for f in ("slot", "other") if f in o] + [s[0] if isinstance(s, list) else s for s in o.get("of", [])]
        kinds = [raw_kind(S.get(s)) for s in need]
        if None in kinds or not fits(o, kinds):
            env.send(("op", {"i": i, "out": ("skip",)}))
            continue
        env.send(("start", i, None))
        x = None
        try:
            x = one(o)
            out = ("ok",)
        except Exception as e:
            out = ("exc", [k.__name__ for k in type(e).__mro__], st_run.plain(str(e))[:160])
            del e
        rep = {"i": i, "out": out}
        if o["op"] in ("normals", "compare", "bask"):
            rep["res"] = x
        elif "dst" in o and out[0] == "ok" and x is not None:
            S[o["dst"]] = x
        x = None
        if o["op"] == "drop" or o["op"] == "renumber" and o["part"] < 1.0:
            rep["last"] = raw(S[o["slot"]])
            del S[o["slot"]]
            if o.get("gc"):
                gc.collect()
        rep["slots"] = {}
        for s in S:
            try:
                rep["slots"][s] = raw(S[s])
            except Exception as e:
                rep["slots"][s] = {"k": "%s: %s" % (type(e).__name__, str(e)[:100])}
        env.send(("op", rep))


def raw_kind(x):
    if x is None:
        return None
    n = type(x).__name__
    return {"Mesh": "M", "TexturedMesh": "T", "GltfModel": "G", "PointCloud": "P", "Box3d": "B"}.get(n)


def fits(o, kinds):
    """Whether the operands have the kinds that the operation takes (a failed operation may have changed the plan)."""
    want = {"turn": ["MT"], "clean": ["MT"], "poke": ["MT"], "color": ["MT"], "normals": ["MT"], "compare": ["MT", "MT"],
            "renumber": ["T"], "gfrom": ["T"], "gadd": ["G", "MT"], "gget": ["G"], "gcopy": ["G"], "pmerge": ["P", "P"],
            "pappend": ["P", "P"], "pturn": ["P"], "ppoke": ["P"], "bmesh": ["B"], "bask": ["B", "B"], "box": ["MTGP"], "merge": ["MT", "MT"],
            "replace": ["MT", "MT"]}.get(o["op"])
    if o["op"] in ("pregister", "bmerge"):
        return all(k == ("P" if o["op"] == "pregister" else "B") for k in kinds)
    if want is None:
        return True
    if o["op"] in ("merge", "replace") and kinds[0] == "T" and kinds[1] == "M":
        return False
    return all(k in w for k, w in zip(kinds, want))


# ---------------------------------------------------------------- the reference model
def copy_of(o):
    return {f: [copy_of(m) for m in x] if f == "m" else x.copy() if isinstance(x, np.ndarray) else list(x) if isinstance(x, list) else x
            for f, x in o.items()}


def near(got, want, tol):
    return got is not None and got.shape == want.shape and (not want.size or
                                                            float(np.max(np.abs(got.astype(float) - want))) <= tol * max(1.0, float(np.max(np.abs(want)))))


def what_differs(got, want):
    if got is None:
        return "is missing"
    if got["k"] != want["k"]:
        return "is a %s, not a %s" % (got["k"], want["k"])
    if got["k"] == "G":
        if len(got["m"]) != len(want["m"]):
            return "has %d meshes, not %d" % (len(got["m"]), len(want["m"]))
        for i, (a, b) in enumerate(zip(got["m"], want["m"])):
            if key(a) != key(b):
                return "mesh %d %s" % (i, what_differs(a, b))
        return "has %s meshes and images, not %s" % (got["n"], want["n"])
    names = {"idx": "indices", "v": "vertices", "n": "normals", "uv": "texture coordinates", "bc": "base color",
             "mr": "metallic roughness", "p": "points", "c": "colors", "lo": "minimum", "hi": "maximum", "counts": "counts"}
    for f in sorted(set(got) | set(want)):
        a, b = got.get(f), want.get(f)
        if key({"k": "", "x": a}) != key({"k": "", "x": b}) and not (f in ("bc", "mr", "idx") and a is not None and b is not None
                                                                    and not a.size and not b.size):
            if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape:
                i = np.argwhere(a != b)
                if len(i):
                    i = tuple(i[0])
                    return "%s differ, at %s %r, not %r" % (names.get(f, f), list(map(int, i)), a[i].item(), b[i].item())
            return "%s: %s, not %s" % (names.get(f, f), shape(a), shape(b))
    return "differs"


def shape(a):
    return "%s%s" % (a.dtype, list(a.shape)) if isinstance(a, np.ndarray) else repr(a)


def images(meshes):
    return sum((m["bc"].size > 0) + (m["mr"].size > 0) for m in meshes if m["k"] == "T")


def merged(a, b, c):
    out = copy_of(a)
    off = a["v"].shape[1] - c
    i = b["idx"].astype(np.int64)
    out["idx"] = np.concatenate([a["idx"], np.where(i < c, i, i + off).astype(np.uint32)])
    for f in ("v", "n") + (("uv",) if a["k"] == "T" else ()):
        out[f] = np.concatenate([a[f], b[f][:, c:]], axis=1)
    return out


def face_normals(m):
    v = m["v"].astype(float)
    i = m["idx"].astype(int).reshape(-1, 3)
    a, b, c = (v[:, i[:, j]].T.reshape(-1, 3) for j in range(3))
    return np.cross(b - a, c - a)


class Model:
    def __init__(self):
        self.s = {}

    def step(self, o, rep):
        """Returns [(sig, text)]; brings the model up to date."""
        S, k, out = self.s, o["op"], rep["out"]
        got = rep.get("slots", {})
        bad = []
        x, y = S.get(o.get("slot")), S.get(o.get("other"))
        if out[0] == "skip":
            return bad
        if k == "bad":
            if out[0] == "ok":
                bad.append(("accepted", "was accepted"))
            return bad
        if k in ("pmerge", "pappend", "pregister"):
            of = [S[s] for s, _ in o["of"]] if k == "pregister" else [x, y]
            mixed = len({c["c"] is not None for c in of if c["p"].size}) > 1
            if mixed:
                if out[0] == "ok":
                    bad.append(("mixed", "colored and uncolored points were joined"))
                    S.pop(o.get("dst", o.get("slot")), None)
                elif "ValueError" not in out[1]:
                    bad.append(("mixed", "%s: %s instead of a ValueError" % tuple(out[1:])))
                return bad
        if out[0] == "exc":
            bad.append(("failed", "failed: %s: %s" % (out[1][0], out[2])))
            return bad
        d = o.get("dst")
        new = got.get(d)
        if k == "new":
            S[d] = mesh_arrays(o["mesh"]) if "mesh" in o else cloud_arrays(o["cloud"]) if "cloud" in o else \
                {"k": "G", "m": [], "n": [0, 0]}
        elif k == "turn":
            want = copy_of(x)
            R, t = np.array(world.rot(o["pose"])), np.array(o["pose"]["t"], float).reshape(3, 1)
            want["v"] = R.dot(x["v"].astype(float)) + (0 if o["only"] else t)
            want["n"] = R.dot(x["n"].astype(float))
            self.adopt(d, new, want, ("v", "n"), 1e-5, bad)
        elif k == "clean":
            tri = x["idx"].reshape(-1, 3)
            v = x["v"].astype(float)
            if o["what"] == "origin":
                keep = ~np.any(np.all(np.abs(v) <= 1e-10, axis=0)[tri], axis=1)
                self.s[o["slot"]] = dict(x, idx=tri[keep].reshape(-1))
            else:
                e = np.array([np.linalg.norm(v[:, tri[:, a]] - v[:, tri[:, b]], axis=0) for a, b in ((0, 1), (1, 2), (2, 0))]).reshape(3, -1)
                keep = np.all(e <= o["at"], axis=0)
                vague = np.any(np.abs(e - o["at"]) <= 1e-4 * max(1e-3, o["at"]), axis=0) & (np.all(e <= o["at"] * 1.001 + 1e-6, axis=0))
                if vague.any() and o["at"] > 0:
                    self.s[o["slot"]] = got[o["slot"]]
                else:
                    self.s[o["slot"]] = dict(x, idx=tri[keep].reshape(-1))
        elif k == "merge":
            S[o["slot"]] = merged(x, y, ncommon(o, x["v"].shape[1], y["v"].shape[1]))
        elif k == "replace":
            want = copy_of(x)
            for f in ("idx", "v", "n") + (("uv",) if x["k"] == "T" else ()):
                want[f] = y[f].copy()
            S[o["slot"]] = want
        elif k == "renumber":
            n, nv = int(o["part"] * x["v"].shape[1]), x["v"].shape[1]
            perm = np.random.RandomState(o["seed"]).permutation(n)
            want = copy_of(x)
            i = x["idx"].astype(np.int64)
            want["idx"] = np.array([perm[j] if j < n else j for j in i], np.uint32)
            for f in ("v", "n", "uv"):
                want[f][:, perm] = x[f][:, :n]
            if o["part"] < 1.0:
                S.pop(o["slot"])
                if key(rep["last"]) != key(want):
                    only = dict(rep["last"], idx=want["idx"])
                    beyond = np.array([perm[j] if j < n else j + n for j in i], np.uint32)
                    sig = "renumber-prefix" if n < nv and key(only) == key(want) and np.array_equal(beyond, rep["last"]["idx"]) \
                        else "wrong-result"
                    bad.append((sig, "of %d out of %d vertices: %s" % (n, nv, what_differs(rep["last"], want))))
            else:
                S[o["slot"]] = want
        elif k == "color":
            c = o["color"] or [255, 255, 255]
            S[d] = dict(copy_of(x), k="T", uv=np.zeros((2, x["v"].shape[1]), F4), bc=np.tile(np.array(c, np.uint8), (2, 2, 1)),
                        mr=np.zeros((3, 4, 3), np.uint8))
        elif k == "normals":
            fn = face_normals(x)
            ln = np.linalg.norm(fn, axis=1)
            a, b = rep["res"]
            size = float(np.abs(x["v"]).max()) if x["v"].size else 1.0
            ok = ln > 1e-3 * size * size
            fine = a.shape == (3, len(fn)) and b.shape == x["v"].shape
            if fine and ok.any():
                fine = np.abs(a.T[ok] - fn[ok] / ln[ok, None]).max() < 2e-2
            if fine and ok.all():
                acc = np.zeros((x["v"].shape[1], 3))
                tri = x["idx"].reshape(-1, 3)
                for j in range(3):
                    np.add.at(acc, tri[:, j], fn / ln[:, None])
                la = np.linalg.norm(acc, axis=1)
                big = la > 0.1
                fine = not big.any() or np.abs(b.T[big] - acc[big] / la[big, None]).max() < 2e-2
            if not fine:
                bad.append(("wrong-result", "the normals are wrong"))
        elif k == "compare":
            same = [len(x["idx"]) == len(y["idx"]) and x["v"].shape == y["v"].shape, x["k"] == "T"]
            if [bool(v) for v in rep["res"][:2]] != same:
                bad.append(("wrong-result", "same_size and is_textured are %s, not %s" % (rep["res"][:2], same)))
        elif k == "gfrom":
            S[d] = {"k": "G", "m": [copy_of(x)], "n": [1, images([x])]}
        elif k == "gadd":
            x["m"].append(copy_of(y))
            x["n"] = [len(x["m"]), images(x["m"])]
        elif k == "gget":
            if x["m"]:
                S[d] = copy_of(x["m"][o["k"] % len(x["m"])])
        elif k == "gcopy":
            S[d] = copy_of(x)
        elif k in ("pmerge", "pappend"):
            S[d if k == "pmerge" else o["slot"]] = joined([x, y])
        elif k == "pregister":
            parts = [moved(S[s], p) for s, p in o["of"]]
            self.adopt(d, new, joined(parts), ("p",), 1e-9, bad)
        elif k == "pturn":
            self.adopt(d, new, moved(x, o["pose"], o["to"]), ("p",), 1e-9, bad)
        elif k == "box":
            pts = x["p"] if x["k"] == "P" else np.hstack([m["v"] for m in x["m"] if m["v"].size] or [np.zeros((3, 0))]) if x["k"] == "G" else x["v"]
            if x["k"] == "G" and any(not m["v"].size for m in x["m"]):
                S[d] = got[d]           # an empty mesh counts as the origin
            else:
                lo = pts.min(axis=1) if pts.size else np.zeros(3)
                hi = pts.max(axis=1) if pts.size else np.zeros(3)
                self.adopt(d, new, {"k": "B", "lo": lo, "hi": hi}, ("lo", "hi"), 0, bad)
        elif k == "bmerge":
            bs = [S[s] for s in o["of"]]
            self.adopt(d, new, {"k": "B", "lo": np.min([b["lo"] for b in bs], axis=0), "hi": np.max([b["hi"] for b in bs], axis=0)},
                       ("lo", "hi"), 0, bad)
        elif k == "bmesh":
            self.cuboid(new, x["lo"].astype(F4), x["hi"].astype(F4), not o["out"], bad)
            if new and o["tex"] and (new["bc"].size == 0 or np.any(new["bc"] != 255)):
                bad.append(("wrong-result", "the texture is not white"))
            if new and new["k"] != ("T" if o["tex"] else "M"):
                bad.append(("wrong-result", "is a %s" % new["k"]))
            S[d] = new
        elif k == "quads":
            S[d] = quads(o["seed"])[1]
        elif k == "example":
            h = np.full(3, o["length"] / 2)
            self.cuboid(new, -h, h, o["inward"], bad)
            S[d] = new
        elif k == "open3d":
            m = Open3d(o)
            S[d] = {"k": "M", "idx": m.triangles.astype(np.uint32).reshape(-1), "v": m.vertices.T.astype(F4), "n": m.later.T.astype(F4)}
        elif k == "bnew":
            c = np.array(o["c"], F4 if o["f4"] else float)
            self.adopt(d, new, {"k": "B", "lo": c.min(0), "hi": c.max(0)}, ("lo", "hi"), 0, bad)
        elif k == "bask":
            self.ask(o, x, y, rep["res"], bad)
        elif k == "cube":
            h = np.ones(3)
            self.cuboid(new, -h, h, True, bad)
            if o["tex"] and new and not bad:
                self.papered(new, bad)
                for f, t in zip(("bc", "mr"), walls(o)):
                    if not near(new[f], t.astype(float), 0):
                        bad.append(("wrong-result", "%s is not the texture given" % f))
            S[d] = new
        elif k == "drop":
            S.pop(o["slot"], None)
        return bad

    def adopt(self, d, new, want, fields, tol, bad):
        """The new object's computed fields are as good as expected; from now on they are the reference."""
        if new is None:
            bad.append(("wrong-result", "gave nothing"))
            self.s.pop(d, None)
            return
        w = dict(want)
        for f in fields:
            if f not in new or not near(new[f], np.asarray(want[f], float), tol):
                bad.append(("wrong-result", "%s: %s" % (f, what_differs({"k": "", f: new.get(f)}, {"k": "", f: np.asarray(want[f])}))))
            else:
                w[f] = new[f]
        self.s[d] = w

    @staticmethod
    def ask(o, x, y, res, bad):
        """What a box says of itself and of another box."""
        lo, hi = x["lo"].astype(float), x["hi"].astype(float)
        olo, ohi = y["lo"].astype(float), y["hi"].astype(float)
        far = max(float(np.abs([lo, hi]).max()), 1e-3)
        cor = np.array([[(hi if a else lo)[0], (hi if b else lo)[1], (hi if c else lo)[2]]
                        for c in (1, 0) for a, b in ((0, 0), (1, 0), (1, 1), (0, 1))]).T
        want = [cor, float(np.prod(hi - lo)), (lo + hi) / 2,
                [bool(np.all(p > lo) and np.all(p < hi)) for p in points_at(lo, hi, o["pts"])],
                bool(np.array_equal(lo, olo) and np.array_equal(hi, ohi)), None, lo, hi]
        d = np.abs(np.concatenate([lo - olo, hi - ohi])).max()
        if d <= 1e-8:
            want[5] = True
        elif d > 1e-4 * max(far, float(np.abs([olo, ohi]).max())):
            want[5] = False
        for n, a, b in zip(("corners", "volume", "center", "contains", "is equal", "is nearly equal", "minimum after XML", "maximum after XML"),
                           res, want):
            if b is None:
                continue
            if isinstance(b, (bool, list)):
                ok = a == b
            else:
                tol = 1e-5 * (far ** 3 if n == "volume" else far)
                ok = np.shape(a) == np.shape(b) and bool(np.all(np.abs(np.asarray(a, float) - b) <= tol))
            if not ok:
                bad.append(("wrong-result", "%s: %s, not %s" % (n, np.asarray(a).tolist(), np.asarray(b).tolist())))
                return

    @staticmethod
    def papered(m, bad):
        """Every triangle of a room shows its wall's part of a cube map, upright as seen from inside."""
        if m["k"] != "T":
            bad.append(("wrong-result", "is no textured mesh"))
            return
        e = np.eye(3)
        faces = [(e[2], e[1]), (-e[0], e[1]), (-e[2], e[1]), (e[0], e[1]), (e[1], e[2]), (-e[1], -e[2])]  # where it is, what is up
        for t in m["idx"].astype(int).reshape(-1, 3):
            uv, v = m["uv"].astype(float)[:, t].T, m["v"].astype(float)[:, t].T
            f = int(np.floor(uv[:, 0].mean() * 6))
            if not 0 <= f < 6:
                bad.append(("wrong-result", "triangle %s is outside the texture" % t.tolist()))
                return
            to, up = faces[f]
            right = np.cross(to, up)
            for (a, b), p in zip(uv, v):
                if np.abs(to + (2 * (a * 6 - f) - 1) * right + (1 - 2 * b) * up - p).max() > 1e-4:
                    bad.append(("wrong-result", "triangle %s shows %s at %s" % (t.tolist(), [a, b], p.tolist())))
                    return

    @staticmethod
    def cuboid(m, lo, hi, inward, bad):
        """m consists of the faces of a box, each covered once and facing the right way."""
        if m is None or "v" not in m:
            bad.append(("wrong-result", "gave no mesh"))
            return
        lo, hi = lo.astype(float), hi.astype(float)
        size = hi - lo
        tol = 1e-4 * max(1e-6, float(np.abs([lo, hi]).max()))
        v = m["v"].astype(float).T
        if np.any(np.minimum(np.abs(v - lo), np.abs(v - hi)) > tol):
            bad.append(("wrong-result", "a vertex is not a corner of the box"))
            return
        if np.any(size < 20 * tol):
            return
        tri = m["idx"].astype(int).reshape(-1, 3)
        if tri.size and tri.max() >= len(v):
            bad.append(("wrong-result", "index %d of %d vertices" % (tri.max(), len(v))))
            return
        area = np.zeros((3, 2))
        mid = (lo + hi) / 2
        vn = m["n"].astype(float).T
        for t in tri:
            p = v[t]
            n = np.cross(p[1] - p[0], p[2] - p[0])
            ax = [a for a in range(3) if np.ptp(p[:, a]) <= tol]
            if len(ax) != 1:
                bad.append(("wrong-result", "triangle %s is not on one side of the box" % t.tolist()))
                return
            a = ax[0]
            side = int(p[0, a] > mid[a])
            area[a, side] += np.linalg.norm(n) / 2
            away = n[a] * (1 if side else -1)
            if (away < 0) != inward:
                bad.append(("wrong-result", "triangle %s faces the wrong way" % t.tolist()))
                return
            if np.any(vn[t][:, a] * n[a] <= 0):
                bad.append(("wrong-result", "normals of triangle %s point the wrong way" % t.tolist()))
                return
        for a in range(3):
            full = np.prod(np.delete(size, a))
            if np.any(np.abs(area[a] - full) > 1e-3 * full):
                bad.append(("wrong-result", "a side of the box is not covered once"))
                return


def moved(c, pose, to=False):
    R, t = np.array(world.rot(pose)), np.array(pose["t"], float).reshape(3, 1)
    return dict(copy_of(c), p=R.T.dot(c["p"] - t) if to else R.dot(c["p"]) + t)


def joined(cs):
    col = [c["c"] for c in cs if c["c"] is not None]
    return {"k": "P", "p": np.concatenate([c["p"] for c in cs] or [np.zeros((3, 0))], axis=1),
            "c": np.concatenate(col, axis=1) if col else None}


# ---------------------------------------------------------------- one run
def describe_op(o):
    t = " ".join([o["op"]] + ["%s=%s" % (a, b) for a, b in sorted(o.items()) if a not in ("op", "mesh", "cloud", "pose", "of")])
    if "mesh" in o:
        t += " %s of %d vertices, %d triangles" % ("TexturedMesh" if o["mesh"]["tex"] else "Mesh", o["mesh"]["nv"], o["mesh"]["nt"])
    if "cloud" in o:
        t += " cloud of %d%s points" % (o["cloud"]["n"], " colored" if o["cloud"]["color"] else "")
    if "of" in o:
        t += " of %s" % [s[0] if isinstance(s, list) else s for s in o["of"]]
    return t


def execute(plan, scratch):
    root = st_sim.fresh(scratch)
    viol, traces, parts, stats = [], [], [], {}

    def count(k, n=1):
        stats[k] = stats.get(k, 0) + n
    res = st_sim.session(root, proc, {"ops": plan["ops"], "fill": plan["fill"]}, seed=plan["seed"])
    m = Model()
    last = None
    for x in res.msgs:
        if x[0] == "start":
            last = x[1]
            continue
        if x[0] != "op":
            continue
        rep, last = x[1], None
        o = plan["ops"][rep["i"]]
        count("op." + o["op"] + {"ok": "", "skip": " skipped", "exc": " refused"}[rep["out"][0]])
        if rep["out"][0] != "skip":
            count("objects compared", len(rep.get("slots", {})))
        line = "  %s -> %s" % (describe_op(o), rep["out"][0] if rep["out"][0] != "exc" else " ".join(map(str, (rep["out"][1][0], rep["out"][2]))))
        traces.append(line)
        out = []
        try:
            out = m.step(o, rep)
        except Exception as e:
            if not any(v[1] for v in viol):
                raise
            out = [("model", "%s: %s" % (type(e).__name__, e))]
        if rep["out"][0] != "skip":
            for s, got in sorted(rep["slots"].items()):
                want = m.s.get(s)
                if want is None or key(got) == key(want):
                    continue
                own = s in (o.get("dst"), o.get("slot")) and o["op"] not in ("poke", "ppoke", "compare", "normals", "gcopy") and \
                    not (s == o.get("slot") and o.get("dst") not in (None, s))
                d = what_differs(got, want)
                if d == "differs":
                    continue
                out.append(("wrong-result" if own else "disturbed", "object %r %s" % (s, d)))
                m.s[s] = got if got["k"] == want["k"] else None
                if m.s[s] is None:
                    del m.s[s]
        for sig, t in out:
            viol.append(("C20", sig, "%s: %s" % (describe_op(o), t)))
            traces.append("  !! " + t)
        parts.append((rep["i"], rep["out"][:2], [(s, key(v)) for s, v in sorted(rep.get("slots", {}).items())]))
        if viol and not all(v[1] == "renumber-prefix" for v in viol):
            break
    if res.end != "ok" and last is not None:
        viol.append(("C20", "process-death", "the process ended with %s during %s" % (res.end, describe_op(plan["ops"][last]))))
        traces.append("  !! " + viol[-1][2])
    elif res.end != "ok":
        viol.append(("C20", "process-death", "the process ended with %s" % res.end))
    count("fault.freed memory overwritten", 1)
    return {"violations": viol, "hash": st_sim.digest(parts + [res.end]), "stats": stats, "nontrivial": len(plan["ops"]) > 3, "traces": traces}


def freeze(plan, res):
    return plan


def shrinks(plan):
    ops = plan["ops"]
    for size in (8, 4, 2, 1):
        for i in range(len(ops) - size, -1, -size):
            yield dict(plan, ops=ops[:i] + ops[i + size:])
    for i, o in enumerate(ops):
        def rep(x):
            return dict(plan, ops=ops[:i] + [x] + ops[i + 1:])
        if "mesh" in o:
            d = o["mesh"]
            for nv, nt in ((3, 1), (d["nv"] // 2, d["nt"] // 2), (d["nv"], 1)):
                if (nv, nt) != (d["nv"], d["nt"]) and nv <= d["nv"] and nt <= d["nt"] and nv:
                    yield rep(dict(o, mesh=dict(d, nv=nv, nt=nt)))
        if "cloud" in o and o["cloud"]["n"] > 1:
            yield rep(dict(o, cloud=dict(o["cloud"], n=1)))


def describe(plan, res):
    return res["traces"]


def init():
    import sumo.threedee.box_3d  # noqa
    import sumo.threedee.compute_bbox  # noqa
    import sumo.threedee.gltf_model  # noqa
    import sumo.threedee.point_cloud  # noqa


COMPONENTS = {
    "real": ["sumo.threedee: mesh, textured_mesh, gltf_model, point_cloud, box_3d, compute_bbox and their C++ parts; sumo.geometry.pose3, rot3; "
             "sumo.base.vector; sumo.opencv.wrap"],
    "stub": ["contents of freed and of fresh memory (glibc M_PERTURB, chosen by the seed)", "order of creation and destruction"]}
ASSUMPTIONS = [
    "indices refer to vertices of their mesh, texture coordinates come with every vertex",
    "vertices that renumber leaves uninitialised (as documented) are not made", "allocations succeed",
    "values within rounding of a threshold are not judged"]
RULES = {"C20": "a run is a history of 6 to 33 operations over up to six living objects generated from the seed; all living objects are compared "
                "after every one; distinct by the hash of all objects after every operation"}

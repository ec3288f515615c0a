"""Scenes as other programs write them: the same documents in every form that XML, glTF and HDF5 allow.

Shares no code with the code under test.  `expect` is what such a scene says.
"""
import os
import random
from xml.sax.saxutils import escape

import numpy as np

from . import files_ref as ref
from . import world

ENC = ["utf-8", "utf-8", "utf-8", "utf-16", "ascii", "iso-8859-1", "utf-8-sig", "none"]
OMIT = ["category", "pose", "symmetry", "detectionScore", "evaluated", "bounds"]
# what makes a document none of the documented format: it has to be refused
BAD = ["no id", "type", "root", "no type", "no elements", "symmetry", "translation 2", "translation 4", "rotation 1", "rotation 2",
       "no column", "no rotation", "no translation", "corner 2", "no corner", "pose tag", "score", "no file"]


def g_scene(r, g_foreign):
    sc = world.g_scene(r, nmax=6)
    k = r.random()
    if not sc["settings"]:
        sc["settings"] = dict(world.DEFAULTS)
    if k < 0.15:
        sc["settings"] = {a: b for a, b in sc["settings"].items() if r.random() < 0.6}
    for e in sc["elements"]:
        e["omit"] = [o for o in OMIT if r.random() < 0.1 and (o != "bounds" or sc["type"] != "bounding_box")]
        if sc["type"] != "bounding_box":
            e["bounds"] = [[r.uniform(-2, 2) for _ in range(3)] for _ in range(2)]
        if sc["type"] == "meshes":
            del e["model"]
            d = dict(g_foreign(r), form="glb", odd=None)
            d["prims"] = d["prims"][:3]
            for p in d["prims"]:
                p["bc"] = p["mr"] = True
            e["foreign"] = d
    st = {"seed": r.getrandbits(30), "enc": r.choice(ENC), "indent": r.choice(["", "", "  ", "\t", "\r\n "]),
          "order": r.random() < 0.5, "extra": r.random() < 0.4, "comments": r.random() < 0.4, "nums": r.choice(["r", "r", "e", "f", "g"]),
          "cdata": r.random() < 0.3, "refs": r.random() < 0.3, "h5": r.choice(["plain", "plain", "wide", "packed", "more"])}
    if r.random() < 0.15 and sc["elements"]:
        st["bad"] = r.choice(BAD)
        st["which"] = r.randrange(8)
    return sc, st


def defaults(e):
    """The element with the documented value of everything that is left out."""
    e = dict(e)
    for o in e.get("omit", ()):
        if o == "category":
            e["category"] = "unknown"
        elif o == "pose":
            e["pose"] = {"axis": [0, 0, 1], "ang": 0.0, "t": [0.0, 0.0, 0.0]}
        elif o == "symmetry":
            e["sym"] = 0
        elif o == "detectionScore":
            e["score"] = -1
        elif o == "evaluated":
            e["evaluated"] = True
    return e


def element(e, typ):
    """Canonical form, with the bounds that the file says (if it says any), and the shape's own box."""
    e = defaults(e)
    if typ == "meshes":
        c = world.expect_element(dict(e, bounds=e["bounds"]), "bounding_box")
        arrs = ref.foreign_prims(e["foreign"])
        c["type"] = typ
        c["model"] = [world.canon_mesh(a) for a in arrs]
        c["_box"] = world.box_of(np.hstack([a["v"] for a in arrs]))
    else:
        c = world.expect_element(e, typ)
    p = np.array(e["bounds"])
    c["bounds"] = None if "bounds" in e.get("omit", ()) else [p.min(0).tolist(), p.max(0).tolist()]
    return c


def expect(sc):
    els = {}
    for e in sc["elements"]:
        c = element(e, sc["type"])
        els.pop(c["id"], None)
        els[c["id"]] = c
    return {"type": sc["type"], "settings": dict(sc["settings"]), "elements": list(els.values())}


class Writer:
    def __init__(self, st):
        self.st = st
        self.r = random.Random(st["seed"])

    def num(self, x):
        f = self.st["nums"]
        x = float(x)
        if f == "e":
            s = "%.16E" % x
        elif f == "f" and (x == 0 or 1e-3 < abs(x) < 1e15):
            s = "%.20f" % x
        elif f == "g":
            s = "%+.17g" % x
        else:
            s = repr(x)
        return s if s != "-0.0" else "0"

    def nums(self, v):
        sep = self.r.choice([", ", ",", ", ", ",\n  "])
        p = self.r.choice(["", " ", "\n"])
        return p + sep.join(self.num(x) for x in v) + p

    def text(self, s):
        if self.st["cdata"] and "]]>" not in s and self.r.random() < 0.5:
            return "<![CDATA[%s]]>" % s
        s = escape(s).replace("\r", "&#13;")
        if self.st["refs"] and s:
            s = "".join("&#x%x;" % ord(c) if c.isalnum() and self.r.random() < 0.3 and "&" not in s else c for c in s)
        return s

    def tag(self, name, body="", attr=""):
        if not body and self.r.random() < 0.5:
            return "<%s%s/>" % (name, attr)
        return "<%s%s>%s</%s%s>" % (name, attr, body, name, self.r.choice(["", "", " "]))

    def group(self, name, kids, attr="", fill=True, order=True, depth=0):
        r, st = self.r, self.st
        kids = list(kids)
        if fill and st["extra"]:
            for _ in range(r.choice([0, 1, 2])):
                kids.append(r.choice(["<note>mine</note>", "<author name='x'/>", "<x><id>7</id><pose/><elements/></x>",
                                      "<scale unit='m'> 1 </scale>"]))
        if order and st["order"]:
            r.shuffle(kids)
        if st["comments"]:
            for _ in range(r.choice([0, 1, 2])):
                kids.insert(r.randrange(len(kids) + 1), r.choice(["<!-- 1, 2, 3 -->", "<!--<id>9</id>-->", "<?tool x=\"1\"?>"]))
        if not st["indent"]:
            return self.tag(name, "".join(kids), attr)
        p = "\n" + st["indent"] * (depth + 1)
        return self.tag(name, p + p.join(kids) + "\n" if kids else "", attr)


def document(sc, st, bad=None):
    w = Writer(st)
    r = w.r
    which = st.get("which", 0) % max(1, len(sc["elements"]))
    els = []
    for i, e in enumerate(sc["elements"]):
        b = bad if i == which else None
        R, t = world.rot(e["pose"]), [float(x) for x in e["pose"]["t"]]
        om = set(e.get("omit", ()))
        if b:
            om -= {"pose", "symmetry", "detectionScore", "bounds"}
        kids = []
        if b != "no id":
            kids.append(w.tag("id", w.text(e["id"])))
        if "category" not in om:
            kids.append(w.tag("category", w.text(e["category"])))
        if "pose" not in om:
            cols = [w.tag("c%d" % (j + 1), w.nums([1.0] if (b, j) == ("rotation 1", 1) else
                                                  R[:2, j] if (b, j) == ("rotation 2", 0) else R[:, j])) for j in range(3)
                    if (b, j) != ("no column", 2)]
            tt = t[:2] if b == "translation 2" else t + [1.0] if b == "translation 4" else t
            pk = ([w.tag("translation", w.nums(tt))] if b != "no translation" else []) + \
                ([w.group("rotation", cols, fill=False)] if b != "no rotation" else [])
            if b == "pose tag":
                pk.append("<T_wc> [ 1, 0, 0, 0; 0, 1, 0, 0; 0, 0, 1, 0 ] </T_wc>")
            kids.append(w.group("pose", pk, fill=False))
        if "bounds" not in om:
            cs = [list(c) for c in e["bounds"]]
            if r.random() < 0.5:
                cs = [[f(a, c) for a, c in zip(*e["bounds"])] for f in (min, max)]
            if b == "corner 2":
                cs[r.randrange(2)].pop()
            ks = [w.tag("corner%d" % (j + 1), w.nums(c)) for j, c in enumerate(cs) if (b, j) != ("no corner", 1)]
            kids.append(w.group("bounds", ks, fill=False))
        if "symmetry" not in om:
            s = world.SYMS[e["sym"]]
            if b == "symmetry":
                s = r.choice([("none", "cylindrical", "twoFold"), ("spherical", "spherical", "none"), ("square", "none", "none")])
            kids.append(w.group("symmetry", [w.tag(k, x) for k, x in zip("xyz", s)], fill=False))
        if "detectionScore" not in om:
            v = e["score"]
            kids.append(w.tag("detectionScore", "high" if b == "score" else
                              (" %s\n" if r.random() < 0.3 else "%s") % (v if isinstance(v, int) else w.num(v))))
        if "evaluated" not in om:
            kids.append(w.tag("evaluated", r.choice(["True", "true"]) if e["evaluated"] else r.choice(["False", "false"])))
        els.append(w.group("element", kids, depth=2, attr=r.choice(["", "", " n='%d'" % i])))
    S = sc["settings"]
    top = []
    if "version" in S:
        top.append(w.tag("version", w.text(S["version"])))
    cat = [w.tag(t, w.text(S["categories_" + t])) for t in ("id", "url") if "categories_" + t in S]
    if cat or r.random() < 0.5:
        top.append(w.group("categories", cat, depth=1, fill=False))
    if bad != "no type":
        top.append(w.tag("project_type", "surfels" if bad == "type" else sc["type"]))
    if bad != "no elements":
        top.append(w.group("elements", els, depth=1, fill=False))
    s = w.group("project" if bad == "root" else "scene", top,
                attr=r.choice(["", " xmlns:sumo=\"https://www.sumochallenge.org\"", " version='9'"]))
    enc = st["enc"]
    if enc == "none":
        return s.encode("utf-8")
    name = "utf-8" if enc == "utf-8-sig" else enc
    s = "<?xml version=\"1.0\" encoding=%s?>%s%s%s" % (r.choice(["\"%s\"", "'%s'"]) % name, r.choice(["", "\n", "\n<!-- by hand -->\n"]), s,
                                                        r.choice(["", "\n", "\n<!-- end -->"]))
    return s.encode(enc, "xmlcharrefreplace") if "<![CDATA[" not in s or enc.startswith("utf") else s.encode("utf-8").replace(
        name.encode(), b"utf-8", 1)


def write_h5(path, d, st):
    import h5py
    size, corner, _, idx = world.voxel_arrays(d)
    r = random.Random(st["seed"])
    idx = list(idx)
    r.shuffle(idx)
    a = np.array(idx, np.int64)
    how = st["h5"]
    kw = {"compression": "gzip", "chunks": (max(1, len(idx) // 2), 3)} if how == "packed" else {}
    with h5py.File(path, "w", **({"libver": "latest"} if how == "wide" else {})) as f:
        f.create_dataset("voxels_3d", data=a.astype(np.int64 if how == "wide" else np.int32), **kw)
        f.attrs["scale"] = 1 / size
        f.attrs["min_corner"] = np.array(corner, float)
        m = 1 if how == "plain" else 1000
        f.attrs["size_x"] = int(a[:, 0].max()) + m
        f.attrs["size_y"] = int(a[:, 1].max()) + m
        if how == "more":
            f.attrs["author"] = "somebody"
            f.create_dataset("colors", data=np.zeros((len(idx), 3), np.uint8))


def write(folder, name, sc, st):
    """Writes the scene; returns whether it has to be accepted."""
    bad = st.get("bad") if sc["elements"] else None
    d = os.path.join(folder, name)
    os.makedirs(d)
    if bad == "no file" and sc["type"] == "bounding_box":
        bad = None
    with open(os.path.join(d, name + ".xml"), "wb") as f:
        f.write(document(sc, st, bad))
    for i, e in enumerate(sc["elements"]):
        if bad == "no file" and i == st["which"] % len(sc["elements"]):
            continue
        if sc["type"] == "meshes":
            ref.write_foreign(e["foreign"], d, e["id"])
        elif sc["type"] == "voxels":
            write_h5(os.path.join(d, e["id"] + ".h5"), e["vox"], st)
    return not bad

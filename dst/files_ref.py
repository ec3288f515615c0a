"""Contents and independent readers for the simulation of model, image, point and voxel files.

The readers share no code with the code under test: glTF and GLB are parsed here, PNG by OpenCV's decoder,
TIFF, PLY and text here, HDF5 by h5py.
"""
import base64
import json
import os
import struct

import numpy as np

from . import world
from .world import h

CT = {5120: np.int8, 5121: np.uint8, 5122: np.int16, 5123: np.uint16, 5125: np.uint32, 5126: np.float32}
NC = {"SCALAR": 1, "VEC2": 2, "VEC3": 3, "VEC4": 4}
EMPTY = np.zeros((0, 0, 3), np.uint8)


# ---------------------------------------------------------------- models
def tex_pixels(d):
    """RGB pixels of a texture file."""
    return np.random.RandomState(d["seed"]).randint(0, 256, (d["h"], d["w"], 3)).astype(np.uint8)


def png(rgb, alpha=False, seed=0):
    import cv2
    bgr = rgb[:, :, ::-1]
    if alpha:
        a = np.random.RandomState(seed).randint(1, 256, rgb.shape[:2] + (1,)).astype(np.uint8)
        bgr = np.concatenate([bgr, a], axis=2)
    ok, buf = cv2.imencode(".png", np.ascontiguousarray(bgr))
    return buf.tobytes()


def unpng(data):
    import cv2
    im = cv2.imdecode(np.frombuffer(data, np.uint8), cv2.IMREAD_COLOR)
    if im is None:
        raise ValueError("image cannot be decoded")
    return np.ascontiguousarray(im[:, :, ::-1])


def foreign_prims(desc):
    """Raw arrays of the primitives of a glTF file made by somebody else."""
    out = []
    for p in desc["prims"]:
        a = world.mesh_arrays(p["mesh"])
        if a["tex"]:
            if not p["mr"]:
                a["mr"] = EMPTY
            if not p["bc"]:
                a["bc"] = EMPTY
        out.append(a)
    first = [i for i, a in enumerate(out) if a["tex"] and desc["prims"][i]["bc"]]
    for i, p in enumerate(desc["prims"]):
        if p["share"] and out[i]["tex"] and p["bc"] and first:
            out[i]["bc"] = out[first[0]]["bc"]
    return out


def expect_foreign(desc):
    out = []
    for p, a in zip(desc["prims"], foreign_prims(desc)):
        c = world.canon_mesh(a)
        c["factor"] = p["factor"]
        out.append(c)
    if desc.get("odd") in ("strip", "fan"):
        out[0]["idx"] = "a " + desc["odd"]               # no list of triangles is right
    elif desc.get("odd") == "sparse":
        out[0]["v"] = "sparse"
    return {"prims": out, "mats": {}}


ODD = ("strip", "fan", "uv8", "uv16", "no normals", "no indices", "no material", "sparse", "no scenes", "short", "colors")


def make_odd(odd, q, a, acc):
    """Makes a primitive one of a valid kind that need not be supported."""
    at = q["attributes"]
    if odd in ("strip", "fan"):
        q["mode"] = 5 if odd == "strip" else 6
    elif odd in ("uv8", "uv16") and a["tex"]:
        d, m, ct = (np.uint8, 255, 5121) if odd == "uv8" else (np.uint16, 65535, 5123)
        at["TEXCOORD_0"] = acc(np.clip(np.round(a["uv"].T * m), 0, m).astype(d), "VEC2", ct)
        acc.accs[-1]["normalized"] = True
    elif odd == "no normals":
        del at["NORMAL"]
    elif odd == "no indices":
        del q["indices"]
    elif odd == "no material":
        q.pop("material")
    elif odd == "sparse":
        acc.accs[at["POSITION"]]["sparse"] = {
            "count": 1, "indices": {"bufferView": acc.accs[acc(np.zeros((1, 1), np.uint16), "SCALAR", 5123)]["bufferView"], "componentType": 5123},
            "values": {"bufferView": acc.accs[acc(np.full((1, 3), 7, np.float32), "SCALAR", 5126)]["bufferView"]}}
    elif odd == "short":                                 # normals as bytes, as KHR_mesh_quantization has them
        at["NORMAL"] = acc(np.round(a["n"].T * 100).astype(np.int8), "VEC3", 5120)
    elif odd == "colors":                                # an attribute that nobody asks for
        at["COLOR_0"] = acc(np.ones((a["v"].shape[1], 3), np.float32), "VEC3", 5126)


def write_foreign(desc, folder, root):
    """A glTF file ("gltf"), one with its buffers inside as data URIs ("data") or a GLB file ("glb"), by another program:
    interleaved vertices ("stride"), all indices and vertices in one view ("aoff"), any number of buffers, images by name."""
    arrs = foreign_prims(desc)
    form = desc.get("form", "gltf")
    nb = desc.get("buffers", 1) if form != "glb" else 1
    bufs = [bytearray() for _ in range(nb)]
    views, accs, images, textures, mats, meshes, nodes = [], [], [], [], [], [], []
    files = {}

    def view(raw):
        b = len(views) % nb
        bufs[b] += b"\xee" * (4 * desc["pad"])
        views.append({"buffer": b, "byteOffset": len(bufs[b]), "byteLength": len(raw)})
        bufs[b] += raw + b"\xdd" * (-len(raw) % 4)
        return len(views) - 1

    def acc(a, typ, ct, v=None, off=0):
        v = view(np.ascontiguousarray(a).tobytes()) if v is None else v
        n = a.shape[0]
        d = {"bufferView": v, "componentType": ct, "count": n, "type": typ}
        if off:
            d["byteOffset"] = off
        if typ == "VEC3":
            d["min"], d["max"] = [[float(x) for x in f(a, axis=0)] for f in (np.amin, np.amax)]
        accs.append(d)
        return len(accs) - 1

    def tex(px):
        i = len(images)
        name = desc["names"] % (i + desc["first"])
        px = png(px, desc["alpha"], i)
        if form == "glb":
            images.append({"bufferView": view(px), "mimeType": "image/png"})
        else:
            files[name] = px
            images.append({"uri": name})
        textures.append({"source": i} if desc.get("bare") else {"source": i, "sampler": 0})
        return len(textures) - 1

    acc.accs = accs
    shared = None
    prims = []
    odd = desc.get("odd")
    for p, a in zip(desc["prims"], arrs):
        ct = p["it"]
        parts = [a["v"].T, a["n"].T] + ([a["uv"].T] if a["tex"] else [])
        at, names = {}, ["POSITION", "NORMAL", "TEXCOORD_0"]
        if desc.get("stride"):
            one = np.ascontiguousarray(np.concatenate(parts + [np.full((parts[0].shape[0], 1), 99, np.float32)], axis=1))
            vw = view(one.tobytes())
            views[vw]["byteStride"] = one.shape[1] * 4
            offs = [4 * sum(x.shape[1] for x in parts[:i]) for i in range(len(parts))]
        elif desc.get("aoff"):
            vw = view(b"".join(np.ascontiguousarray(x).tobytes() for x in parts))
            offs = [4 * sum(x.size for x in parts[:i]) for i in range(len(parts))]
        else:
            vw, offs = None, [0] * 3
        for x, nm, off in zip(parts, names, offs):
            at[nm] = acc(x, "VEC%d" % x.shape[1], 5126, vw, off)
        q = {"attributes": at, "indices": acc(a["idx"].astype(CT[ct]), "SCALAR", ct), "mode": 4}
        m = {}
        if p["factor"]:
            m["baseColorFactor"] = p["factor"]
        if a["tex"]:
            if p["bc"]:
                if p["share"] and shared is not None:
                    m["baseColorTexture"] = {"index": shared}
                else:
                    k = tex(a["bc"])
                    shared = k if shared is None else shared
                    m["baseColorTexture"] = {"index": k}
            if p["mr"]:
                m["metallicRoughnessTexture"] = {"index": tex(a["mr"])}
        q["material"] = len(mats)
        mats.append({"name": "m%d" % len(mats), "pbrMetallicRoughness": m or {"metallicFactor": 0.25}})
        if desc.get("bare"):
            del q["mode"]
        if odd:
            make_odd(odd, q, a, acc)
            odd = None
        prims.append(q)
    odd = desc.get("odd")
    g = max(1, desc["group"])
    for i in range(0, len(prims), g):
        nodes.append({"mesh": len(meshes)})
        meshes.append({"primitives": prims[i:i + g]})
    top, tree = list(range(len(nodes))), desc.get("tree")
    if tree == "root":                                   # all below one node, with one that shows nothing
        nodes += [{"name": "nothing", "translation": [1, 2, 3]}, {"name": "root", "children": top + [len(nodes)]}]
        top = [len(nodes) - 1]
    elif tree == "empty":
        nodes = [{}, {"name": "camera", "camera": 0}] + nodes
        top = list(range(len(nodes)))
    scenes = [{"nodes": top}]
    if odd == "no scenes":
        scenes = []
    if tree == "scenes" and scenes:
        scenes = [{"name": "other", "nodes": top[:1]}, {"nodes": top}]
    while len(bufs) > 1 and not bufs[-1]:
        bufs.pop()
    doc = {"asset": {"version": "2.0", "generator": "elsewhere"}, "scene": len(scenes) - 1, "scenes": scenes,
           "nodes": nodes, "meshes": meshes, "accessors": accs, "bufferViews": views,
           "buffers": [{"uri": root + (".bin" if k == 0 else "_%d.bin" % k), "byteLength": len(b)} for k, b in enumerate(bufs)],
           "materials": mats}
    if not scenes:
        del doc["scene"], doc["scenes"]
    if tree == "empty":
        doc["cameras"] = [{"type": "perspective", "perspective": {"yfov": 1.0, "znear": 0.1, "zfar": 10.0, "aspectRatio": 1.5}}]
    if images:
        doc.update(images=images, textures=textures, samplers=[{"magFilter": 9729}])
        if desc.get("bare"):
            del doc["samplers"]
    if desc.get("extra"):
        doc.update(extensionsUsed=["KHR_x"], extras={"by": "somebody"})
        doc["asset"]["copyright"] = "\u00a9 \"x\" \\ y"
        for x in meshes + mats + nodes[:1] + scenes:
            x["extras"] = {"a": [1, 2.5, "b"], "c": {}}
        for i, m in enumerate(meshes):
            m["name"] = "m\u00e9sh %d" % (i // 2)
    if form == "glb":
        del doc["buffers"][0]["uri"]
        j = json.dumps(doc).encode()
        j += b" " * (-len(j) % 4)
        b = bytes(bufs[0]) + b"\0" * (-len(bufs[0]) % 4)
        files[root + ".glb"] = struct.pack("<IIIII", 0x46546C67, 2, 28 + len(j) + len(b), len(j), 0x4E4F534A) + j + \
            struct.pack("<II", len(b), 0x004E4942) + b
    else:
        for k, b in enumerate(bufs):
            if form == "data":
                doc["buffers"][k]["uri"] = data_uri("application/octet-stream", bytes(b))
            else:
                files[root + (".bin" if k == 0 else "_%d.bin" % k)] = bytes(b)
        files[root + ".gltf"] = json.dumps(doc).encode()
    for n, b in files.items():
        with open(os.path.join(folder, n), "wb") as f:
            f.write(b)
    return sorted(files)


def data_uri(mime, raw):
    return "data:%s;base64,%s" % (mime, base64.b64encode(raw).decode())


def fetch(folder, uri):
    if uri.startswith("data:"):
        return base64.b64decode(uri.split(",", 1)[1])
    with open(os.path.join(folder, uri), "rb") as f:
        return f.read()


def need(cond, msg):
    if not cond:
        raise ValueError(msg)


def read_model(path):
    """Canonical form of a glTF or GLB file, read according to the glTF 2.0 specification."""
    with open(path, "rb") as f:
        raw = f.read()
    folder = os.path.dirname(path)
    glb = path.endswith(".glb")
    body = None
    if glb:
        need(len(raw) >= 20, "too short for a GLB header")
        magic, ver, total, jl, jt = struct.unpack("<IIIII", raw[:20])
        need(magic == 0x46546C67 and ver == 2, "wrong GLB magic number or version")
        need(total == len(raw), "GLB header says %d bytes, file has %d" % (total, len(raw)))
        need(jt == 0x4E4F534A and jl % 4 == 0 and 20 + jl <= total, "wrong JSON chunk")
        doc = json.loads(raw[20:20 + jl].decode("utf-8"))
        if 20 + jl < total:
            need(28 + jl <= total, "no room for the BIN chunk header")
            bl, bt = struct.unpack("<II", raw[20 + jl:28 + jl])
            need(bt == 0x004E4942 and bl % 4 == 0 and 28 + jl + bl == total, "wrong BIN chunk")
            body = raw[28 + jl:]
    else:
        doc = json.loads(raw.decode("utf-8"))
    need(doc["asset"]["version"] == "2.0", "asset version")
    bufs = []
    for i, b in enumerate(doc.get("buffers", [])):
        if "uri" in b:
            d = fetch(folder, b["uri"])
        else:
            need(glb and i == 0 and body is not None, "buffer %d has no data" % i)
            d = body
        need(b["byteLength"] <= len(d), "buffer %d is %d bytes, not %d" % (i, len(d), b["byteLength"]))
        bufs.append(d)

    def view(i):
        v = doc["bufferViews"][i]
        need(0 <= v["buffer"] < len(bufs), "buffer view %d refers to buffer %d" % (i, v["buffer"]))
        o = v.get("byteOffset", 0)
        need(o + v["byteLength"] <= len(bufs[v["buffer"]]), "buffer view %d exceeds its buffer" % i)
        return bufs[v["buffer"]][o:o + v["byteLength"]], v.get("byteStride", 0)

    def acc(i, what):
        a = doc["accessors"][i]
        raw, stride = view(a["bufferView"])
        dt, nc = np.dtype(CT[a["componentType"]]), NC[a["type"]]
        size = dt.itemsize * nc
        o, n = a.get("byteOffset", 0), a["count"]
        stride = stride or size
        need(n == 0 or o + stride * (n - 1) + size <= len(raw), "accessor %d exceeds its buffer view" % i)
        if stride == size:
            out = np.frombuffer(raw, dt, n * nc, o).reshape(n, nc)
        else:
            out = np.array([np.frombuffer(raw, dt, nc, o + k * stride) for k in range(n)], dt).reshape(n, nc)
        if what == "POSITION":
            need("min" in a and "max" in a, "no bounds for accessor %d" % i)
            for k, f in (("min", np.amin), ("max", np.amax)):
                need(world.close([float(x) for x in f(out, axis=0)], a[k], 1e-6), "%s of accessor %d" % (k, i))
        return out

    def image(i):
        t = doc["textures"][i]
        im = doc["images"][t["source"]]
        if "bufferView" in im:
            need(im.get("mimeType") == "image/png", "mime type %r" % im.get("mimeType"))
            return unpng(view(im["bufferView"])[0])
        return unpng(fetch(folder, im["uri"]))

    prims = []
    for m in doc.get("meshes", []):
        for p in m["primitives"]:
            need(p.get("mode", 4) == 4, "not triangles")
            at = p["attributes"]
            a = {"idx": acc(p["indices"], "idx")[:, 0].astype(np.uint32), "v": acc(at["POSITION"], "POSITION").T,
                 "n": acc(at["NORMAL"], "n").T, "tex": "TEXCOORD_0" in at}
            mat = doc["materials"][p["material"]].get("pbrMetallicRoughness", {})
            if a["tex"]:
                a["uv"] = acc(at["TEXCOORD_0"], "uv").T
                a["bc"] = image(mat["baseColorTexture"]["index"]) if "baseColorTexture" in mat else EMPTY
                a["mr"] = image(mat["metallicRoughnessTexture"]["index"]) if "metallicRoughnessTexture" in mat else EMPTY
            c = world.canon_mesh(a)
            c["factor"] = mat.get("baseColorFactor")
            prims.append(c)
    used = [i for s in doc.get("scenes", []) for i in s["nodes"]]
    need(all(0 <= i < len(doc.get("nodes", [])) for i in used), "scene refers to missing nodes")
    for i in used:                                       # grows while it is read
        used += doc["nodes"][i].get("children", [])
        need(len(used) < 10000, "the nodes are no tree")
    shown = [doc["nodes"][i].get("mesh") for i in used]
    need(sorted(set(x for x in shown if x is not None)) == list(range(len(doc.get("meshes", [])))), "meshes missing in the scene")
    mats = {}
    for m in doc.get("materials", []):
        q = m.get("pbrMetallicRoughness", {})
        mats[m.get("name", "")] = [q.get("baseColorFactor"), q.get("metallicFactor"), q.get("roughnessFactor")]
    return {"prims": prims, "mats": mats}


def diff_model(a, b):
    if "observation_failed" in b:
        return [b["observation_failed"]]
    out = world.diff_model(a["prims"], b["prims"])
    if not out:
        for i, (x, y) in enumerate(zip(a["prims"], b["prims"])):
            if "factor" in y and (x["factor"] is None) != (y["factor"] is None) or \
                    y.get("factor") and not world.close(x["factor"], y["factor"], 1e-6):
                out.append("mesh %d: base colour is %r, not %r" % (i, y["factor"], x["factor"]))
    for n, m in sorted(a["mats"].items()):
        if "mats" in b:
            o = b["mats"].get(n)
            if o is None or None in o or not world.close(list(m[0]), o[0], 1e-6) or not world.close(m[1:], o[1:], 1e-6):
                out.append("material %r is %r, not %r" % (n, o, m))
    return out


# ---------------------------------------------------------------- images
def tiff_arrays(d):
    rs = np.random.RandomState(d["seed"])
    hh, w = d["h"], d["w"]
    a = {"rgb": rs.randint(0, 256, (hh, w, 3)).astype(np.uint8) if not d["flat"] else np.full((hh, w, 3), 77, np.uint8)}
    if d["depth"] == "invdepth":
        x = rs.randint(0, 65536, (hh, w))
        x[rs.uniform(size=(hh, w)) < 0.1] = 0
        a["invdepth"] = x.astype(np.uint16)
    else:
        x = 10 ** rs.uniform(-1.5, 5.5, (hh, w))
        k = rs.uniform(size=(hh, w))
        x[k < 0.05] = 0
        x[(k >= 0.05) & (k < 0.1)] = np.inf
        x[(k >= 0.1) & (k < 0.5)] = rs.uniform(0.2, 12, (hh, w))[(k >= 0.1) & (k < 0.5)]
        a["depth"] = x.astype(np.float32)
    for p in d["pages"]:
        a[p] = rs.randint(0, 65536, (hh, w)).astype(np.uint16)
    if d.get("lay"):
        how, which = d["lay"]
        for i, k in enumerate(sorted(a)):
            if which is None or which == i % 4:
                a[k] = laid(a[k], how)
    return a


def laid(a, how):
    """The same values, laid out in memory differently: part of a larger image, by columns, or flipped."""
    if how == "crop":
        big = np.full((a.shape[0] + 3, a.shape[1] + 5) + a.shape[2:], 99, a.dtype)
        big[1:-2, 2:-3] = a
        return big[1:-2, 2:-3]
    if how == "f":
        return np.asfortranarray(a)
    if how == "flip":
        return np.ascontiguousarray(a[:, ::-1])[:, ::-1]
    if how == "rows":
        big = np.full((2 * a.shape[0],) + a.shape[1:], 99, a.dtype)
        big[::2] = a
        return big[::2]
    return a


def pack(a):
    a = np.ascontiguousarray(a)
    return [a.dtype.str, list(a.shape), a.tobytes()]


def unpack(p):
    return np.frombuffer(p[2], np.dtype(p[0])).reshape(p[1])


def canon_tiff(a):
    return {k: pack(v) if k in ("depth", "invdepth") else h(v) for k, v in a.items()}


def inverse(c, near):
    """The inverse depth a page map describes, as real numbers."""
    if "invdepth" in c:
        return unpack(c["invdepth"]).astype(float)
    d = unpack(c["depth"]).astype(float)
    n = float(np.float32(near))
    with np.errstate(divide="ignore", invalid="ignore"):
        x = n * 65535.0 / d
    x[d <= n] = 65535
    x[d == 0] = 0
    x[np.isinf(d)] = 0
    return x


def diff_tiff(exp, near, obs, only=None, subset=False):
    """exp was written with `near`; obs was read back (depth as float)."""
    if "observation_failed" in obs:
        return [obs["observation_failed"]]
    out = []
    keys = {"depth" if k == "invdepth" else k for k in exp}
    if only:
        keys &= set(only)
    seen = {"depth" if k == "invdepth" else k for k in obs}
    if seen - keys or (keys - seen and not subset):
        return ["pages are %s, not %s" % (sorted(seen), sorted(keys))]
    for k in sorted(seen - {"depth"}):
        if exp[k] != obs[k]:
            out.append("page %s is %s, not %s" % (k, obs[k], exp[k]))
    if "depth" in seen:
        x = inverse(exp, near)
        if "invdepth" in obs:
            y = unpack(obs["invdepth"]).astype(float)
        else:
            d = unpack(obs["depth"]).astype(float)
            if not (d > 0).all():
                return out + ["depth has values that are not positive"]
            with np.errstate(divide="ignore"):
                y = np.where(np.isinf(d), 0.0, float(np.float32(near)) * 65535.0 / d)
        if x.shape != y.shape:
            return out + ["depth is %s, not %s" % (y.shape, x.shape)]
        bad = np.abs(x - y) > (0.02 if "invdepth" in exp else 0.52)
        if bad.any():
            i = tuple(np.argwhere(bad)[0])
            out.append("depth differs at %d of %d pixels, e.g. inverse %r at %s, not %r" %
                       (bad.sum(), bad.size, float(y[i]), tuple(map(int, i)), float(x[i])))
    return out


TSIZE = {1: "B", 2: "B", 3: "H", 4: "I", 5: "Q", 16: "Q"}


def tiff_pages(raw):
    """Tags and pixels of the pages of a classic little-endian TIFF file with deflated strips."""
    import zlib
    need(raw[:4] == b"II*\0", "no TIFF header")
    out, at = [], struct.unpack_from("<I", raw, 4)[0]
    seen = set()
    while at:
        need(at not in seen and at + 2 <= len(raw), "directory offset %d" % at)
        seen.add(at)
        n = struct.unpack_from("<H", raw, at)[0]
        tags = {}
        for i in range(n):
            tag, typ, cnt, val = struct.unpack_from("<HHII", raw, at + 2 + 12 * i)
            f = TSIZE[typ]
            size = struct.calcsize("<%d%s" % (cnt, f))
            off = at + 2 + 12 * i + 8 if size <= 4 else val
            tags[tag] = struct.unpack_from("<%d%s" % (cnt, f), raw, off)
        w, hh, spp = tags[256][0], tags[257][0], tags.get(277, (1,))[0]
        bits = tags[258][0]
        need(tags[259][0] in (8, 32946) and tags.get(317, (1,))[0] == 1 and tags.get(339, (1,))[0] == 1, "page format")
        dt = np.dtype({8: "u1", 16: "<u2"}[bits])
        rows = []
        for o, c in zip(tags[273], tags[279]):
            need(o + c <= len(raw), "strip exceeds the file")
            rows.append(zlib.decompress(raw[o:o + c]))
        a = np.frombuffer(b"".join(rows), dt)
        need(a.size == hh * w * spp, "%d samples for %d x %d x %d" % (a.size, hh, w, spp))
        out.append((tags, a.reshape((hh, w, spp) if spp > 1 else (hh, w))))
        at = struct.unpack_from("<I", raw, at + 2 + 12 * n)[0]
    return out


def read_tiff(path):
    """(canonical form with the inverse depth as stored, near plane)"""
    with open(path, "rb") as f:
        pages = tiff_pages(f.read())
    out, names = {}, []
    text = lambda t: bytes(t).rstrip(b"\0").decode()
    near = float(json.loads(text(pages[0][0][270]))["near"]) if 270 in pages[0][0] else 1.0
    for i, (t, a) in enumerate(pages):
        names.append(text(t[285]))
        need(t[297] == (i, len(pages)), "page number %r of %d" % (t[297], len(pages)))
        key = {"rgb": "rgb", "inv_depth": "invdepth", "category": "category", "instance": "instance"}[names[-1]]
        if key == "rgb":
            need(a.dtype == np.uint8 and a.ndim == 3, "rgb page is %s" % a.dtype)
        else:
            need(a.dtype == np.uint16 and a.ndim == 2, "page %s is %s" % (key, a.dtype))
        out[key] = pack(a) if key == "invdepth" else h(a)
    need(names == [k for k in ("rgb", "inv_depth", "category", "instance") if k in names], "pages in order %s" % names)
    return out, near


# ---------------------------------------------------------------- point clouds
def cloud_arrays(d):
    rs = np.random.RandomState(d["seed"])
    p = rs.uniform(-1, 1, (3, d["n"])) * d["scale"]
    c = rs.randint(0, 256, (3, d["n"])).astype(np.uint8) if d["col"] else None
    return p, c


def canon_cloud(p, c):
    return {"p": pack(np.asarray(p, np.float64)), "c": h(np.asarray(c, np.uint8)) if c is not None else None}


def read_ply(path):
    with open(path, "rb") as f:
        raw = f.read()
    need(raw.startswith(b"ply"), "no ply header")
    i = raw.index(b"end_header\n") + len(b"end_header\n")
    lines = raw[:i].decode("ascii").split("\n")
    need(any(x.startswith("format binary_little_endian") for x in lines), "format")
    n, props = None, []
    for x in lines:
        w = x.split()
        if w[:1] == ["element"]:
            need(w[1] == "vertex" and n is None, "element %s" % x)
            n = int(w[2])
        elif w[:1] == ["property"]:
            props.append((w[2], {"float": "<f4", "float32": "<f4", "double": "<f8", "uchar": "u1", "uint8": "u1"}[w[1]]))
    dt = np.dtype(props)
    need(len(raw) - i == n * dt.itemsize, "%d bytes of data for %d points of %d bytes" % (len(raw) - i, n, dt.itemsize))
    a = np.frombuffer(raw, dt, n, i)
    p = np.array([a["x"], a["y"], a["z"]])
    c = np.array([a["red"], a["green"], a["blue"]]).astype(np.uint8) if "red" in dt.names else None
    return canon_cloud(p, c)


def diff_ply(exp, obs, colours=True):
    if "observation_failed" in obs:
        return [obs["observation_failed"]]
    x, y = unpack(exp["p"]).astype(np.float32), unpack(obs["p"]).astype(np.float32)
    out = []
    if x.shape != y.shape:
        out.append("%s points, not %s" % (y.shape, x.shape))
    elif not np.array_equal(x, y):
        out.append("%d coordinates differ" % (x != y).sum())
    if colours and exp["c"] != obs["c"]:
        out.append("colours are %s, not %s" % (obs["c"], exp["c"]))
    return out


def read_text(path):
    a = np.loadtxt(path, ndmin=2)
    need(a.shape[1] == 6, "%d columns" % a.shape[1])
    return {"p": pack(np.ascontiguousarray(a[:, :3].T)), "c": a[:, 3:].tolist()}


def diff_text(exp, color, obs):
    if "observation_failed" in obs:
        return [obs["observation_failed"]]
    x, y = unpack(exp["p"]), unpack(obs["p"])
    if x.shape != y.shape or not np.array_equal(x, y):
        return ["points %s differ from %s" % (y.shape, x.shape)]
    if any(r != [float(v) for v in color] for r in obs["c"]):
        return ["colours differ"]
    return []


# ---------------------------------------------------------------- voxels
def canon_vox(size, corner, idx):
    ix = np.array(sorted(idx), np.int64).reshape(-1, 3)
    return {"size": float(size), "corner": [float(x) for x in corner], "n": len(ix), "idx": h(ix),
            "lo": ix.min(0).tolist(), "hi": ix.max(0).tolist(), "_set": ix.tolist()}


def read_vox(path):
    import h5py
    with h5py.File(path, "r") as f:
        ix = sorted(map(tuple, np.array(f["voxels_3d"]).astype(np.int64).tolist()))
        c = canon_vox(1.0 / f.attrs["scale"], np.array(f.attrs["min_corner"], float), ix)
        need(len(set(ix)) == len(ix), "a voxel is stored twice")
        need(c["hi"][0] < f.attrs["size_x"] and c["hi"][1] < f.attrs["size_y"], "sizes")
    return c

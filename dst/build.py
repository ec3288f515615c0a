"""Builds the package of /repo's current working tree outside /repo.

The sources are copied to /verif/.build/<hash>/sumo-api (git-ignored), the Cython
extensions are generated and compiled there with the project's own setup.py
extension list and the flags of /opt/vp/env.sh, and linked.  Objects are compiled
once each and in parallel (setup.py compiles shared objects once per extension).
"""
import fcntl
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import sysconfig
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD_ROOT = os.path.join(VERIF, ".build")


class BuildError(Exception):
    pass


def _inputs():
    """All source files of the package that matter to the build (sorted)."""
    out = []
    top = os.path.join(REPO, "sumo-api")
    for base, dirs, files in os.walk(top):
        rel = os.path.relpath(base, top)
        dirs[:] = sorted(d for d in dirs if d not in
                         ("build", "__pycache__", "test_data", "tests", "TEST_TMP", "dist"))
        for f in sorted(files):
            if not f.endswith((".py", ".pyx", ".pxd", ".h", ".cpp", ".hpp", ".c", ".txt")):
                continue
            if f.endswith(".cpp") and os.path.exists(os.path.join(base, f[:-4] + ".pyx")):
                continue
            if f.endswith(".c") and os.path.exists(os.path.join(base, f[:-2] + ".pyx")):
                continue
            out.append(os.path.normpath(os.path.join(rel, f)))
    return out


def tree_hash(files):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode() + b"\0")
        with open(os.path.join(REPO, "sumo-api", f), "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    for extra in ("/opt/vp/env.sh", os.path.abspath(__file__)):
        with open(extra, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def _run(cmd, cwd, env):
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError("build step failed: %s\n%s" % (cmd, r.stdout.decode(errors="replace")[-4000:]))


_GEN = r'''
import sys, json, runpy
sys.argv = ["setup.py", "build_ext", "--inplace"]
import Cython.Build, Cython.Build.Dependencies
import setuptools
real = Cython.Build.cythonize
def cyth(exts, **kw):
    kw["nthreads"] = 8
    kw.setdefault("quiet", True)
    return real(exts, **kw)
Cython.Build.cythonize = cyth
got = {}
def fake_setup(**kw):
    got.update(kw)
setuptools.setup = fake_setup
if __name__ == "__main__":
    runpy.run_path("setup.py", run_name="__setup__")
    exts = [dict(name=e.name, sources=e.sources, include_dirs=e.include_dirs,
                 library_dirs=e.library_dirs, libraries=e.libraries,
                 define_macros=[list(m) for m in (e.define_macros or [])],
                 cargs=e.extra_compile_args, largs=e.extra_link_args,
                 objects=e.extra_objects or []) for e in got["ext_modules"]]
    json.dump(exts, open("exts.json", "w"))
'''


def _build_into(dst, files):
    api = os.path.join(dst, "sumo-api")
    for f in files:
        p = os.path.join(api, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        shutil.copy2(os.path.join(REPO, "sumo-api", f), p)
    for d in glob.glob(os.path.join(REPO, "sumo-api/sumo/*/test_data")):
        link = os.path.join(api, os.path.relpath(d, os.path.join(REPO, "sumo-api")))
        os.makedirs(os.path.dirname(link), exist_ok=True)
        if not os.path.islink(link):
            os.symlink(d, link)
    env = dict(os.environ)
    env["CCACHE_TEMPDIR"] = os.path.join(dst, "cctmp")
    if os.path.isdir("/opt/ccache"):
        env["CCACHE_READONLY"] = "1"      # use what is there, add nothing
    with open(os.path.join(api, "gen_exts.py"), "w") as f:
        f.write(_GEN)
    _run("%s gen_exts.py" % sys.executable, api, env)
    with open(os.path.join(api, "exts.json")) as f:
        exts = json.load(f)
    cflags = " ".join(env.get(k, "") for k in ("CXXFLAGS", "CPPFLAGS")) + " -fPIC"
    cxx = env.get("CXX", "g++")
    pyinc = "-I" + sysconfig.get_path("include")
    venvinc = "-I/opt/venv/include"
    ext_suffix = sysconfig.get_config_var("EXT_SUFFIX")
    objs, cmds, links = {}, [], []
    for e in exts:
        flags = "%s %s %s %s %s" % (
            cflags, " ".join("-D%s" % m[0] + ("=%s" % m[1] if m[1] is not None else "")
                             for m in e["define_macros"]),
            " ".join("-I" + i for i in e["include_dirs"]), venvinc, pyinc)
        mine = []
        for s in e["sources"]:
            key = (s, flags, " ".join(e["cargs"]))
            if key not in objs:
                o = "build/o/%s_%s.o" % (os.path.splitext(s)[0].replace("/", "_"),
                                         hashlib.sha256(repr(key).encode()).hexdigest()[:8])
                objs[key] = o
                cmds.append("%s %s -w -c %s -o %s %s" % (cxx, flags, s, o, " ".join(e["cargs"])))
            mine.append(objs[key])
        out = e["name"].replace(".", "/") + ext_suffix
        links.append("/usr/bin/g++ -O2 -shared %s %s %s %s %s -o %s %s" % (
            env.get("LDFLAGS", ""), " ".join(mine + e["objects"]),
            " ".join("-L" + d for d in e["library_dirs"]), "-L/usr/lib/x86_64-linux-gnu",
            " ".join("-l" + l for l in e["libraries"]), out, " ".join(e["largs"])))
    os.makedirs(os.path.join(api, "build/o"), exist_ok=True)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda c: _run(c, api, env), cmds))
        list(ex.map(lambda c: _run(c, api, env), links))
    shutil.rmtree(os.path.join(api, "build"))
    for f in glob.glob(os.path.join(api, "sumo/*/*.pyx")):
        os.path.exists(f[:-4] + ".cpp") and os.remove(f[:-4] + ".cpp")
    # the syscall seam
    seam = os.path.join(VERIF, "dst", "simio.c")
    if os.path.exists(seam):
        _run("/usr/bin/gcc -O2 -g -Wall -shared -fPIC -o %s %s" % (os.path.join(dst, "simio.so"), seam),
             dst, env)
    shutil.rmtree(os.path.join(dst, "cctmp"), ignore_errors=True)


def ensure(verbose=True):
    """Returns the directory of a finished build of the current tree."""
    files = _inputs()
    h = tree_hash(files)
    seam = os.path.join(VERIF, "dst", "simio.c")
    if os.path.exists(seam):
        h += "-" + hashlib.sha256(open(seam, "rb").read()).hexdigest()[:8]
    os.makedirs(BUILD_ROOT, exist_ok=True)
    dst = os.path.join(BUILD_ROOT, h)
    with open(os.path.join(BUILD_ROOT, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(dst, "done")):
            # keep the disk small: at most three finished builds
            olds = sorted((os.path.getmtime(p), p) for p in glob.glob(os.path.join(BUILD_ROOT, "*"))
                          if os.path.isdir(p) and p != dst)
            for _, p in olds[:-2]:
                shutil.rmtree(p, ignore_errors=True)
            shutil.rmtree(dst, ignore_errors=True)
            os.makedirs(dst)
            if verbose:
                print("building %s" % dst, file=sys.stderr, flush=True)
            _build_into(dst, files)
            open(os.path.join(dst, "done"), "w").close()
    return dst


if __name__ == "__main__":
    print(ensure())

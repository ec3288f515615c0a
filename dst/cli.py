import importlib
import json
import os
import shutil
import sys
import time

from . import core

# property -> (module, quick runs, thorough runs, quick wall s, thorough wall s, needs build)
CHECKS = {}
for _p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07"):
    CHECKS[_p] = ("dl_checks", 6000, 150000, 70, 1500, False)
for _p, _w in (("C08", 60), ("C09", 40), ("C13", 40), ("C14", 40), ("C15", 40), ("C16", 40), ("C22", 40)):
    CHECKS[_p] = ("st_scene", 6000, 200000, _w, 1500, True)
CHECKS["C17"] = ("st_eval", 6000, 200000, 45, 1500, True)
CHECKS["C18"] = ("st_rand", 6000, 200000, 40, 1500, True)
CHECKS["C19"] = ("st_multi", 6000, 200000, 40, 1500, True)
CHECKS["C20"] = ("st_mem", 6000, 200000, 40, 1500, True)
CHECKS["C21"] = ("st_val", 6000, 200000, 40, 1500, True)
for _p, _w in (("C10", 50), ("C11", 40), ("C12", 40)):
    CHECKS[_p] = ("st_files", 6000, 200000, _w, 1500, True)


def load(name):
    return importlib.import_module("dst." + name)


def prepare(need):
    if not need:
        return
    from . import build
    path = build.ensure()
    pkg = os.path.join(path, "sumo-api")
    sys.path.insert(0, pkg)
    os.environ["PYTHONPATH"] = pkg + ":" + os.environ.get("PYTHONPATH", "")
    os.environ["DST_SIMIO"] = os.path.join(path, "simio.so")


def main(argv):
    if not argv:
        print("usage: run setup | check <id> | replay <file>")
        return 2
    if argv[0] == "setup":
        from . import build
        t = time.time()
        p = build.ensure()
        print("built %s in %.1f s" % (p, time.time() - t))
        return 0
    if argv[0] == "check":
        prop = argv[1]
        tier = os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1"))
        name, q, th, qw, tw, need = CHECKS[prop]
        runs, wall = (q, qw) if tier != "thorough" else (th, tw)
        runs = int(os.environ.get("DST_RUNS", runs))
        wall = float(os.environ.get("DST_WALL", wall))
        prepare(need)
        mod = load(name)
        if hasattr(mod, "init"):
            mod.init()
        return core.check(mod, prop, tier, seed, runs, wall)
    if argv[0] == "replay":
        with open(argv[1]) as f:
            d = json.load(f)
        prepare(CHECKS[d["property"]][5])
        mod = load(d["module"])
        if hasattr(mod, "init"):
            mod.init()
        sc = os.path.join(core.SHM, "dst-replay-%d" % os.getpid())
        os.makedirs(sc)
        try:
            r = core.run_plan(mod, d["property"], d["plan"], sc)
        finally:
            shutil.rmtree(sc, ignore_errors=True)
        for ln in mod.describe(d["plan"], r):
            print(ln)
        same = r["hash"] == d["hash"]
        for v in r["violations"]:
            print("violated: %s %s: %s" % tuple(v[:3]))
        print("identical execution: %s" % same)
        return 1 if any(v[0] == d["property"] for v in r["violations"]) else 0
    print("unknown command")
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))

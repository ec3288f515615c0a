"""Seeded search: runs scenarios in parallel, checks them, shrinks failures, writes evidence."""
import hashlib
import json
import os
import pickle
import select
import shutil
import signal
import struct
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHM = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp"


def seed_of(base, prop, i):
    return int.from_bytes(hashlib.sha256(("%s|%s|%d" % (base, prop, i)).encode()).digest()[:6], "big")


def known_findings():
    """known-findings.txt: 'known: property=<id> sig=<sig> match=<text> <description>' lines."""
    out = []
    try:
        with open(os.path.join(VERIF, "known-findings.txt")) as f:
            for ln in f:
                if ln.startswith("known:"):
                    d = dict(x.split("=", 1) for x in ln[6:].split() if "=" in x)
                    out.append((d["property"], d["sig"], d.get("match", ""), ln[6:].strip()))
    except OSError:
        pass
    return out


def is_known(known, v):
    for p, sig, match, text in known:
        if v[0] == p and v[1] == sig and match in v[2].replace(" ", "_"):
            return text
    return None


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack("<I", len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


class Found(Exception):
    pass


def relevant(prop, res, known=()):
    return [v for v in res["violations"] if v[0] == prop and not is_known(known, v)]


def minimise(mod, prop, plan, res, scratch, budget, known=()):
    """Greedy shrinking; keeps only candidates that show the same kind of violation."""
    end = time.monotonic() + budget
    sig = relevant(prop, res, known)[0][1]
    cur = mod.freeze(plan, res)
    best = res
    r2 = run_plan(mod, prop, cur, scratch)
    exact = r2["hash"] == res["hash"]
    if not any(v[1] == sig for v in relevant(prop, r2, known)):
        return plan, res, exact, 0
    best = r2
    tries = 0
    progress = True
    while progress and time.monotonic() < end:
        progress = False
        for cand in mod.shrinks(cur):
            if time.monotonic() > end:
                break
            tries += 1
            try:
                r = run_plan(mod, prop, cand, scratch)
            except Exception:
                continue
            if any(v[1] == sig for v in relevant(prop, r, known)):
                cur, best, progress = mod.freeze(cand, r) if hasattr(mod, "freeze_small") else cand, r, True
                break
    return cur, best, exact, tries


def run_plan(mod, prop, plan, scratch):
    """One simulated run."""
    from . import st_sim
    try:
        return mod.execute(plan, scratch)
    except st_sim.CodeTrouble as e:
        t = "a step that must work failed: %s" % e
        return {"violations": [(prop, "setup-failed", t)], "hash": st_sim.digest([str(e)]), "stats": {}, "nontrivial": True,
                "traces": ["!! " + t]}


def _worker(mod, prop, base, idxs, deadline, fd, scratch, known, shrink_s):
    import random
    stats, hashes, samples = {}, set(), []
    n = nontriv = 0
    viol = None
    kseen = {}
    checked = 0
    mism = None
    err = None
    errs = 0
    for i in idxs:
        if time.monotonic() > deadline or errs > 20:
            break
        try:
            plan = mod.gen(prop, seed_of(base, prop, i))
            res = run_plan(mod, prop, plan, scratch)
            n += 1
            for k, v in res["stats"].items():
                stats[k] = stats.get(k, 0) + v
            h = int(res["hash"][:15], 16)
            if res["nontrivial"]:
                nontriv += 1
                hashes.add(h)
            if len(samples) < 2 and res["nontrivial"]:
                samples.append({"index": i, "plan": json.loads(json.dumps(plan))})
            if n % 97 == 1:       # every so often: the same seed twice must be the same execution
                r2 = run_plan(mod, prop, plan, scratch)
                checked += 1
                if r2["hash"] != res["hash"]:
                    mism = i
            for v in res["violations"]:
                t = is_known(known, v) if v[0] == prop else None
                if t:
                    kseen[t] = kseen.get(t, 0) + 1
            rel = relevant(prop, res, known)
            if rel:
                viol = {"index": i, "plan": plan, "violations": rel, "hash": res["hash"], "exact": False, "shrink_tries": 0,
                        "original": plan, "trace": mod.describe(plan, res)}
                small, r, exact, tries = minimise(mod, prop, plan, res, scratch, shrink_s, known)
                viol = {"index": i, "plan": small, "violations": relevant(prop, r, known) or rel,
                        "hash": r["hash"], "exact": exact, "shrink_tries": tries,
                        "original": plan, "trace": mod.describe(small, r)}
                break
        except Exception:       # trouble in the harness: remember it, go on looking
            errs += 1
            if viol:
                break
            err = err or traceback.format_exc() + "\n(run index %s)" % i
    _send(fd, {"n": n, "nontriv": nontriv, "stats": stats, "hashes": hashes, "samples": samples,
               "viol": viol, "known": kseen, "err": err, "det": checked, "mism": mism})


def check(mod, prop, tier, seed, runs, wall, shrink_s=40, nproc=8, extra=None):
    t0 = time.monotonic()
    known = known_findings()
    top = os.path.join(SHM, "dst-%d-%s" % (os.getpid(), prop))
    os.makedirs(top, exist_ok=True)
    deadline = t0 + wall
    kids = []
    try:
        for w in range(nproc):
            r, wfd = os.pipe()
            sc = os.path.join(top, "w%d" % w)
            os.makedirs(sc)
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.setpgid(0, 0)
                    os.close(r)
                    for k in kids:
                        os.close(k[1])
                    _worker(mod, prop, seed, range(w, runs, nproc), deadline, wfd, sc, known, shrink_s)
                except BaseException:
                    traceback.print_exc()
                    code = 3
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            os.close(wfd)
            kids.append((pid, r))
        outs = []
        bufs = {r: b"" for _, r in kids}
        opened = set(bufs)
        hard = deadline + shrink_s + 120
        found_at = None
        while opened and time.monotonic() < hard:
            rs, _, _ = select.select(list(opened), [], [], 1.0)
            for r in rs:
                b = os.read(r, 1 << 20)
                if not b:
                    opened.discard(r)
                    continue
                bufs[r] += b
                if len(bufs[r]) >= 4 and len(bufs[r]) - 4 >= struct.unpack("<I", bufs[r][:4])[0]:
                    o = pickle.loads(bufs[r][4:])
                    outs.append(o)
                    bufs[r] = b""
                    if o["viol"] and found_at is None:
                        found_at = time.monotonic()
            if found_at and time.monotonic() > found_at + 8:
                break
        lost = nproc - len(outs)
    finally:
        for pid, r in kids:
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
            try:
                os.waitpid(pid, 0)
            except OSError:
                pass
        shutil.rmtree(top, ignore_errors=True)
    return report(mod, prop, tier, seed, outs, lost, time.monotonic() - t0, known, found_at is not None, extra)


def report(mod, prop, tier, seed, outs, lost, wall, known, found, extra=None):
    stats, hashes, kseen = {}, set(), {}
    for o in outs:
        for k, v in o["stats"].items():
            stats[k] = stats.get(k, 0) + v
        hashes |= o["hashes"]
        for k, v in o["known"].items():
            kseen[k] = kseen.get(k, 0) + v
    n = sum(o["n"] for o in outs)
    viols = sorted((o["viol"] for o in outs if o["viol"]), key=lambda v: v["index"])
    errs = [o["err"] for o in outs if o["err"]]
    mism = [o["mism"] for o in outs if o["mism"] is not None]
    comps = getattr(mod, "COMPONENTS", {})
    if isinstance(comps, dict) and prop in comps:
        comps = comps[prop]
    assume = getattr(mod, "ASSUMPTIONS", [])
    if isinstance(assume, dict):
        assume = assume.get(prop, [])
    cov = {
        "evaluations": n,
        "distinct_nontrivial": len(hashes),
        "rule": getattr(mod, "RULES", {}).get(prop) or
        "one evaluation is one simulated run drawn from the seed; non-trivial when at least one fault or "
        "adverse event took effect; distinct by the hash of the complete operation trace (order, task, "
        "operation, path, outcome)",
        "samples": [s for o in outs for s in o["samples"]][:3],
        "runs_per_hour": round(n / wall * 3600) if wall > 0 else 0,
        "seeds_per_hour": round(n / wall * 3600) if wall > 0 else 0,
        "simulated_seconds": round(stats.get("sim_ms", 0) / 1000.0, 1),
        "faults_injected": {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault.")},
        "counters": {k: v for k, v in sorted(stats.items()) if not k.startswith("fault.")},
        "determinism_reruns": sum(o["det"] for o in outs),
        "determinism_mismatches": len(mism),
        "components": comps,
        "known_findings_seen": kseen,
    }
    if extra:
        cov.update(extra)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": list(assume), "wall_s": round(wall, 2), "violations": len(viols)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    for p, sig, match, text in known:
        if p == prop:
            print("KNOWN-FINDING: %s" % text)
    if viols:
        v = viols[0]
        path = os.path.join(VERIF, "replays", "%s-%d.json" % (prop, v["index"]))
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            json.dump({"property": prop, "module": mod.__name__.split(".")[-1], "seed": seed, "index": v["index"],
                       "plan": v["plan"], "violations": v["violations"], "hash": v["hash"],
                       "exact_rerun": v["exact"], "shrink_tries": v["shrink_tries"],
                       "trace": v["trace"], "original_plan": v["original"]}, f, indent=1)
        for x in v["violations"][:5]:
            print("  %s: %s" % (x[1], x[2]))
        print("  run %d of seed %d; replay with: ./run replay %s" % (v["index"], seed, path))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errs or (lost and not found):
        for e in errs[:2]:
            print(e)
        print("check %s did not complete: %d worker errors, %d workers lost" % (prop, len(errs), lost))
        return 2
    if mism:
        # no violation in either execution; recorded in the evidence
        print("note: two executions of run %s of %s differed" % (mism[:5], prop))
    print("%s held: %d runs, %d distinct non-trivial, %.0f s" % (prop, n, len(hashes), wall))
    return 0

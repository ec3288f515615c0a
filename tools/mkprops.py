"""Writes properties.jsonl and MANIFEST.json from the definitions below (run after editing them)."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
P = []
DL = "tools/download_sumo_datasets.py"


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=(), hook=None, note="",
         technique=None, na=None, thorough=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=list(observe), state=list(state), hook=hook, note=note, technique=technique, na=na,
                  thorough=thorough))


TECH = "deterministic simulation with fault injection: "
exec(open(os.path.join(V, "tools", "props_defs.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "state": [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                        "mechanism": [dict(name=a, where=b) for a, b in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": p["hook"]}}) + "\n")
m = {"version": 1, "setup_cmd": "./run setup",
     "checks": [{"property": p["id"], "quick_cmd": "./run check " + p["id"],
                 **({"thorough_cmd": "VERIF_TIER=thorough ./run check " + p["id"]} if p["thorough"] else {}),
                 "technique": TECH + p["technique"], "level": "exploration",
                 "level_note": p["note"]} for p in P if not p["na"]],
     "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]],
     "notes": "No hooks in /repo: every seam used (os, open, multiprocessing.Pool, requests, system calls of the "
              "extension modules, numpy.random) lies outside the code under test. Replay a failure with "
              "./run replay <replay file>; see DESIGN.md."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(m["checks"]), "checks")

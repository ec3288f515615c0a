"""Helper to record a planted bug: mkbug.py <id> <property> <spec.py>

spec.py defines EDITS = [(file, old, new), ...], NEEDS, BREAKS, DEMO (python source) and optionally COMMON
(name -> extra files).  The patch is made against /repo's HEAD in a scratch copy."""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main(bid, prop, spec):
    d = {}
    exec(open(spec).read(), d)
    out = os.path.join(V, "seeded", bid)
    os.makedirs(out, exist_ok=True)
    wt = "/tmp/mkbug-wt"
    subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", wt], capture_output=True)
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", wt, "HEAD"])
    try:
        for f, old, new in d["EDITS"]:
            p = os.path.join(wt, f)
            s = open(p, newline="").read()
            if "\r\n" in s:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if s.count(old) != 1:
                raise SystemExit("%s: %d matches for %r" % (f, s.count(old), old))
            open(p, "w", newline="").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", wt, "diff"])
    finally:
        subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", wt])
    open(os.path.join(out, "patch.diff"), "wb").write(diff)
    open(os.path.join(out, "demo.py"), "w").write(d["DEMO"].lstrip("\n"))
    with open(os.path.join(out, "demo.sh"), "w") as f:
        f.write('#!/bin/bash\n. /opt/vp/env.sh\nd="$(cd "$(dirname "$0")" && pwd)"\n'
                'export PYTHONPATH="$PWD/sumo-api:$PYTHONPATH"\n'
                'exec timeout 200 "$PY" "$d/demo.py"\n')
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]},
              open(os.path.join(out, "meta.json"), "w"), indent=1)
    print("wrote", out)


main(*sys.argv[1:4])

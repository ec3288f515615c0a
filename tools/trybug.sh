#!/bin/bash
# trybug.sh <bug id> [check ids...]: demo without/with the patch, the stable tests (TESTS=1), and checks with it.
id=$1; shift; V=$(cd "$(dirname "$0")/.." && pwd); b=$V/seeded/$id
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
bash /opt/vp/build.sh >/tmp/trybug.log 2>&1 || echo BUILD FAILS
bash $b/demo.sh >/tmp/trybug.demo0 2>&1; echo "demo, unchanged: $?"
git apply $b/patch.diff || exit 2
bash /opt/vp/build.sh >/tmp/trybug.log 2>&1 || echo BUILD FAILS WITH PATCH
bash $b/demo.sh >/tmp/trybug.demo1 2>&1; echo "demo, patched: $?"
[ -n "$TESTS" ] && bash /opt/vp/test.sh /tmp/trybug.json >/tmp/trybug.test 2>&1 && python3 - <<'E'
import json
b=json.load(open("/opt/vp/BASELINE.json")); o=json.load(open("/tmp/trybug.json"))
def names(x):
    return set(x if isinstance(x,list) else x.keys())
st=b.get("stable") or b.get("stable_pass") or b.get("passed") or b.get("pass")
pa=o.get("passed") or o.get("pass")
print("stable tests failing:", sorted(names(st)-names(pa))[:5])
E
cd $V
for c in "${@:-$(python3 -c "import json;print(json.load(open('$b/meta.json'))['property'])")}"; do
  ./run check $c >/tmp/trybug.$c 2>&1; echo "check $c: $?  $(grep -c VIOLATION /tmp/trybug.$c) violation line(s): $(grep -v '^VIOL' /tmp/trybug.$c | head -2 | cut -c1-220 | tr '\n' '|')"
done
git -C /repo checkout -- .

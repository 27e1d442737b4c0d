#!/bin/bash
# tools/seed.sh ID [CHECK...]: validates seeded/ID against /repo (demo passes without, fails with the patch;
# builds, stable tests pass) and tells which of the given checks (default: its property) report it. Leaves /repo as it was.
ID=$1; shift
D=/verif/seeded/$ID
PROP=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
CHECKS=${*:-$PROP}
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
T=$(mktemp -d /tmp/seed.XXXXXX)
trap 'git -C /repo checkout -q -- . ; rm -rf "$T"' EXIT
cp -r "$D" "$T/d"; rm -f "$T"/d/*.diff "$T"/d/meta.json
(cd /repo && bash "$T/d/demo.sh" >"$T/clean.log" 2>&1) || { echo "$ID: DEMO FAILS ON CLEAN TREE"; tail -20 "$T/clean.log"; exit 1; }
git -C /repo checkout -q -- .
git -C /repo apply "$D/patch.diff" || { echo "$ID: patch does not apply"; exit 1; }
bash /opt/vp/build.sh >"$T/build.log" 2>&1 || { echo "$ID: does not build"; tail "$T/build.log"; exit 1; }
bash /opt/vp/test.sh "$T/out.json" >"$T/test.log" 2>&1
python3 - "$T/out.json" <<'P' || exit 1
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def ids(x):
    for k in ('stable','passed','pass','tests'):
        if k in x: return set(map(str,x[k]))
    return set()
want,got=ids(b),ids(o)
if not want: print("keys",list(b),list(o))
if want-got: print("STABLE TESTS FAIL:",want-got); sys.exit(1)
P
(cd /repo && bash "$T/d/demo.sh" >"$T/bug.log" 2>&1) && { echo "$ID: DEMO PASSES WITH THE BUG"; exit 1; }
[ -n "$SHOW" ] && tail -15 "$T/bug.log"
for c in $CHECKS; do
  (cd /verif && python3 check.py "$c" quick >"$T/$c.log" 2>&1); rc=$?
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$c " "$T/$c.log"; then echo "$ID: caught by $c: $(grep -m1 '^VIOLATION' "$T/$c.log")"; else echo "$ID: MISSED by $c (rc=$rc)"; fi
done
git -C /repo diff -U0 | head -0

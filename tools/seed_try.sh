#!/bin/bash
# seed_try.sh <id> [property...]: with the planted bug applied to /repo: build, stable tests, demo, the checks named
# (default: its own property); then undone, and the demo again. Leaves /repo as it was.
id=$1; shift
d=/verif/seeded/$id
props=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
t=$(mktemp -d); trap 'git -C /repo checkout -q -- .; rm -rf "$t"' EXIT
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
cd /repo && git apply "$d/patch.diff" || { echo "$id: does not apply"; exit 2; }
if [ -z "$NOTEST" ]; then
bash /opt/vp/build.sh >"$t/b" 2>&1 || { echo "$id: does not build"; tail -5 "$t/b"; exit 1; }
bash /opt/vp/test.sh "$t/o.json" >"$t/t" 2>&1
python3 - "$t/o.json" "$id" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def names(x):
    for k in ('stable','passed','pass','stable_tests'):
        if k in x: return set(x[k])
    raise SystemExit(list(x))
m=names(b)-names(o)
print(sys.argv[2],'tests:','pass' if not m else 'FAIL %s'%sorted(m)[:3])
P
fi
if [ -z "$NODEMO" ]; then bash "$d/demo.sh" >"$t/d" 2>&1; echo "$id demo with the bug: rc=$? $(grep -m1 broken "$t/d" | cut -c1-150)"; fi
for p in $props; do
  SIM_ROOT=$t; export SIM_ROOT; mkdir -p $t/evidence $t/replays; cp /verif/known-findings.json $t/
  s=$(date +%s.%N); bash /verif/check.sh $p >"$t/c" 2>&1; rc=$?
  echo "$id check $p rc=$rc $(grep -m1 'violation class' "$t/c") | $(grep -m1 ' runs, ' "$t/c")"
done
git -C /repo checkout -q -- .
if [ -z "$NODEMO" ]; then bash "$d/demo.sh" >"$t/d" 2>&1; echo "$id demo clean: rc=$? $(tail -1 "$t/d")"; fi

#!/bin/bash
# tools/plant.sh ID [notest|nocheck] : verifies a seeded bug in /repo itself and undoes it.
#  1. demo passes on the unchanged tree   2. patch applies, builds, demo fails
#  3. the stable tests pass               4. the property's quick check reports it
id=$1; mode=$2; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
. /opt/vp/env.sh 2>/dev/null
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 1; }
w=$(mktemp -d /tmp/plant.XXXXXX); cp -r "$d/." "$w/"; mv "$w/patch.diff" "$w/.p"; mv "$w/meta.json" "$w/.m"
trap 'git -C /repo checkout -q -- . ; bash /opt/vp/build_ext.sh >/dev/null 2>&1; rm -rf "$w"' EXIT
bash /opt/vp/build_ext.sh >/dev/null 2>&1
timeout 300 bash "$w/demo.sh" >"$w/out0" 2>&1; r0=$?
git apply "$d/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
bash /opt/vp/build.sh >"$w/b" 2>&1 || { echo "$id: does not build"; tail -5 "$w/b"; exit 1; }
timeout 300 bash "$w/demo.sh" >"$w/out1" 2>&1; r1=$?
echo "$id: demo unchanged=$r0 patched=$r1"
[ $r0 -ne 0 ] && tail -5 "$w/out0"; [ $r1 -eq 0 ] && tail -5 "$w/out1"
if [ "$mode" != notest ]; then
  bash /opt/vp/test.sh "$w/t.json" >/dev/null 2>&1
  python3 - "$w/t.json" "$id" <<'P'
import json, sys
b = json.load(open('/opt/vp/BASELINE.json')); t = json.load(open(sys.argv[1]))
def passed(x):
    for k in ("passed", "pass", "stable", "stable_pass"):
        if k in x: return set(x[k])
    raise SystemExit(str({k: type(v).__name__ for k, v in x.items()}))
lost = passed(b) - passed(t)
print(f"{sys.argv[2]}: tests", "ok" if not lost else f"LOST {len(lost)} {sorted(lost)[:4]}")
P
fi
if [ "$mode" != nocheck ]; then
  cd /verif; s=$(date +%s)
  VERIF_SEED=1 timeout 900 bin/check "$prop" quick >"$w/c" 2>&1; rc=$?
  echo "$id: check $prop rc=$rc $(grep -m1 ^VIOLATION "$w/c" | cut -c1-120) ($(( $(date +%s) - s )) s)"
  [ $rc -eq 0 ] || [ $rc -eq 1 ] || tail -5 "$w/c"
fi

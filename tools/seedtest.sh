#!/bin/bash
# Confirms planted bugs in a scratch copy of /repo: applies, builds, passes the stable
# tests, demo passes without and fails with it. Then runs the property's check on /repo
# with the bug applied. Usage: seedtest.sh [-n] ID...   (-n: skip the check)
check=1; [ "$1" = -n ] && { check=0; shift; }
cd /verif || exit 2
export RUST_BACKTRACE=0
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  msg=""
  git -C /repo diff --quiet || { echo "/repo is dirty"; exit 2; }
  if [ -z "$NODEMO" ]; then
    (cd /repo && bash "$d/demo.sh" >/tmp/demo.0 2>&1) || msg="$msg DEMO-FAILS-CLEAN"
  fi
  git -C /repo apply "$d/patch.diff" || { echo "$id DOES NOT APPLY"; continue; }
  if [ -z "$NODEMO" ]; then
    bash /opt/vp/build.sh >/tmp/build.log 2>&1 || msg="$msg NO-BUILD"
    bash /opt/vp/test.sh /tmp/seed.json >/tmp/test.log 2>&1
    python3 - <<'PY' || msg="$msg TESTS-FAIL"
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed.json'))
def s(x):
    for k in ('stable','passed','pass','tests','reliable'):
        if k in x: return set(x[k])
    raise SystemExit(str(list(x)))
m=s(b)-s(o)
if m: print(m); sys.exit(1)
PY
    (cd /repo && bash "$d/demo.sh" >/tmp/demo.1 2>&1) && msg="$msg DEMO-PASSES-PATCHED"
  fi
  if [ $check = 1 ]; then
    s=$SECONDS
    for p in ${CHECKS:-$prop}; do
      VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check.sh "$p" >/tmp/seedcheck.$id.$p 2>&1; rc=$?
      v=$(grep -c "^VIOLATION property=$p" /tmp/seedcheck.$id.$p)
      if [ $rc = 1 ] && [ "$v" -gt 0 ]; then msg="$msg caught:$p"; else msg="$msg MISSED:$p(rc=$rc)"; fi
    done
    msg="$msg $((SECONDS-s))s"
  fi
  git -C /repo checkout -q -- .
  echo "$id [$prop]$msg"
done

#!/bin/bash
# seed.sh ID...: confirm planted bugs in scratch copies of /repo (demo quiet before, patch applies, stable tests
# pass, demo fails after) and run the property's quick check on the copy.  NOTEST=1 skips the test suite.
root=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  d=$root/seeded/$id; w=$(mktemp -d /tmp/seed-XXXXXX)
  git -C /repo archive HEAD | tar -x -C "$w"
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cp -r "$d" "$w/../demo-$(basename "$w")"; dd=/tmp/demo-$(basename "$w")
  ( cd "$w" && bash "$dd/demo.sh" >"$w/d0.log" 2>&1 ); r0=$?
  ( cd "$w" && git init -q . >/dev/null && git apply "$d/patch.diff" ) || echo "$id PATCH FAILS"
  ( cd "$w" && bash "$dd/demo.sh" >"$w/d1.log" 2>&1 ); r1=$?
  t=skipped
  if [ -z "$NOTEST" ]; then
    ( cd "$w" && . /opt/vp/env.sh && /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 8 --timeout=300 \
      --continue-on-collection-errors -o junit_family=xunit2 --junitxml="$w/junit.xml" \
      -o python_files='test_*.py *_test.py *_test_*.py' coax >"$w/t.log" 2>&1 )
    /usr/bin/python3 /opt/vp/results.py "$w/res.json" "junit:$w/junit.xml" >/dev/null 2>&1
    t=$(python3 - "$w/res.json" <<'P'
import json, sys
o = json.load(open(sys.argv[1])); b = json.load(open('/opt/vp/BASELINE.json'))
b = b.get('stable') or b.get('passed') or b.get('tests') or b
p = set(o['passed']); print('tests-ok' if not set(b) - p else 'TESTS-BROKEN %s' % sorted(set(b) - p)[:3])
P
)
  fi
  for p in $prop $ALSO; do
    VERIF_REPO=$w bash "$root/check.sh" "$p" quick >"$w/c.log" 2>&1; rc=$?
    echo "$id demo0=$r0 demo1=$r1 $t check=$p rc=$rc $(grep -m1 -o 'VIOLATION.*' "$w/c.log" | cut -c1-150) $(grep -m1 -A1 VIOLATION "$w/c.log" | tail -1 | cut -c1-160)"
  done
  [ $r0 -ne 0 ] && tail -3 "$w/d0.log"
  [ $r1 -eq 0 ] && tail -3 "$w/d1.log"
  case $w in /tmp/seed-*) rm -rf "$w" "$dd";; esac
done

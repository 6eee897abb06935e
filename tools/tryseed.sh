#!/bin/bash
# tools/tryseed.sh <id>...: confirms planted bugs (demo passes/fails, tests pass) and runs the check of their property
cd /verif
[ -n "$(git -C /repo status --short)" ] && { echo "/repo not clean"; exit 1; }
for id in "$@"; do
  d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1
  (cd /repo && timeout 300 bash $d/demo.sh >/tmp/seed_demo0.log 2>&1); r0=$?
  git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1; rb=$?
  (cd /repo && timeout 300 bash $d/demo.sh >/tmp/seed_demo1.log 2>&1); r1=$?
  if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh /tmp/seed_tests.json >/dev/null 2>&1
  tests=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed_tests.json'))
base=set(b.get('stable', b.get('passed', b.get('tests', []))))
print(len(base-set(r['passed'])), sorted(base-set(r['passed']))[:3])
P
); else tests=skipped; fi
  if [ -z "$NOCHECK" ]; then timeout 900 python3 checks/run.py $prop > /tmp/seed_check.log 2>&1; rc=$?; fi
  git -C /repo checkout -- .
  echo "$id $prop: demo clean=$r0 patched=$r1 build=$rb failing-tests=$tests check=$rc $(grep -c . /tmp/seed_check.log)"
  [ "$rc" = 1 ] && grep -v VIOLATION /tmp/seed_check.log | head -3 | cut -c1-200
done
bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1

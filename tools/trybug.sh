#!/bin/bash
# Development aid: tries planted bugs (ids under /verif/seeded) against tests, demonstration and check.
# usage: trybug.sh [-n] id...   (-n: skip the repository's tests)
notest=0; [ "$1" = -n ] && { notest=1; shift; }
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 1; }
for id in "$@"; do
  dir=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$dir/meta.json'))['property'])")
  git -C /repo apply "$dir/patch.diff" || { echo "$id: does not apply"; continue; }
  bash /opt/vp/build.sh >/dev/null 2>&1 || echo "$id: does not build"
  if [ $notest = 0 ]; then
    bash /opt/vp/test.sh /tmp/trybug.json >/dev/null 2>&1
    python3 - <<P
import json
d=json.load(open('/tmp/trybug.json')); print("$id: tests passed", len(d['passed']), "failed", d.get('failed'))
P
  fi
  (cd /repo && timeout 300 bash "$dir/demo.sh" >/tmp/trybug.demo 2>&1); echo "$id: demo with bug: $?"
  (cd /verif && timeout 900 python3 run_check.py "$prop" >/tmp/trybug.check 2>&1); echo "$id: check $prop: $? $(tail -2 /tmp/trybug.check | head -c 600)"
  git -C /repo checkout -q -- .
  bash /opt/vp/build.sh >/dev/null 2>&1
  (cd /repo && timeout 300 bash "$dir/demo.sh" >/tmp/trybug.demo 2>&1); echo "$id: demo unchanged: $?"
done

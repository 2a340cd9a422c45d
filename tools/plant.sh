#!/bin/bash
# plant.sh ID: validates /verif/seeded/ID in a scratch copy: the patch applies
# to HEAD, builds, the stable tests pass, the demo passes without and fails with it.
set -u
ID=$1; D=/verif/seeded/$ID; W=/tmp/plant.$ID
rm -rf "$W"; mkdir -p "$W"
git -C /repo diff --quiet || { echo "repo not clean"; exit 1; }
mkdir "$W/demo"; cp -a "$D"/. "$W/demo"; rm -f "$W"/demo/*.diff "$W"/demo/meta.json
bash /opt/vp/build.sh > "$W/build0.log" 2>&1
( cd /repo && timeout 300 bash "$W/demo/demo.sh" > "$W/demo.clean.log" 2>&1 ); clean=$?
git -C /repo apply "$D/patch.diff" || { echo "patch does not apply"; exit 1; }
bash /opt/vp/build.sh > "$W/build.log" 2>&1; b=$?
bash /opt/vp/test.sh "$W/t.json" > "$W/test.log" 2>&1
miss=$(python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=json.load(open('$W/t.json'))
print(len(b-set(t.get('passed',[]))))")
( cd /repo && timeout 300 bash "$W/demo/demo.sh" > "$W/demo.bug.log" 2>&1 ); bug=$?
echo "$ID: build=$b missing_tests=$miss demo_clean=$clean demo_bug=$bug"
if [ -n "${2:-}" ]; then
  for c in ${2//,/ }; do timeout 900 python3 /verif/check.py $c --tier quick > "$W/check.$c.log" 2>&1; echo "   $c exit=$? $(grep -c ^VIOLATION "$W/check.$c.log") $(grep -B1 ^VIOLATION "$W/check.$c.log" | head -1 | cut -c1-200)"; done
fi
git -C /repo apply -R "$D/patch.diff"; git -C /repo status --short
[ $clean = 0 ] && [ $bug != 0 ] && [ $b = 0 ] && [ $miss = 0 ] && rm -rf "/tmp/plant.$ID" || tail -n5 "$W/demo.clean.log" "$W/demo.bug.log"

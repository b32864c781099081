#!/bin/bash
# tools/try.sh ID [nocheck]   applies seeded/ID/patch.diff to /repo, builds, tests, runs the demo and the property's check, and undoes it
cd "$(dirname "$0")/.." || exit 2
id=$1; d=$PWD/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
(cd /repo && timeout 300 bash "$d/demo.sh" >/tmp/demo0.out 2>&1); echo "$id: demo on the clean tree: $?"
git -C /repo apply "$d/patch.diff" || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/tmp/try.build 2>&1 || echo "$id: BUILD FAILED"
timeout 300 bash /opt/vp/test.sh /tmp/o.json >/tmp/try.t 2>&1
python3 -c "
import json;o=json.load(open('/tmp/o.json'));b=json.load(open('/opt/vp/BASELINE.json'))['stable']
m=[x for x in b if x not in o['passed']]; print('$id: tests', 'PASS' if not m else 'FAIL %s' % m[:3])"
(cd /repo && timeout 300 bash "$d/demo.sh" >/tmp/demo1.out 2>&1); echo "$id: demo with the patch: $?: $(tail -1 /tmp/demo1.out | cut -c1-150)"
[ "$2" = nocheck ] || { ./check "$prop" > /tmp/try.chk 2>&1; echo "$id: check $prop: $? $(grep -v KNOWN /tmp/try.chk | grep -e VIOLATION -e '^config' | head -2 | cut -c1-200 | tr '\n' ' ')"; }

#!/bin/bash
# tryseed.sh ID... : demo on the clean tree, then with the patch (builds, tests), and the check of its property
cd /repo || exit 1
bash /opt/vp/build.sh >/dev/null 2>&1
for id in "$@"; do
  s=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  bash $s/demo.sh >/tmp/ts.out 2>&1; clean=$?
  git -C /repo apply $s/patch.diff || { echo "$id: does not apply"; continue; }
  bash /opt/vp/test.sh /tmp/ts.json >/tmp/ts.log 2>&1
  t=$(python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json')).get('passed') or json.load(open('/opt/vp/BASELINE.json')).get('stable') or [])
r=set(json.load(open('/tmp/ts.json'))['passed'])
print(len(r), 'missing', sorted(b-r))")
  bash $s/demo.sh >/tmp/ts.out2 2>&1; bug=$?
  (cd /verif && VERIF_TIER=quick python3 check.py $prop quick >/tmp/ts.chk 2>&1); chk=$?
  git -C /repo checkout -- .
  echo "$id [$prop]: demo clean=$clean bug=$bug tests=$t check=$chk $(grep -m1 VIOLATION /tmp/ts.chk)"
  [ $chk = 1 ] || tail -3 /tmp/ts.chk
  [ $clean = 0 ] || tail -5 /tmp/ts.out
done
bash /opt/vp/build.sh >/dev/null 2>&1
git -C /repo status --short

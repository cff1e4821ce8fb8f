#!/bin/bash
# seedtest.sh ID... : confirm planted changes (build, stable tests, demo) and say whether the property's check catches them
cd /repo || exit 2
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  if bash /opt/vp/build.sh >/tmp/st_build.log 2>&1; then b=ok; else b=FAIL; fi
  timeout 300 bash $d/demo.sh >/tmp/st_demo1.log 2>&1; r1=$?
  t=skipped
  if [ -z "$NOTEST" ]; then
    bash /opt/vp/test.sh /tmp/st_o.json >/tmp/st_test.log 2>&1
    t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=json.load(open('/tmp/st_o.json'))['passed']
m=[x for x in b if x not in o];print('ok' if not m else 'FAIL %s'%m[:4])")
  fi
  c=skipped
  if [ -z "$NOCHECK" ]; then ( cd /verif; python3 vp/run.py $p >/tmp/st_check_$id.log 2>&1 ); c=$?; fi
  git checkout -q -- . ; bash /opt/vp/build.sh >/dev/null 2>&1
  timeout 300 bash $d/demo.sh >/tmp/st_demo0.log 2>&1; r0=$?
  echo "$id $p build=$b tests=$t demo_patched=$r1 demo_clean=$r0 check=$c $(grep -m1 VIOLATION /tmp/st_check_$id.log 2>/dev/null)"
done

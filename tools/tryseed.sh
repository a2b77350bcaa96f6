#!/bin/bash
# tryseed.sh ID...: demo on clean and patched tree, the property's check, and the test suite
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd /repo
  bash $d/demo.sh >/tmp/demo.out 2>&1; c=$?
  git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash $d/demo.sh >/tmp/demo.out 2>&1; p=$?
  (cd /verif && timeout 900 /opt/venv/bin/python check.py $prop >/tmp/seedcheck.out 2>&1); k=$?
  t=skipped
  if [ -z "$NOTEST" ]; then
    bash /opt/vp/test.sh /tmp/seedtest.json >/tmp/seedtest.log 2>&1
    t=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seedtest.json'))
def passing(x):
    if 'tests' in x: x=x['tests']
    if 'passed' in x: return set(x['passed'])
    return {k for k,v in x.items() if v in('passed','pass',True) or (isinstance(v,dict) and v.get('outcome')=='passed')}
m=set(b['stable'])-set(r['passed'])
print('missing',len(m),sorted(m)[:4])
P
)
  fi
  git -C /repo checkout -- .
  echo "$id $prop: demo clean=$c patched=$p; check exit=$k ($(grep -m1 VIOLATION /tmp/seedcheck.out)); tests: $t"
done

#!/bin/bash
# seedtest.sh NAME...: apply each planted bug to /repo, run the stable tests and its check, undo
V=$(cd "$(dirname "$0")/.." && pwd)
for n in "$@"; do
  d=$V/seeded/$n
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply "$d/patch.diff" || { echo "$n: patch does not apply"; continue; }
  if [ -z "$NOTESTS" ]; then
  bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1 || echo "$n: BUILD FAILS"
  bash /opt/vp/test.sh /tmp/seed_out.json >/dev/null 2>&1
  t=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=open('/tmp/seed_out.json').read();o=json.loads(o)
p=o.get('passed',o);print('tests ok' if all(x in p for x in b) else 'TESTS FAIL')")
  fi
  s=$(date +%s)
  (cd $V && python3-vt engine/check.py $p --tier quick > /tmp/seed_$n.log 2>&1); rc=$?
  e=$(date +%s)
  git -C /repo checkout -- .
  echo "$n $p rc=$rc $t $((e-s))s $(grep -c VIOLATION /tmp/seed_$n.log)"
  python3 - "$V" "$n" "$p" "$rc" <<'P'
import json,sys,os
v,n,p,rc=sys.argv[1:]
f=v+"/seeded_results.json"; r=json.load(open(f)) if os.path.exists(f) else {}
r[n]="caught by %s"%p if rc=="1" else "missed by %s (exit %s)"%(p,rc)
json.dump(r,open(f,"w"),indent=1,sort_keys=True)
P
done

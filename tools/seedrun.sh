#!/bin/bash
# seedrun.sh [id...]: apply each planted bug to /repo, run its property's quick check, undo; records tools/catch.json
cd /verif
for s in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s does not apply"; continue; }
  timeout 900 python3 check.py $p quick > /tmp/seedrun.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  k=$(grep -m1 '  key=' /tmp/seedrun.log | sed 's/^  key=//; s/ .*//')
  echo "$s $p rc=$rc $k"
  python3 - "$s" "$p" "$rc" "$k" <<'P'
import json,sys
f='/verif/tools/catch.json'
try: d=json.load(open(f))
except OSError: d={}
s,p,rc,k=sys.argv[1:5]
d[s]=("%s: `%s`"%(p,k)) if rc=="1" else "MISSED (exit %s)"%rc
json.dump(d,open(f,'w'),indent=1,sort_keys=True)
P
done

#!/bin/bash
# seedcheck.sh [ID...]: runs the check of each planted bug's property against it; records who catches it
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: patch does not apply"; continue; }
  bash run.sh $p quick > /tmp/sc.$d.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  v=$(grep -c "^VIOLATION property=$p" /tmp/sc.$d.out)
  echo "$d $p rc=$rc violations=$v"
  python3 - "$d" "$p" $rc $v <<'P'
import json,sys,os
f="/verif/tools/seed_results.json"; r=json.load(open(f)) if os.path.exists(f) else {}
d,p,rc,v=sys.argv[1:]
r[d]=p if rc=="1" and int(v)>0 else "missed (exit %s)"%rc
json.dump(r,open(f,"w"),indent=1,sort_keys=True)
P
done

#!/bin/bash
# tools/seedrun.sh [ID...]: applies each planted bug to /repo, runs its property's quick check, undoes it; updates tools/seed_results.json
cd "$(dirname "$0")/.." || exit 2
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$d/patch.diff" || { echo "$d does not apply"; continue; }
  ./check $p --tier quick >/tmp/seedrun.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  k=$(grep -A1 ^VIOLATION /tmp/seedrun.out | grep -o 'section=[^ ]* key=[^ ]*' | head -1)
  echo "$d $p rc=$rc $k"
  python3 - "$d" "$rc" "$k" <<'P'
import json,sys,os
f='tools/seed_results.json'
r=json.load(open(f)) if os.path.exists(f) else {}
d,rc,k=sys.argv[1:4]
r[d]=("yes ("+k+")") if rc=='1' else "NO (rc %s)"%rc
json.dump(r,open(f,'w'),indent=1,sort_keys=True)
P
done

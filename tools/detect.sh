#!/bin/bash
# detect.sh [bug...] : run the check of each seeded bug's property against a scratch copy with the bug applied
V=$(cd "$(dirname "$0")/.." && pwd); D=/tmp/bug/det
cd "$V" || exit 1
for b in ${@:-$(ls seeded)}; do
  mkdir -p $D; git -C /repo archive HEAD | tar x -m -C $D
  (cd $D && patch -sp1 < "$V/seeded/$b/patch.diff") || { echo "$b: patch failed"; continue; }
  p=${PROP:-$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")}
  s=$(date +%s)
  VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick ICBD_REPO=$D python3-vt checks/check.py $p > /tmp/bug/out.$b 2>&1; rc=$?
  python3 - "$b" "$p" $rc <<'P'
import json, os, sys
f = "tools/bugs/results.json"; d = json.load(open(f)) if os.path.exists(f) else {}
b, p, rc = sys.argv[1:]
have = set(x for x in d.get(b, "").split(", ") if x and x != "missed")
have = have | {p} if rc == "1" else have - {p}
d[b] = ", ".join(sorted(have)) or "missed"
json.dump(d, open(f, "w"), indent=1, sort_keys=True)
P
  echo "$b $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 VIOLATION /tmp/bug/out.$b)"
done

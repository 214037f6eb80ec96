#!/bin/bash
# seedtest.sh ID...: applies each planted bug to /repo, runs its property's quick check, undoes it.
for id in "$@"; do
    p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
    git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
    s=$(date +%s)
    out=$(cd /verif && timeout 900 python3 tools/vcheck.py $p 2>&1); rc=$?
    git -C /repo checkout -- .
    echo "$id $p rc=$rc $(( $(date +%s) - s ))s: $(echo "$out" | grep -m1 VIOLATION)"
done

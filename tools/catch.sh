#!/bin/bash
# catch.sh <id>... : applies each seeded bug to /repo, runs its property's check, undoes it.
for id in "$@"; do
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$id/patch.diff || continue
t=$(date +%s)
out=$(VERIF_SEED=1 VERIF_TIER=quick bash /verif/check.sh $p 2>&1); rc=$?
git -C /repo checkout -q -- .
echo "$id $p rc=$rc $(( $(date +%s)-t ))s $(echo "$out" | grep -m1 VIOLATION)"
[ $rc = 1 ] || echo "$out" | tail -5
done

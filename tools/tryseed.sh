#!/bin/bash
# tryseed.sh SEED...: runs each seed's check against it (applies the patch to /repo and undoes it)
#    (run it as tools/scratch.sh tools/tryseed.sh SEED.. to leave /repo alone)
for s; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
  git -C /repo diff --quiet || exit 9
  git -C /repo apply /verif/seeded/$s/patch.diff || exit 9
  (cd /verif && timeout 900 ./check.py $p > /tmp/try.$s 2>&1; echo "$s rc=$? $(grep -c . /tmp/try.$s) $(grep VIOLATION /tmp/try.$s)"; grep '^failed obl\|^not decided' /tmp/try.$s | cut -c1-240)
  git -C /repo checkout -- .
done

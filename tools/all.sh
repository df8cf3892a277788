#!/bin/bash
# all.sh [PROP...]: runs the quick checks one after the other, with one line each
cd /verif
for p in ${@:-$(python3 -c "import plan;print(*sorted(plan.PROPS))")}; do
  s=$SECONDS; VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check.py $p > /tmp/all.$p 2>&1; echo "$p rc=$? $((SECONDS-s))s $(tail -1 /tmp/all.$p | cut -c1-150) $(grep -c '^not decided' /tmp/all.$p)"
done

#!/bin/bash
# development aid: every seeded change (or those named) against its property's check (or all checks with ALL=1), in a scratch copy
S=/tmp/seedrepo
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C $S checkout -q -- . ; git -C $S apply /verif/seeded/$d/patch.diff || { echo "$d PATCH"; continue; }
  for c in ${CHECKS:-$p}; do
    t=$(date +%s)
    out=$(VERIF_REPO=$S python3 check.py $c 2>&1); rc=$?
    echo "$d $c rc=$rc $(( $(date +%s)-t ))s $(echo "$out" | grep '^  - ' | head -2 | cut -c1-300)"
  done
  git -C $S checkout -q -- .
done

#!/bin/bash
# sweep.sh CHECKS SEEDS: runs checks with other seeds, prints those that are not quiet
cd "$(dirname "$0")/.."
for s in $2; do for c in $1; do
  o=$(VERIF_SEED=$s VERIF_TIER=quick timeout 900 python3-vt checks/$c.py 2>&1); r=$?
  if [ $r -ne 0 ]; then echo "== $c seed $s rc $r"; echo "$o" | grep -v "^$" | tail -4 | cut -c1-600; else echo "ok $c $s $(echo "$o" | tail -1 | cut -c1-100)"; fi
done; done

#!/bin/bash
# run every claimed check once (VERIF_SEED, default 1) and print what is not quiet
cd "$(dirname "$0")/.."
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick
for p in $(python3 -c "import json;print(*[c['property_id'] if 'property_id' in c else c['property'] for c in json.load(open('MANIFEST.json'))['checks']])"); do
  s=$(date +%s); out=$(python3 check.py $p ${1:-quick} 2>&1); r=$?
  echo "$p exit $r $(( $(date +%s) - s )) s $(echo "$out" | grep -c KNOWN-FINDING) known"
  [ $r != 0 ] && echo "$out" | grep -v "^    #" | cut -c1-300 | tail -8
done

#!/bin/bash
# seedcheck.sh ID...: run the quick check of the property of each planted bug against it
here="$(cd "$(dirname "$0")/.." && pwd)"
for id in "$@"; do
  p=$(python3 -c "import json,sys;print(json.load(open('$here/seeded/$id/meta.json'))['property'])")
  t0=$(date +%s)
  out=$(VERIF_SEED=1 VERIF_TIER=quick "$here/tools/with_patch.sh" "$here/seeded/$id/patch.diff" "$here/bin/check" $p 2>&1)
  rc=$?
  echo "$id $p rc=$rc $(( $(date +%s) - t0 ))s $(echo "$out" | grep -m1 -E 'VIOLATION|INCONCL' | cut -c1-150)"
done

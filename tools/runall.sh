#!/bin/bash
# runall.sh [ID...]: quick check of every property (VERIF_TIER=thorough for the deep ones)
here="$(cd "$(dirname "$0")/.." && pwd)"
[ $# -gt 0 ] || set -- $(python3 -c "import json;print(*[c['property'] for c in json.load(open('$here/MANIFEST.json'))['checks']])")
for p in "$@"; do
  t0=$(date +%s)
  out=$("$here/bin/check" $p 2>&1); rc=$?
  echo "$p rc=$rc $(( $(date +%s) - t0 ))s $(echo "$out" | grep -E 'HOLDS|VIOLATED|VIOLATION|INCONCL' | tail -1 | cut -c1-220)"
done

#!/bin/bash
# run every claimed check (quick) sequentially and print one line each
cd "$(dirname "$0")/.."
for p in ${@:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}; do
  s=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt check.py $p quick > /tmp/all_$p.log 2>&1; r=$?; e=$(date +%s)
  echo "$p rc=$r $((e-s))s $(grep -c UNDECIDED /tmp/all_$p.log) undecided; $(tail -1 /tmp/all_$p.log | cut -c1-150)"
done

#!/bin/bash
# run every registered check once: run_all.sh [ids...]
cd "$(dirname "$0")"
ids=${@:-$(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))")}
for i in $ids; do
  python3-vt engine/check.py $i > /tmp/w/chk_$i.log 2>&1; rc=$?
  echo "$i rc=$rc $(tail -1 /tmp/w/chk_$i.log)"
done

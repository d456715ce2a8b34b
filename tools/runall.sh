#!/bin/bash
# runs every registered check, prints one line per property
cd "$(dirname "$0")/.."
for p in ${@:-$(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))")}; do
  s=$(date +%s); o=$(python3 -m vg.check --property $p 2>&1); r=$?
  echo "$p exit=$r $(( $(date +%s)-s ))s $(echo "$o" | tail -1 | cut -c1-200)"
done

#!/bin/bash
cd /verif
IDS="$@"
[ -z "$IDS" ] && IDS=$(python3 -c "import json;print(' '.join(c['property'] if 'property' in c else c['id'] for c in json.load(open('MANIFEST.json'))['checks']))")
for p in $IDS; do ( timeout 900 python3 sa/check.py $p > /tmp/out.$p 2>&1; echo "$p rc=$? $(tail -1 /tmp/out.$p)" ) & done; wait

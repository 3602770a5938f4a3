#!/bin/bash
# all.sh [ids]: every check, 7 at a time
cd /verif
ids=${@:-$(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))")}
printf '%s\n' $ids | xargs -P 7 -I{} bash -c 's=$(date +%s); VERIF_TIER=quick python3-vt check.py {} > /tmp/{}.log 2>&1; rc=$?; echo "{} rc=$rc $(($(date +%s)-s))s $(tail -1 /tmp/{}.log)"' | sort

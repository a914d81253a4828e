#!/bin/bash
# every claimed check once (tier $1), in parallel
cd "$(dirname "$0")/.."
python3 - <<'P' | xargs -P 4 -I{} sh -c "python3 check.py {} ${1:-quick} 2>&1 | tail -1 | cut -c1-200"
import json
for c in json.load(open('MANIFEST.json'))['checks']: print(c['property'])
P

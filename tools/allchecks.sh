#!/bin/bash
# Runs the quick check of every property (or those named), four at a time; prints what is not quiet.
cd "$(dirname "$0")/.."
ids=${*:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}
printf '%s\n' $ids | xargs -P 3 -I{} sh -c 'VERIF_SEED=${VERIF_SEED:-1} timeout 900 python3 checks/run.py {} >/tmp/ac-{}.log 2>&1; rc=$?; [ $rc = 0 ] || { echo "{} rc=$rc"; tail -3 /tmp/ac-{}.log | cut -c1-300; }; tail -1 /tmp/ac-{}.log'

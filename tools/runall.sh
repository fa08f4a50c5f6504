#!/bin/bash
# tools/runall.sh [IDs...]: quick run of every check, one line each, details under ${LOGDIR:-/tmp/w}
D=${LOGDIR:-/tmp/w}; mkdir -p $D; cd "$(dirname "$0")/.."
ids="$@"; [ -z "$ids" ] && ids=$(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))")
for p in $ids; do timeout 900 python3 check.py $p -v > $D/$p.log 2>&1; echo "rc=$? $(grep -a "^$p:" $D/$p.log | tail -1 | cut -c1-200)"; grep -aE "^  |^KNOWN" $D/$p.log | cut -c1-${W:-400} | head -${H:-20}; done

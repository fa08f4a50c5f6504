#!/bin/bash
# tools/q.sh IDs: verbose quick runs, summary with findings and undecided obligations
cd "$(dirname "$0")/.."; mkdir -p /tmp/w
for p in "$@"; do timeout 900 python3 check.py $p -v > /tmp/w/$p.log 2>&1; grep -a "^$p" /tmp/w/$p.log || tail -3 /tmp/w/$p.log; grep -aE "^  " /tmp/w/$p.log | cut -c1-${W:-300} | head -${H:-8}; grep -a "^undec" /tmp/w/$p.log | cut -c1-${U:-200} | head -12;  grep -a "^note" /tmp/w/$p.log | cut -c1-200 | head -12; done

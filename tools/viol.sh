#!/bin/bash
# unique violations of a check, shortened: tools/viol.sh Cxx [match]
cd "$(dirname "$0")/.."
timeout -k 5 ${T:-800} /opt/venv/bin/python tools/one.py $1 500 $2 > /tmp/viol.$1 2>&1
grep -c " ex=" /tmp/viol.$1; grep VIOL /tmp/viol.$1 | cut -c1-${W:-330} | awk '{k=$2; if (n[k]++<'${N:-2}') print}' | head -${M:-12}; tail -1 /tmp/viol.$1 | cut -c1-200

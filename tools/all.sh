#!/bin/bash
# Run all checks of a tier (default quick), one after another; log to stdout.
cd "$(dirname "$0")/.."
tier=${1:-quick}; shift
for i in ${@:-$(seq -f 'C%02g' 1 99)}; do
    [ -e mc/props/$i.py ] || continue
    python3 check.py $i --tier $tier >/tmp/check_$$.log 2>&1
    rc=$?
    echo "rc=$rc $(tail -1 /tmp/check_$$.log)"
    [ $rc = 0 ] || grep -A3 VIOLATION /tmp/check_$$.log
done
rm -f /tmp/check_$$.log

#!/bin/bash
# all checks, one after another: ./runall.sh [quick|thorough] [ID...]
cd "$(dirname "$0")"; t=${1:-quick}; shift; ids=${*:-$(python3 -c "from checks import CHECKS; print(*sorted(CHECKS))")}
for p in $ids; do o=$(python3 run.py $p $t 2>&1); rc=$?; echo "$p rc=$rc $(grep -c VIOLATION <<<"$o") $(tail -1 <<<"$o")"; [ $rc = 0 ] || echo "$o" | grep -B3 VIOLATION | head -20; done

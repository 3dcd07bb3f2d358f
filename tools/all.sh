#!/bin/bash
# Runs every registered check one after another (development convenience).
cd "$(dirname "$0")/.."
for p in $(python3 -c "
import sys; sys.path.insert(0,'tools')
from props import PROPS; print(*sorted(PROPS))"); do
  out=$(python3 tools/check.py --property $p --tier ${1:-quick} 2>&1); rc=$?
  echo "$p rc=$rc $(echo "$out" | grep -E 'runs in|VIOLATION|KNOWN' | tr '\n' ' ')"
done

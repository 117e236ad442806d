#!/bin/bash
# Runs all checks of a tier (default quick) one after another and lists exit codes, times and incomplete goals.
cd "$(dirname "$0")/.." && ./build.sh >/dev/null || exit 2
for i in $(seq -w 1 ${N:-99}); do
  grep -q "\"C$i\"" properties.jsonl || continue
  s=$(date +%s); o=$(./check.sh C$i ${1:-quick} 2>&1); rc=$?
  echo "C$i rc=$rc $(( $(date +%s) - s ))s"
  echo "$o" | grep -E "VIOLATION|INCOMPLETE|complete=false|native 0/[1-9]"
done

#!/bin/bash
# run every check (or those named) one after another; logs in $LG (default /tmp/lg); flags anything undecided
LG=${LG:-/tmp/lg}; mkdir -p "$LG"; cd "$(dirname "$0")/.."
for p in ${@:-$(python3 -c "import sys;sys.path.insert(0,'tools');import props;print(*props.PROPS)")}; do
  s=$(date +%s); python3 run.py $p > $LG/$p.log 2>&1; rc=$?
  echo "$p rc=$rc $(( $(date +%s)-s ))s $(grep -c undecided $LG/$p.log) undecided; $(tail -1 $LG/$p.log)"
  grep undecided $LG/$p.log
done

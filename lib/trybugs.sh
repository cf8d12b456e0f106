#!/bin/bash
# lib/trybugs.sh ID...: runs the check of its property (or $CHECKS) on a copy of /repo with each planted bug (development tool)
cd /verif
W=/tmp/tb-repo
export VP_REPO=$W EVID=/tmp/tb-evid
rm -rf /tmp/tb-repo; git clone -q /repo $W
for id in "$@"; do
  d=seeded/$id/patch.diff; [ -f "$id" ] && d=$id
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])" 2>/dev/null)
  git -C $W apply $(realpath $d) || { echo "$id: patch fails"; continue; }
  for c in ${CHECKS:-$p}; do
    s=$(date +%s); timeout 900 python3 checks/run.py $c ${TIER:-quick} > /tmp/tb.out 2>&1; rc=$?
    echo "$id $c rc=$rc $(($(date +%s)-s))s $(grep -m1 '^#\|Error' /tmp/tb.out | cut -c1-220)"
  done
  git -C $W checkout -q -- .
done
rm -rf /tmp/tb-repo

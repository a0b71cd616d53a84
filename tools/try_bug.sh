#!/bin/bash
# try_bug.sh ID PROP... : apply a planted bug to /repo, run the checks, undo it
id=$1; shift
git -C /repo diff --quiet || { echo "/repo dirty"; exit 2; }
git -C /repo apply /verif/seeded/$id/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
cd /verif
for p in "$@"; do
  VERIF_TIER=${TIER:-quick} VERIF_SEED=1 timeout 900 /opt/venv/bin/python -W ignore harness/check.py $p > /tmp/bug-$id-$p.log 2>&1
  echo "$id $p exit=$? $(grep -c '^VIOLATION' /tmp/bug-$id-$p.log) $(grep -m1 -A1 '^VIOLATION' /tmp/bug-$id-$p.log | tail -1 | cut -c1-150)"
done

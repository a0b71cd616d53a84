#!/bin/bash
# iso.sh ID PROP... : run checks with planted bug in a private mount namespace
id=$1; shift
d=/tmp/iso-$id-$$; mkdir -p $d
cp -a /repo $d/repo; rsync -a --exclude .git --exclude seeded /verif/ $d/verif 2>/dev/null || { mkdir $d/verif; (cd /verif; tar c --exclude=.git --exclude=seeded .) | tar x -C $d/verif; }
git -C $d/repo apply /verif/seeded/$id/patch.diff || { echo "$id patch fails"; rm -rf "$d"; exit 2; }
for p in "$@"; do
unshare -Urm bash -c "mount --bind $d/repo /repo && mount --bind $d/verif /verif && cd /verif && VERIF_TIER=${TIER:-quick} VERIF_SEED=${SEED:-1} timeout 900 /opt/venv/bin/python -W ignore harness/check.py $p" > /tmp/bug-$id-$p.log 2>&1
echo "$id $p exit=$? $(grep -c '^VIOLATION' /tmp/bug-$id-$p.log) $(grep -m1 -A1 '^VIOLATION' /tmp/bug-$id-$p.log | tail -1 | cut -c1-150)"
done
rm -rf "$d"

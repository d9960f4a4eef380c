#!/bin/bash
# mut.sh SLOT PATCH|-R:commit|none IDS...   : runs the checks on a copy of /repo with the patch
slot=$1; patch=$2; shift 2
L=${MUT_LAB:-/tmp/lab}/$slot
mkdir -p $L/repo $L/verif
rsync -a --delete --exclude target --exclude .git /repo/ $L/repo/ 
if [ -n "${MUT_WT:-}" ]; then rsync -a --delete --exclude target --exclude .git --exclude evidence --exclude replays --exclude seeded /verif/ $L/verif/; else rm -rf $L/vsrc; mkdir -p $L/vsrc; git -C /verif archive HEAD | tar x -C $L/vsrc; rsync -a --checksum --delete --exclude target --exclude evidence --exclude replays --exclude seeded $L/vsrc/ $L/verif/; fi
sed -i "s#\"/repo/#\"$L/repo/#" $L/verif/harness/*/Cargo.toml
sed -i "s#cd /repo #cd $L/repo #" $L/verif/run.sh
case $patch in
 none) ;;
 -R:*) git -C /repo show ${patch#-R:} > $L/p.diff; (cd $L/repo && patch -R -p1 -s < $L/p.diff) || exit 9 ;;
 *) (cd $L/repo && patch -p1 -s < $patch) || { echo "PATCH FAILED"; exit 9; } ;;
esac
cd $L/verif
for id in "$@"; do
  timeout 900 ./run.sh $id > $L/out.$id 2>$L/err.$id; rc=$?
  echo "$(basename $patch .diff) $id rc=$rc $(grep -m1 VIOLATION $L/out.$id | cut -c1-60) :: $(head -1 $L/out.$id | cut -c1-220)"
done

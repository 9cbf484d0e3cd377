#!/bin/bash
# mutns.sh <ID> <py-or-diff> [tier] [budget]: run a check against a mutated copy of /repo in a private mount namespace
id=$1 f=$2 tier=${3:-quick} bud=${4:-240}
w=/tmp/mutns; mkdir -p $w/v/evidence; rm -rf $w/repo; git clone -q /repo $w/repo; cp /verif/known-findings.txt $w/v/
cp -p /repo/Cargo.lock $w/repo/ 2>/dev/null
unshare -m nice -n 5 bash -c "
mount --bind $w/repo /repo || exit 9
cd /repo
case $f in *.py) python3 $f;; *) git apply $f || exit 8;; esac
git diff --stat | tail -1
cd /verif
if [ $id = C19 ]; then b=mfa; feat=flush_aggregation; else b=m; feat=; fi
bash mc/build.sh /verif/build/\$b \$feat 2>&1 | grep -E '^error' -A9
MC_TRACE=1 VERIF_DIR=$w/v MC_BUDGET=$bud build/\$b/release/mc check $id $tier 2>/tmp/x.txt | cut -c1-700
"

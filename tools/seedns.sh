#!/bin/bash
# tools/seedns.sh NAME...: as seedcheck.sh NAME full, but in a private copy of /repo that is mounted
# over /repo in a namespace of its own, so that nothing else is disturbed.
S=/tmp/w/S; mkdir -p $S/root
rsync -a --delete --exclude target /repo/ $S/repo/
cp /verif/known_findings.txt $S/root/
rsync -a --delete --exclude target /verif/harness/ $S/harness/; cp /verif/env.sh $S/
rm -rf $S/seeded; cp -r /verif/seeded $S/seeded
cat > $S/in.sh <<'I'
S=/tmp/w/S
for n in "$@"; do
cd /repo || exit 1
s=$S/seeded/$n
prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
bash $s/demo.sh >$S/seed_clean.log 2>&1; echo "$n demo clean: $? (want 0)"
git apply $s/patch.diff || exit 1
bash $s/demo.sh >$S/seed_bad.log 2>&1; echo "$n demo patched: $? (want nonzero)"; grep -h "panicked" -A3 $S/seed_bad.log | head -4
if [ -z "$QUICK" ]; then (bash /opt/vp/build.sh && bash /opt/vp/test.sh $S/out.json) >$S/o.log 2>&1; sed "s#/tmp/out.json#$S/out.json#" /tmp/cmp.py > $S/cmp.py; python3 $S/cmp.py | sed 's/failed:.*//'; fi
b=$(awk -v id=$prop '$1==id{print $2}' /verif/harness/bins.txt)
(cd $S && export KV_TARGET=$S/target && . ./env.sh && build $b) 2>$S/build.log || echo "BUILD FAILED"
(cd $S && export KV_TARGET=$S/target && . ./env.sh && cd $S/root && KV_ROOT=$S/root VERIF_SEED=1 VERIF_TIER=quick timeout 600 $(binary $b) $prop) > $S/seed_check.log 2>&1; echo "$n check $prop: $? (want 1)"; grep -m1 -A6 " case " $S/seed_check.log
git -C /repo checkout -q -- .
done
I
unshare -Urm bash -c 'mount --bind /tmp/w/S/repo /repo && QUICK='"$QUICK"' bash /tmp/w/S/in.sh '"$*"

#!/bin/bash
# tools/seedcheck.sh NAME [full]: demo on the clean tree and with the patch; the check of its
# property with the patch; with "full" also the repository's build and tests with the patch.
# Applies the patch in /repo and undoes it.
n="$1"; s=/verif/seeded/$n
cd /repo && [ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 1; }
prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
bash $s/demo.sh >/tmp/seed_clean.log 2>&1; echo "$n demo clean: $? (want 0)"
git apply $s/patch.diff || exit 1
bash $s/demo.sh >/tmp/seed_bad.log 2>&1; echo "$n demo patched: $? (want nonzero)"; tail -3 /tmp/seed_bad.log
if [ "$2" = full ]; then
  (bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/out.json) >/tmp/o.log 2>&1; python3 /tmp/cmp.py
fi
cd /verif && VERIF_SEED=1 VERIF_TIER=quick ./check $prop > /tmp/seed_check.log 2>&1; echo "$n check $prop: $? (want 1)"; grep VIOLATION /tmp/seed_check.log | head -3
git -C /repo checkout -- .

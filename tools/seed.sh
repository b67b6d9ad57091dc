#!/bin/bash
# seed.sh <seeded id> [nocheck] : confirm a planted bug in a scratch copy of /repo (private mount namespace)
id=$1; V=/verif; D=$V/seeded/$id; W=$(mktemp -d /tmp/seed.XXXXXX)
prop=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cp -a /repo $W/repo; cp -a $D $W/demo; rm -f $W/demo/patch.diff $W/demo/meta.json
cat > $W/run.sh <<X
mount --bind $W/repo /repo || exit 9
cd /repo
bash /opt/vp/build.sh >$W/b0.log 2>&1 || { echo "base build failed"; exit 9; }
timeout 300 bash $W/demo/demo.sh >$W/d0.log 2>&1; echo "demo on unchanged tree: \$? (want 0)"
git apply $D/patch.diff || { echo "patch does not apply"; exit 9; }
bash /opt/vp/build.sh >$W/b1.log 2>&1 || { echo "PATCHED BUILD FAILED"; tail -20 $W/b1.log; exit 9; }
bash /opt/vp/test.sh $W/t.json >$W/t.log 2>&1
python3 -c "
import json;d=json.load(open('$W/t.json'));b=json.load(open('/opt/vp/BASELINE.json'))
print('tests passed',len(d['passed']),'failed',d['failed'])"
timeout 300 bash $W/demo/demo.sh >$W/d1.log 2>&1; echo "demo on patched tree: \$? (want nonzero)"; tail -3 $W/d1.log
if [ "$2" != nocheck ]; then cd $V; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $prop --tier quick >$W/c.log 2>&1; echo "check $prop: \$? (want 1)"; grep -E "^FAIL|VIOLATION prop|held|failure" $W/c.log; fi
X
unshare -Urm bash $W/run.sh
/bin/rm -rf "$W"

#!/bin/bash
# confirm.sh ID: in the scratch copy, applies seeded/ID/patch.diff and says whether it builds, passes
# the suite and fails its demonstration, which passes without it. Development only.
d=/verif/seeded/$1
cd /tmp/wt && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD || exit 1
cat > /tmp/confirm.$1.sh <<IN
cd /repo
git checkout -q -- .
if [ "\$SKIPCLEAN" = "" ]; then
bash /opt/vp/build.sh >/tmp/cf.build.log 2>&1 || { echo "clean tree does not build"; exit 1; }
bash $d/demo.sh >/tmp/cf.demo0.log 2>&1; echo "clean demo exit \$? (want 0)"; tail -3 /tmp/cf.demo0.log
fi
git apply $d/patch.diff || { echo "does not apply"; exit 1; }
bash /opt/vp/build.sh >/tmp/cf.build.log 2>&1 || { echo "patched tree does not build"; grep -m3 -A6 '^error' /tmp/cf.build.log; git checkout -q -- .; exit 1; }
bash $d/demo.sh >/tmp/cf.demo1.log 2>&1; echo "patched demo exit \$? (want nonzero)"; tail -12 /tmp/cf.demo1.log
bash /opt/vp/test.sh /tmp/cf.json >/tmp/cf.test.log 2>&1
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/cf.json'))
b=set(b if isinstance(b,list) else b.get('passed') or b.get('stable') or [])
p=set(r['passed']); miss=sorted(b-p)
print('baseline',len(b),'missing',len(miss),miss[:6])
P
git checkout -q -- .
IN
/verif/tools/ns.sh "bash /tmp/confirm.$1.sh"

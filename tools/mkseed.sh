#!/bin/bash
# usage: mkseed.sh ID  -- (dev helper) takes /tmp/seedwt (edited copy of /repo), writes seeded/ID/patch.diff,
# and checks demo.sh both ways plus the stable tests.  meta.json, demo.sh, demo.rs are written by hand first.
set -u
ID=$1; S=/verif/seeded/$ID; W=/tmp/seedwt
git -C $W diff > $S/patch.diff
git -C $W diff --stat
echo "--- clean"; ( cd /repo && bash $S/demo.sh 2>&1 | cut -c1-300 | tail -4; exit ${PIPESTATUS[0]} ); a=$?
git -C /repo apply $S/patch.diff || exit 1
echo "--- patched"; ( cd /repo && bash $S/demo.sh 2>&1 | cut -c1-300 | tail -4; exit ${PIPESTATUS[0]} ); b=$?
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || echo BUILD FAILED
bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1
git -C /repo checkout -- .
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))
def ok(x):
    if isinstance(x,dict):
        for k in('passed','tests','stable'): 
            if k in x: return set(x[k]) if not isinstance(x[k],dict) else {t for t,v in x[k].items() if v in('pass','passed',True)}
    return set()
print('baseline',len(ok(b)),'missing after patch:',sorted(ok(b)-ok(r))[:5])
P
echo "clean=$a patched=$b"
git -C $W checkout -q -- .

#!/bin/bash
# trybug.sh <id> [nobuild] : demo on the clean tree, then with the patch: build, tests, demo, the property's check; undoes the patch
id=$1; d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo; [ -z "$(git status --porcelain -uno)" ] || { echo dirty; exit 1; }
bash $d/demo.sh >/tmp/demo_clean.log 2>&1; echo "demo clean: $?"
git apply $d/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
if [ "$2" != nobuild ]; then
 bash /opt/vp/build.sh >/tmp/bug_build.log 2>&1; echo "build: $?"
 bash /opt/vp/test.sh /tmp/bug_test.json >/tmp/bug_test.log 2>&1
 python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/bug_test.json'))
def names(x):
    if isinstance(x,dict):
        for k in ('passed','stable','tests','pass'):
            if k in x: return set(x[k]) if not isinstance(x[k],dict) else set(k2 for k2,v in x[k].items() if v in('pass','passed',True))
    return set()
B,O=names(b),names(o); print('tests: baseline',len(B),'now',len(O),'missing',sorted(B-O)[:5])
P
fi
bash $d/demo.sh >/tmp/demo_bug.log 2>&1; echo "demo patched: $?"; tail -3 /tmp/demo_bug.log
cd /verif; timeout 900 python3-vt checks/run.py $prop > /tmp/bug_check.log 2>&1; echo "check $prop: $?"; grep -E "VIOLATION|case |ERROR" /tmp/bug_check.log | cut -c1-250 | head -5

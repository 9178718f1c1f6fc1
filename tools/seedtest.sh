#!/bin/bash
# seedtest.sh ID [nocheck]: confirms a planted change (builds, passes tests, demo) and runs the check of its property against it
id=$1; S=/verif/seeded/$id
p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
[ -n "$(git -C /repo status --porcelain --untracked-files=no)" ] && { echo "/repo dirty"; exit 2; }
( cd /repo && bash $S/demo.sh >/tmp/demo0.$id 2>&1 ); d0=$?
git -C /repo apply $S/patch.diff || { echo "$id: patch does not apply"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/tmp/seedbuild.$id 2>&1; b=$?
bash /opt/vp/test.sh /tmp/seedtest.$id.json >/dev/null 2>&1
f=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seedtest.$id.json'))
st=set(b.get('stable') or b.get('tests') or b.get('passed') or b)
print(len(st-set(r.get('passed',[]))))
P
)
( cd /repo && bash $S/demo.sh >/tmp/demo1.$id 2>&1 ); d1=$?
echo "$id property=$p build=$b failing_stable=$f demo_clean=$d0 demo_patched=$d1"
if [ "$2" != nocheck ]; then cd /verif && timeout 900 python3-vt check.py $p --tier quick | tail -${3:-6}; fi

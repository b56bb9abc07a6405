#!/bin/bash
# tryplant.sh ID: validates /verif/seeded/ID against /repo (applied and undone): builds, stable tests pass, demo separates.
id=$1; d=/verif/seeded/$id; cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/tmp/tp.b0 2>&1 || { echo "clean build fails"; exit 2; }
mkdir -p /tmp/tpd; cp -r $d/. /tmp/tpd/
bash /tmp/tpd/demo.sh >/tmp/tp.d0 2>&1; a=$?
git apply $d/patch.diff || { echo "patch does not apply"; exit 2; }
bash /opt/vp/test.sh /tmp/tp.json >/tmp/tp.t 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=json.load(open('/tmp/tp.json')); f=b-set(r['passed'])
print('stable tests:', 'all pass' if not f else 'BROKEN %d: %s'%(len(f), sorted(f)[:4]))
P
bash /tmp/tpd/demo.sh >/tmp/tp.d1 2>&1; b=$?
echo "demo clean=$a patched=$b $( [ $a = 0 ] && [ $b != 0 ] && echo OK || echo BAD)"; tail -2 /tmp/tp.d1
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
if [ "$2" != nocheck ]; then cd /verif; python3 check.py $p > /tmp/tp.c 2>&1; echo "check $p exit $?"; grep -E "violation:|VIOLATION|^.*D?[0-9]* quick" /tmp/tp.c | head -5 | cut -c1-300; fi
git -C /repo checkout -q -- .; rm -rf /tmp/tpd

#!/bin/bash
# tools/tryseed.sh ID: does the planted bug count, and does its check see it? (works on /repo, undone afterwards)
D=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo; git diff --quiet || { echo "/repo dirty"; exit 9; }
undo() { git -C /repo checkout -q -- .; }
trap undo EXIT
[ -n "$QUICK" ] || { timeout 300 bash $D/demo.sh >/tmp/w/d0 2>&1; echo "demo on the unchanged tree: $?"; }
git apply $D/patch.diff || exit 9
bash /opt/vp/build.sh >/tmp/w/b 2>&1 || { echo BUILD FAILED; tail -20 /tmp/w/b; exit 9; }
bash /opt/vp/test.sh /tmp/w/t.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/w/t.json'))
st=b.get('stable') or b.get('tests') or b.get('passed'); ps=set(t.get('passed',[]))
print('tests:', 'ok' if not [x for x in st if x not in ps] else [x for x in st if x not in ps])
P
timeout 300 bash $D/demo.sh >/tmp/w/d1 2>&1; echo "demo with the patch: $?  $(tail -1 /tmp/w/d1 | cut -c1-200)"
[ -n "$NOCHECK" ] || (cd /verif; ./check $P quick; echo "check: $?")

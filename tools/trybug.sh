#!/bin/bash
# trybug.sh <seeded id> [notests]: is the planted bug valid (builds, stable tests pass, demo tells), and does the check see it?
id=$1; d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo && git diff --quiet || { echo "repo dirty"; exit 2; }
bash "$d/demo.sh" >/tmp/trybug.clean 2>&1; echo "demo clean: $? (want 0) $(tail -1 /tmp/trybug.clean)"
git apply "$d/patch.diff" || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
if [ "$2" != notests ]; then
bash /opt/vp/build.sh >/tmp/trybug.build 2>&1 || echo "BUILD FAILS"
bash /opt/vp/test.sh /tmp/trybug.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open('/tmp/trybug.json'))
ok=set(r.get('passed',r.get('pass',[])))
miss=[t for t in b if t not in ok]
print('stable tests failing:',len(miss),miss[:5])
P
fi
bash "$d/demo.sh" >/tmp/trybug.bug 2>&1; echo "demo with bug: $? (want nonzero) $(tail -1 /tmp/trybug.bug)"
cd /verif; s=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick bash tools/check.sh $prop >/tmp/trybug.check 2>&1; echo "check $prop: $? (want 1) in $(($(date +%s)-s)) s: $(grep -m1 VIOLATION /tmp/trybug.check)"

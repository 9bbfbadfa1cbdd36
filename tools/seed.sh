#!/bin/bash
# seed.sh ID [checks...]: demo on the clean tree, then patch /repo, build, test, demo, run the checks (default: the bug's own property), undo.
# 'all' as a check means every property.
ID=$1; shift
D=/verif/seeded/$ID
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
[ $# -eq 0 ] && set -- $P
[ "$1" = all ] && set -- C01 C02 C03 C04 C05 C06 C07 C08 C09 C10
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$NOCONFIRM" ]; then
  bash $D/demo.sh >/tmp/seed-demo0.log 2>&1; echo "$ID demo clean: rc=$?"
fi
git apply $D/patch.diff || exit 2
if [ -z "$NOCONFIRM" ]; then
  bash /opt/vp/build.sh >/tmp/seed-build.log 2>&1; echo "$ID build rc=$?"
  bash /opt/vp/test.sh /tmp/seed-tests.json >/tmp/seed-test.log 2>&1
  python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed-tests.json'))
base=set(b.get('passed') or b.get('stable') or b.get('tests'))
print("tests lost:", sorted(base-set(r['passed']))[:5])
P
  bash $D/demo.sh >/tmp/seed-demo1.log 2>&1; echo "$ID demo patched: rc=$?"
fi
for c in "$@"; do
  VERIF_SEED=${SEED:-1} python3 /verif/check.py run $c --tier quick 2>&1 | grep -E "^(VIOLATION|OK|violation|ERROR)" | cut -c1-200 | sed "s/^/$ID: /"
done
git checkout -q -- .
bash /opt/vp/build.sh >/dev/null 2>&1

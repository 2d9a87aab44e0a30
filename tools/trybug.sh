#!/bin/bash
# tools/trybug.sh ID [check...]: demo without the change, demo + tests + checks with it, and undo.
id=$1; shift
d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo dirty"; exit 2; }
( cd /repo && bash $d/demo.sh >/tmp/demo.$id.clean 2>&1 ); echo "$id demo clean rc=$?"
git -C /repo apply $d/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/test.sh /tmp/trybug.json >/tmp/trybug.log 2>&1
python3 - <<PY
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/trybug.json'))
want=set(b.get('stable', b.get('passed', [])) if isinstance(b,dict) else b)
got=set(r.get('passed', r.get('pass', [])) if isinstance(r,dict) else r)
print('$id tests lost:', sorted(want-got)[:5], len(want), len(got))
PY
( cd /repo && bash $d/demo.sh >/tmp/demo.$id.bug 2>&1 ); echo "$id demo bug rc=$?"
for c in ${@:-$prop}; do
  ( cd /verif && timeout 900 python3 checks/run.py $c > /tmp/trybug.$id.$c 2>&1 ); echo "$id check $c rc=$? $(grep -m1 VIOLATION /tmp/trybug.$id.$c)"
done

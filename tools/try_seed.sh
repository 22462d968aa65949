#!/bin/bash
# try_seed.sh <id> [nobuild]: demo on the clean tree, then with the patch: build, tests, demo, check.
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "repo dirty"; exit 9; }
bash $d/demo.sh >/tmp/demo.$id.clean 2>&1; echo "$id demo clean: $?"
git -C /repo apply $d/patch.diff || exit 8
if [ "${2:-}" != nobuild ]; then
bash /opt/vp/build.sh >/tmp/b.$id.log 2>&1 || echo "$id BUILD FAILS"
bash /opt/vp/test.sh /tmp/t.$id.json >/tmp/t.$id.log 2>&1
python3 - $id <<'P'
import json,sys
t=json.load(open(f'/tmp/t.{sys.argv[1]}.json')); print(sys.argv[1], {k:(len(v) if hasattr(v,'__len__') else v) for k,v in t.items()}, [x for x in t.get('failed',[])][:5])
P
fi
bash $d/demo.sh >/tmp/demo.$id.bad 2>&1; echo "$id demo patched: $?"
cmd=$(python3 -c "
import json
for c in json.load(open('/verif/MANIFEST.json'))['checks']:
    if c['property']=='$prop': print(c['quick_cmd'])")
[ -n "$cmd" ] && (cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash -c "$cmd" >/tmp/c.$id.log 2>&1; echo "$id check $prop: $? $(grep -c VIOLATION /tmp/c.$id.log) $(tail -1 /tmp/c.$id.log)")
git -C /repo checkout -- .

#!/bin/bash
# plant.sh ID: checks one planted bug in a scratch copy of /repo: it builds, the stable tests pass, the demonstration tells the two apart
ID=$1; D=/verif/seeded/$ID; S=/tmp/plant.$ID
rm -rf "/tmp/plant.$ID"; cp -a /repo "$S"
(. /opt/vp/env.sh; cd "$S"
 bash "$D/demo.sh" >"/tmp/plant.$ID.log" 2>&1; echo "demo on the unchanged tree: $?"
 git apply "$D/patch.diff" || { echo "patch does not apply"; exit; }
 cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > "$S.raw" 2>&1
 sed -E -e 's/\x1b\[[0-9;]*m//g' -e 's/^(test tests\/[^ ]+\.rs \.\.\. )(error|mismatch|wip)$/\1FAILED/' "$S.raw" > "$S.log"
 python3 /opt/vp/results.py "$S.json" "cargo:$S.log" >/dev/null; python3 - "$S.json" <<'P'
import json,sys
r=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
def flat(x): return json.dumps(x)[:200]
ok=set(r.get('passed',[])); st=b.get('stable') or b.get('passed') or b.get('tests')
miss=[t for t in st if t not in ok]
print("stable tests missing:", miss)
P
 bash "$D/demo.sh" >>"/tmp/plant.$ID.log" 2>&1; echo "demo with the patch: $?"
)
rm -rf "/tmp/plant.$ID" "/tmp/plant.$ID.raw" "/tmp/plant.$ID.json"

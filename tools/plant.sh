#!/bin/bash
# plant.sh ID [check|nocheck|only] [property]: verifies the planted bug seeded/ID in a private copy of /repo that is
# bind-mounted over /repo in a mount namespace of its own (the real /repo is not touched).
set -u
ID=$1; MODE=${2:-check}
S=/verif/seeded/$ID; W=/tmp/pl/$ID
if [ "${VF_PLANT_NS:-}" = "" ]; then
  mkdir -p /tmp/pl; rm -rf "/tmp/pl/$ID"; cp -a /repo "$W"
  VF_PLANT_NS=1 unshare -Urm bash "$0" "$ID" "$MODE" ${3:-}; rc=$?
  rm -rf "/tmp/pl/$ID"; exit $rc
fi
mount --bind "$W" /repo || exit 9
D=$(mktemp -d /tmp/pldemo.XXXXXX); cp -r "$S"/. "$D"/; rm -f "$D"/*.diff "$D"/meta.json
cd /repo
L=/tmp/pl/$ID.log; : > "$L"
[ "$MODE" = only ] && c=- || { timeout 300 bash "$D/demo.sh" >> "$L" 2>&1; c=$?; }
git apply "$S/patch.diff" || { echo "$ID: patch does not apply"; rm -rf "$D"; exit 1; }
d=-; t=0; ok=-
if [ "$MODE" != only ]; then
bash /opt/vp/build.sh >> "$L" 2>&1 || { echo "$ID: build fails"; rm -rf "$D"; exit 1; }
t=$(date +%s); timeout 300 bash "$D/demo.sh" >> "$L" 2>&1; d=$?; t=$(( $(date +%s) - t ))
bash /opt/vp/test.sh "$D/out.json" >> "$L" 2>&1
ok=$(python3 - "$D/out.json" <<'P'
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))['stable']
p=o.get('passed') or [k for k,v in o.items() if v in ('pass','passed',True)]
print('tests-ok' if all(x in p for x in b) else 'TESTS-FAIL %s'%[x for x in b if x not in p])
P
)
fi
r=-
P=${3:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
if [ "$MODE" != nocheck ]; then
  cd /verif; s=$(date +%s)
  VF_EVID=/tmp/pl/evid VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 run.py "$P" > /tmp/pl/$ID.check 2>&1; r=$?
  r="$r($(( $(date +%s) - s ))s)"
fi
echo "$ID [$P]: demo clean=$c patched=$d (${t}s) $ok check=$r $(grep -m1 VIOLATION /tmp/pl/$ID.check 2>/dev/null)"
rm -rf "$D"

#!/bin/bash
# plant.sh ID PROPERTY NEEDS BREAKS: record /repo's uncommitted change as a planted bug, run its property's check against it and, when the
# check finds it, make the demonstration from the script found. For a missed one: mkdemo.py by hand.
id=$1; p=$2
mkdir -p /verif/seeded/$id
git -C /repo diff > /verif/seeded/$id/patch.diff
python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open('/verif/seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)
P
trap 'git -C /repo checkout -- .' EXIT
cd /verif
rm -f /verif/replays/${p}_*.json
timeout 900 ./check.py $p > /tmp/seed_$id.log 2>&1; echo "check $p with bug: $? (want 1)"
grep -A1 "step .* of the trace\|ERROR" /tmp/seed_$id.log | head -2 | cut -c1-400
git -C /repo checkout -- .
r=$(ls /verif/replays/${p}_*.json 2>/dev/null | head -1)
python3 /verif/lib/build.py > /dev/null
if [ -n "$r" ]; then
  part=$(python3 -c "import json;print(json.load(open('$r'))['part'])")
  HITLS_LIBDIR=${HITLS_BUILD:-/verif/.build}/std python3 tools/mkdemo.py $id $(echo $p | tr A-Z a-z) $part $r; echo "record: $?"
fi
bash tools/demotest.sh $id

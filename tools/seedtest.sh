#!/bin/bash
# seedtest.sh ID: apply the planted bug, run demo (against a scratch build copied to the demo's libdir) and its property's check, undo.
id=$1
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain --untracked-files=no)" ] || { echo "/repo dirty"; exit 2; }
git apply /verif/seeded/$id/patch.diff || exit 2
trap 'git -C /repo checkout -- .' EXIT
python3 /verif/lib/build.py >/dev/null || { echo BUILD-FAIL; exit 2; }
HITLS_LIBDIR=/verif/.build/std bash /verif/seeded/$id/demo.sh > /tmp/demo_$id.log 2>&1; echo "demo with bug: $? (want nonzero)"
cd /verif; timeout 900 ./check.py ${2:-$p} > /tmp/seed_$id.log 2>&1; rc=$?
grep -c VIOLATION /tmp/seed_$id.log | sed "s/^/check $p rc=$rc violations: /"
grep -A0 "step .* of the trace\|ERROR" /tmp/seed_$id.log | head -2 | cut -c1-300
git -C /repo checkout -- .
python3 /verif/lib/build.py >/dev/null
cd /repo; HITLS_LIBDIR=/verif/.build/std bash /verif/seeded/$id/demo.sh >/tmp/demo_$id.log 2>&1; echo "demo without bug: $? (want 0)"

#!/bin/bash
# demotest.sh ID: the demonstration on the unchanged tree (3 times) and with the bug
id=$1
python3 /verif/lib/build.py > /dev/null
for k in 1 2 3; do HITLS_LIBDIR=${HITLS_BUILD:-/verif/.build}/std bash /verif/seeded/$id/demo.sh > /tmp/demo_$id.log 2>&1; echo -n "clean: $? "; done
git -C /repo apply /verif/seeded/$id/patch.diff || exit 2
trap 'git -C /repo checkout -- .' EXIT
python3 /verif/lib/build.py > /dev/null || echo BUILD-FAIL
HITLS_LIBDIR=${HITLS_BUILD:-/verif/.build}/std bash /verif/seeded/$id/demo.sh > /tmp/demo_$id.log 2>&1; echo "with bug: $?"
tail -2 /tmp/demo_$id.log | cut -c1-400
git -C /repo checkout -- .

#!/bin/bash
# vet.sh ID...: does the planted bug build, pass the stable tests, and does its demonstration fail with it? In a scratch copy seen as /repo
# (mount namespace). Appends one line per bug to /tmp/vet.log.
for id in "$@"; do
  W=/tmp/vet/$id
  mkdir -p /tmp/vet; cp -a /repo $W || exit 2
  (cd $W && git checkout -q -- . && git apply /verif/seeded/$id/patch.diff) || { echo "$id patch does not apply" >> /tmp/vet.log; rm -rf "$W"; continue; }
  cp -a /verif/seeded/$id /tmp/vet/demo_$id
  unshare -Urm bash -c "mount --bind $W /repo && bash /opt/vp/build.sh > /tmp/vet/$id.build.log 2>&1; bash /opt/vp/test.sh /tmp/vet/$id.json > /tmp/vet/$id.test.log 2>&1; bash /tmp/vet/demo_$id/demo.sh > /tmp/vet/$id.demo.log 2>&1; echo \$? > /tmp/vet/$id.rc"
  python3 - $id >> /tmp/vet.log <<'P'
import json, sys
i = sys.argv[1]
b = json.load(open('/opt/vp/BASELINE.json'))
base = set(b.get('stable', b.get('passed', b.get('tests', []))))
r = json.load(open('/tmp/vet/%s.json' % i))
lost = sorted(base - set(r['passed']))
print('%s: baseline tests lost %d %s; demo with bug %s (want nonzero)' % (i, len(lost), lost[:3], open('/tmp/vet/%s.rc' % i).read().strip()))
P
  rm -rf "/tmp/vet/$id" "/tmp/vet/demo_$id"
done

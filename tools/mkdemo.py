#!/usr/bin/env python3
"""mkdemo.py ID CHECK PART SCRIPT.json: make the demonstration of seeded/ID from one script (cfg, inputs) of a check's driver.
The expected outcomes are recorded on the unchanged tree; demo.sh fails when the library answers otherwise."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, check, part, script = sys.argv[1:5]
d = os.path.join(V, 'seeded', sid)
kit = os.path.join(d, 'kit')
shutil.rmtree(kit, ignore_errors=True)
os.makedirs(kit + '/data')
os.makedirs(kit + '/lib')
os.makedirs(kit + '/checks')
sys.path.insert(0, V)
sys.dont_write_bytecode = True
before = set(sys.modules)
import importlib
m = importlib.import_module('checks.' + check)
for n in sorted(set(sys.modules) - before):
    f = getattr(sys.modules[n], '__file__', None)
    if f and f.startswith(V) and (n.startswith('lib.') or n.startswith('checks.')):
        shutil.copy(f, os.path.join(kit, *n.split('.')) + '.py')
for p in ('lib', 'checks'):
    open(os.path.join(kit, p, '__init__.py'), 'w').close()
if os.path.exists(os.path.join(kit, 'lib', 'tls.py')):
    shutil.copytree(os.path.join(V, 'data', 'tls'), kit + '/data/tls')
if os.path.exists(os.path.join(kit, 'lib', 'der.py')):
    shutil.copytree(os.path.join(V, 'data', 'pki'), kit + '/data/pki')
s = json.load(open(script))
json.dump({'check': check, 'part': part, 'cfg': s['cfg'], 'inputs': s['inputs'], 'expected': None}, open(d + '/demo.json', 'w'))
open(d + '/demo.py', 'w').write('''import importlib, json, os, sys
D = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(D, 'kit'))
sys.dont_write_bytecode = True
j = json.load(open(os.path.join(D, 'demo.json')))
m = importlib.import_module('checks.' + j['check'])
part = [p for p in m.PARTS if p.name == j['part']][0]
(getattr(m, 'setup', None) or part.setup)()
drv = part.make()
drv.reset(j['cfg'])
got = []
for i in j['inputs']:
    r = drv.do(i)
    if r is None:
        continue
    out = r[1] if isinstance(r, tuple) else r
    got.append([i, json.loads(json.dumps(out))])
if len(sys.argv) > 1:
    j['expected'] = got
    json.dump(j, open(os.path.join(D, 'demo.json'), 'w'), indent=0)
    os._exit(0)
bad = [(g, e) for g, e in zip(got, j['expected']) if g != e]
for g, e in bad[:1]:
    print('after', json.dumps(g[0])[:300], 'the library answers', json.dumps(g[1])[:300], 'instead of', json.dumps(e[1])[:300])
sys.stdout.flush()
os._exit(1 if bad or len(got) != len(j['expected']) else 0)
''')
open(d + '/demo.sh', 'w').write('''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
export HITLS_LIBDIR="${HITLS_LIBDIR:-/repo/build}"
export HITLS_BUILD="$(mktemp -d)"
python3 "$D/demo.py" "$@"
rc=$?
rm -r "$HITLS_BUILD"
exit $rc
''')
sys.exit(subprocess.call(['bash', d + '/demo.sh', 'record']))

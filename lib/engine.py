"""Model-based checking engine.

A model is a TLA+ module (spec/<M>.tla) that defines
   Configs, InitState(c), Inputs(s), Outcomes(s, i), Inv(s), TransInv(s, i, o, t)
1. explore():  TLC enumerates the whole state graph of the model, checks Inv and TransInv on it, and
               prints every transition; from that graph scripts are computed that cover every transition.
2. execute():  a driver replays the scripts in the real library (forked workers; a crash or a hang is
               recorded as the observed outcome of the step that caused it).
3. validate(): TLC decides, for every recorded trace, whether it is a behaviour of the same module.
"""
import hashlib, json, os, random, re, resource, shutil, signal, subprocess, sys, time, traceback
from collections import deque

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.path.join(VERIF, '.work')
SPEC = os.path.join(VERIF, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NPROC = min(8, os.cpu_count() or 4)


class ToolError(Exception):
    pass


def tla_value(v):
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, (set, frozenset)):
        return '{' + ', '.join(sorted(tla_value(x) for x in v)) + '}'
    if isinstance(v, (list, tuple)):
        return '<<' + ', '.join(tla_value(x) for x in v) + '>>'
    if isinstance(v, dict):
        return '[' + ', '.join('%s |-> %s' % (k, tla_value(x)) for k, x in sorted(v.items())) + ']'
    raise TypeError(v)


MC = '''---- MODULE MC ----
EXTENDS %(M)s, TLC, TLCExt, Json
VARIABLES s, act
%(defs)s
Init == \\E c \\in Configs : s = InitState(c) /\\ act = [in |-> [op |-> "Reset", cfg |-> c], out |-> <<>>]
                          /\\ PrintT("@@I " \\o ToJson(<<TLCFP(s), c>>))
Next == \\E i \\in Inputs(s) : \\E o \\in Outcomes(s, i) : s' = o.s /\\ act' = [in |-> i, out |-> o.out]
View == s
Emit == %(emit)s
StateInv == Inv(s)
StepInv == [][TransInv(s, act'.in, act'.out, s')]_<<s, act>>
====
'''

TR = '''---- MODULE TR ----
EXTENDS %(M)s, TLC, Json, IOUtils
VARIABLES s, k, l
%(defs)s
T == ndJsonDeserialize(IOEnv.TRACE)
Init == \\E j \\in 1..Len(T) : k = j /\\ l = 1 /\\ s = InitState(T[j].cfg)
Next == /\\ l <= Len(T[k].ev)
        /\\ \\E o \\in Outcomes(s, T[k].ev[l].in) : o.out = T[k].ev[l].out /\\ s' = o.s
        /\\ k' = k /\\ l' = l + 1
Done == (l = Len(T[k].ev) + 1) => PrintT("@@D " \\o ToString(k))
StateInv == Inv(s)
Diag == PrintT("@@S " \\o ToJson(<<l, s, IF l <= Len(T[k].ev) THEN {o.out : o \\in Outcomes(s, T[k].ev[l].in)} ELSE {}, k >>))
====
'''


def _prep(tag, module, text, name, cfg):
    d = os.path.join(WORK, '%s_%s_%d' % (tag, module, os.getpid()))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for f in os.listdir(SPEC):
        if f.endswith('.tla'):
            shutil.copy(os.path.join(SPEC, f), d)
    open(os.path.join(d, name + '.tla'), 'w').write(text)
    open(os.path.join(d, name + '.cfg'), 'w').write(cfg)
    return d


def _consts(consts):
    """cfg lines and definitions: every constant c is replaced by an operator defined in the MC module."""
    defs, cfg = [], []
    for k, v in consts.items():
        defs.append('c_%s == %s' % (k, v if isinstance(v, str) and v.startswith('\0') else tla_value(v)))
        cfg.append('CONSTANT %s <- c_%s' % (k, k))
    return '\n'.join(defs).replace('\0', ''), '\n'.join(cfg) + '\n'


def tla(expr):
    """a raw TLA+ expression as a constant's value"""
    return '\0' + expr


def _tlc(d, name, env=None, workers=1, mem='6g', timeout=800, extra=()):
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + mem, '-Xss64m', '-Djava.io.tmpdir=' + d, '-cp', JARS + ':' + d, 'tlc2.TLC', '-workers', str(workers),
           '-config', name + '.cfg', '-metadir', os.path.join(d, 'states'), '-noGenerateSpecTE'] + list(extra) + [name + '.tla']
    try:
        r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError('TLC timed out on ' + name + ' in ' + d)
    return r.returncode, r.stdout.decode(errors='replace')


class Graph:
    def __init__(self):
        self.inits = []          # (cfg, fp)
        self.edges = {}          # fp -> [(in, out, fp2)]
        self.states = 0
        self.generated = 0
        self.transitions = 0


def explore(module, consts, emit=True, timeout=800, has_transinv=True, workers=None, mem='8g'):
    defs, cc = _consts(consts)
    text = MC % {'M': module, 'defs': defs,
                 'emit': 'PrintT("@@T " \\o ToJson(<<TLCFP(s), act\', TLCFP(s\')>>))' if emit else 'TRUE'}
    cfg = cc + 'INIT Init\nNEXT Next\nVIEW View\nINVARIANT StateInv\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n'
    if has_transinv:
        cfg += 'PROPERTY StepInv\n'
    d = _prep('mc', module, text, 'MC', cfg)
    rc, out = _tlc(d, 'MC', workers=workers or (1 if emit else NPROC), timeout=timeout, mem=mem)
    if rc != 0 or 'No error has been found' not in out:
        raise ToolError('TLC: the specification %s violates its own properties or failed (rc %d)\n%s' % (
            module, rc, '\n'.join(x for x in out.splitlines() if not x.startswith('"@@'))[-4000:]))
    g = Graph()
    seen = set()
    for line in out.splitlines():
        if line.startswith('"@@'):
            line = json.loads(line)
            tag, body = line[2], line[4:]
            if line in seen:
                continue
            seen.add(line)
            v = json.loads(body)
            if tag == 'I':
                g.inits.append((v[1], v[0]))
            else:
                g.edges.setdefault(v[0], []).append((v[1]['in'], v[1]['out'], v[2]))
                g.transitions += 1
    m = re.search(r'(\d+) states generated, (\d+) distinct states found, (\d+) states left', out)
    g.generated, g.states = int(m.group(1)), int(m.group(2))
    if not emit:
        g.transitions = g.generated
    shutil.rmtree(d, ignore_errors=True)
    return g


def key(i):
    return json.dumps(i, sort_keys=True)


def cover(g, maxlen=40, rng=None, limit=None, local=300):
    """Scripts (cfg, [inputs]) that together take every (state, input) edge of the graph (or `limit` scripts)."""
    rng = rng or random.Random(1)
    adj, unc = {}, {}
    for fp in sorted(g.edges):
        m = {}
        for i, o, t in g.edges[fp]:
            m.setdefault(key(i), (i, []))[1].append(t)
        adj[fp] = m
        ks = sorted(m)
        rng.shuffle(ks)
        unc[fp] = ks
    # breadth-first tree from the initial states
    tree, order = {}, []
    q = deque()
    inits = sorted(g.inits, key=lambda x: key(x[0]))
    rng.shuffle(inits)
    for cfg, fp in inits:
        if fp not in tree:
            tree[fp] = (None, None, cfg)
            q.append(fp)
    while q:
        x = q.popleft()
        order.append(x)
        for k, (i, ts) in adj.get(x, {}).items():
            for t in ts:
                if t not in tree:
                    tree[t] = (x, i, None)
                    q.append(t)

    def root_path(x):
        p = []
        while tree[x][0] is not None:
            p.append(tree[x][1])
            x = tree[x][0]
        p.reverse()
        return tree[x][2], p
    scripts = []
    starts = deque(order)
    while starts and (limit is None or len(scripts) < limit):
        fp = starts[0]
        if not unc.get(fp):
            starts.popleft()
            continue
        cfg, path = root_path(fp)
        end = len(path) + maxlen
        while len(path) < end:
            if unc.get(fp):
                k = unc[fp].pop()
                i, ts = adj[fp][k]
                path.append(i)
                fp = rng.choice(ts)
                continue
            # a nearby state with an uncovered edge
            prev = {fp: None}
            q = deque([fp])
            goal = None
            while q and len(prev) < local:
                x = q.popleft()
                if unc.get(x):
                    goal = x
                    break
                for k, (i, ts) in adj.get(x, {}).items():
                    for t in ts:
                        if t not in prev:
                            prev[t] = (x, i)
                            q.append(t)
            if goal is None:
                break
            seg = []
            x = goal
            while prev[x] is not None:
                seg.append(prev[x][1])
                x = prev[x][0]
            seg.reverse()
            path += seg
            fp = goal
        scripts.append((cfg, path))
    return scripts


def random_walks(g, n, length, rng):
    out = []
    for _ in range(n):
        cfg, fp = rng.choice(g.inits)
        path = []
        for _ in range(length):
            es = g.edges.get(fp)
            if not es:
                break
            i, o, t = rng.choice(es)
            path.append(i)
            fp = t
        out.append((cfg, path))
    return out


# ------------------------------------------------------------------------------------------- execution
def _child(make, scripts, idxs, path, per_script, budget_end):
    fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_APPEND)

    def w(o):
        os.write(fd, (json.dumps(o, separators=(',', ':')) + '\n').encode())
    drv = make()
    for idx in idxs:
        if budget_end and time.time() > budget_end:
            break
        cfg, ins = scripts[idx]
        w({'b': idx})
        signal.alarm(per_script)
        drv.reset(cfg)
        for i in ins:
            w({'i': i})
            o = drv.do(i)
            if o is None:        # step not applicable: not part of the trace
                w({'x': 1})
                continue
            if isinstance(o, tuple):   # the driver completed the input (e.g. resolved an id)
                i, o = o
                w({'I': i})
            w({'o': o})
        w({'e': idx})
        drv.close()
        signal.alarm(0)
    os.close(fd)


def execute(make, scripts, nproc=None, per_script=120, seconds=None, tag='x'):
    """Run every script in forked workers. Returns [{'cfg','ev','idx'}] (crashes/hangs become outcomes)."""
    os.makedirs(WORK, exist_ok=True)
    nproc = nproc or NPROC
    end = time.time() + seconds if seconds else None
    n = len(scripts)
    slices = [list(range(j, n, nproc)) for j in range(nproc)]
    traces = {}
    errors = []

    def parse(path, idxs):
        cur = None
        pend = None
        done = set()
        for line in open(path):
            try:
                o = json.loads(line)
            except ValueError:
                continue
            if 'b' in o:
                cur = {'cfg': scripts[o['b']][0], 'ev': [], 'idx': o['b']}
                pend = None
            elif 'i' in o:
                pend = o['i']
            elif 'I' in o:
                pend = o['I']
            elif 'x' in o:
                pend = None
            elif 'o' in o:
                cur['ev'].append({'in': pend, 'out': o['o']})
                pend = None
            elif 'e' in o:
                traces[cur['idx']] = cur
                done.add(cur['idx'])
                cur = None
        return cur, pend, done

    jobs = []
    for j, sl in enumerate(slices):
        if sl:
            jobs.append((j, sl))
    procs = {}
    serial = [0]

    def start(sl):
        serial[0] += 1
        path = os.path.join(WORK, 'ex_%s_%d_%d' % (tag, os.getpid(), serial[0]))
        if os.path.exists(path):
            os.remove(path)
        open(path, 'w').close()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                errf = os.open(path + '.err', os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                os.dup2(errf, 2)
                os.dup2(errf, 1)
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                _child(make, scripts, sl, path, per_script, end)
                os._exit(0)
            except BaseException:
                traceback.print_exc()
                sys.stderr.flush()
                os._exit(77)
        procs[pid] = (sl, path)
    for j, sl in jobs:
        start(sl)
    crashes = 0
    while procs:
        pid, st = os.wait()
        if pid not in procs:
            continue
        sl, path = procs.pop(pid)
        cur, pend, done = parse(path, sl)
        if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0:
            pass
        elif os.WIFEXITED(st) and os.WEXITSTATUS(st) == 77:
            errors.append(open(path + '.err').read()[-3000:])
        else:
            sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else -os.WEXITSTATUS(st)
            what = 'HANG' if sig == signal.SIGALRM else 'CRASH'
            if cur is None:
                errors.append('driver died outside a script: status %d\n%s' % (st, open(path + '.err').read()[-2000:]))
            else:
                cur['ev'].append({'in': pend if pend is not None else {'op': 'close'}, 'out': [what, sig]})
                cur['crash'] = open(path + '.err').read()[-2000:]
                traces[cur['idx']] = cur
                crashes += 1
                rest = [x for x in sl if x not in done and x != cur['idx']]
                if rest and crashes < 200:
                    start(rest)
        for f in (path, path + '.err'):
            if os.path.exists(f):
                os.remove(f)
    if errors:
        raise ToolError('driver error:\n' + errors[0])
    return [traces[k] for k in sorted(traces)]


# ------------------------------------------------------------------------------------------ validation
def validate(module, consts, traces, timeout=800, check_inv=True, mem='8g'):
    """Returns (rejected trace list, number of trace states TLC visited)."""
    if not traces:
        return [], 0
    defs, cc = _consts(consts)
    cfg = cc + 'INIT Init\nNEXT Next\nINVARIANT Done\nCHECK_DEADLOCK FALSE\n'
    if check_inv:
        cfg += 'INVARIANT StateInv\n'
    d = _prep('tr', module, TR % {'M': module, 'defs': defs}, 'TR', cfg)
    tf = os.path.join(d, 'trace.ndjson')
    with open(tf, 'w') as f:
        for t in traces:
            f.write(json.dumps({'cfg': t['cfg'], 'ev': t['ev']}) + '\n')
    rc, out = _tlc(d, 'TR', env={'TRACE': tf}, workers=NPROC, timeout=timeout, mem=mem)
    if rc != 0 or 'No error has been found' not in out:
        raise ToolError('TLC trace validation of %s failed (rc %d)\n%s' % (
            module, rc, '\n'.join(x for x in out.splitlines() if not x.startswith('"@@'))[-4000:]))
    ok = set(int(x) for x in re.findall(r'"@@D (\d+)"', out))
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
    shutil.rmtree(d, ignore_errors=True)
    return [t for n, t in enumerate(traces) if n + 1 not in ok], int(m.group(2))


def diagnose(module, consts, trace):
    """Where the specification stops accepting the trace, and what it would have allowed there."""
    return diagnose_all(module, consts, [trace])[0]


def diagnose_all(module, consts, traces):
    defs, cc = _consts(consts)
    cfg = cc + 'INIT Init\nNEXT Next\nINVARIANT Diag\nCHECK_DEADLOCK FALSE\n'
    d = _prep('dg', module, TR % {'M': module, 'defs': defs}, 'TR', cfg)
    tf = os.path.join(d, 'trace.ndjson')
    with open(tf, 'w') as f:
        for t in traces:
            f.write(json.dumps({'cfg': t['cfg'], 'ev': t['ev']}) + '\n')
    rc, out = _tlc(d, 'TR', env={'TRACE': tf})
    best = [None] * len(traces)
    for line in out.splitlines():
        if line.startswith('"@@S'):
            v = json.loads(json.loads(line)[4:])
            k = v[3] - 1
            x = {'at': v[0], 'state': v[1], 'spec_allows': v[2]}
            if best[k] is None or v[0] > best[k][0]['at']:
                best[k] = [x]
            elif v[0] == best[k][0]['at']:
                best[k].append(x)
    shutil.rmtree(d, ignore_errors=True)
    return best


def minimise(module, consts, make, script, tries=14):
    """Shorten a failing script by cutting its tail at the failing step and dropping steps, re-running the real code."""
    def bad(sc):
        tr = execute(make, [sc], nproc=1, tag='min')
        d = diagnose(module, consts, tr[0])
        # a script that is shortened into one the model does not describe shows nothing
        return tr[0] if d and d[0]['at'] <= len(tr[0]['ev']) and any(x['spec_allows'] for x in d) else None
    cfg, ins = script
    tr = execute(make, [script], nproc=1, tag='min')
    rej, _ = validate(module, consts, tr)
    t = tr[0] if rej else None
    if t is None:
        return None, script
    n = len(t['ev'])
    dg = diagnose(module, consts, t)
    if dg and dg[0]['at'] <= len(ins):
        c = (cfg, ins[:dg[0]['at']])
        t2 = bad(c)
        if t2 is not None:
            t, ins = t2, c[1]
    step = max(1, len(ins) // 2)
    while step >= 1 and tries > 0:
        k = 0
        while k + step <= len(ins) - 1 and tries > 0:
            c = ins[:k] + ins[k + step:]
            tries -= 1
            t2 = bad((cfg, c))
            if t2 is not None:
                ins, t = c, t2
            else:
                k += step
        step //= 2
    return t, (cfg, ins)

"""The check of one property: run its models, write evidence, report."""
import importlib, json, os, random, subprocess, sys, time, traceback
from . import engine as E
from . import build as B

KNOWN = os.path.join(E.VERIF, 'known_findings.json')


class Part:
    """One model bound to the code: subclass in checks/."""
    name = None            # short name
    module = None          # TLA+ module
    has_transinv = True
    per_script = 120
    nproc = None
    confirm = True
    shrink = True       # False: steps must not be left out of a script
    mem = '8g'
    explore_timeout = 800

    def consts(self, tier):
        return {}

    def explore_consts(self, tier):
        return self.consts(tier)

    def trace_consts(self, tier):
        return self.consts(tier)

    def emit(self, tier):
        return True

    def scripts(self, tier, rng, g):
        return E.cover(g, rng=rng)

    def make(self):
        raise NotImplementedError

    def known(self, trace, diag):
        """id of a known finding this rejected trace matches, or None"""
        return None


def load_known(pid):
    if not os.path.exists(KNOWN):
        return []
    return [k for k in json.load(open(KNOWN)) if k.get('property') == pid]


def triage(p, tier, rej):
    """development aid: the distinct ways in which traces are rejected"""
    seen = {}
    for t, d in zip(rej, E.diagnose_all(p.module, p.trace_consts(tier), rej)):
        at = d[0]['at']
        e = t['ev'][at - 1] if at <= len(t['ev']) else None
        if e:
            e = {'in': {a: b for a, b in e['in'].items() if a not in ('fr', 'x')}, 'out': e['out']}
        k = json.dumps([e, [x['spec_allows'] for x in d]])
        seen.setdefault(k, []).append((t, d))
    for k, v in sorted(seen.items(), key=lambda x: -len(x[1])):
        t, d = min(v, key=lambda x: len(x[0]['ev'][:x[1][0]['at']]))
        print('--- %d x %s' % (len(v), k))
        print('    cfg %s' % json.dumps(t['cfg']))
        print('    %s' % json.dumps(t['ev'][:d[0]['at']]))
        print('    state %s' % json.dumps(d[0]['state']))


def run(pid, parts, level='model_checking', assumptions=(), setup=None):
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'events_validated': 0, 'parts': [], 'samples': []}
    viols, knowns = [], {}
    rc = 0
    only = os.environ.get('VERIF_PART')
    try:
        if setup:
            setup()
        for p in parts:
            if only and p.name not in only.split(','):
                continue
            pt = time.time()
            rng = random.Random('%s/%s/%d' % (pid, p.name, seed))
            g = E.explore(p.module, p.explore_consts(tier), emit=p.emit(tier), has_transinv=p.has_transinv,
                          timeout=p.explore_timeout, mem=p.mem)
            te = time.time()
            sc = p.scripts(tier, rng, g)
            traces = E.execute(p.make, sc, nproc=p.nproc, per_script=p.per_script, tag=p.name)
            tx = time.time()
            rej, ts = E.validate(p.module, p.trace_consts(tier), traces, mem=p.mem)
            tv = time.time()
            ev = sum(len(t['ev']) for t in traces)
            cov['states'] += g.states
            cov['transitions'] += g.transitions
            cov['traces_validated_against_impl'] += len(traces) - len(rej)
            cov['events_validated'] += ev
            cov['parts'].append({'model': p.module, 'part': p.name, 'states': g.states, 'transitions': g.transitions, 'traces': len(traces),
                                 'events': ev, 'explore_s': round(te - pt, 1), 'replay_s': round(tx - te, 1), 'validate_s': round(tv - tx, 1)})
            if traces:
                t = min(traces, key=lambda t: abs(len(t['ev']) - 6))
                cov['samples'].append({'model': p.module, 'cfg': t['cfg'], 'events': t['ev'][:12]})
            print('[%s/%s] model %s: %d states, %d transitions; %d traces, %d events, %d rejected (%.1f s)' % (
                pid, p.name, p.module, g.states, g.transitions, len(traces), ev, len(rej), time.time() - pt))
            sys.stdout.flush()
            shown = 0
            if rej and os.environ.get('VERIF_TRIAGE'):
                triage(p, tier, rej[:int(os.environ['VERIF_TRIAGE'])])
                continue
            for t in rej:
                if shown >= 2 or len(viols) >= 4:
                    break
                d = E.diagnose(p.module, p.trace_consts(tier), t)
                kid = p.known(t, d)
                if kid:
                    knowns.setdefault(kid, t)
                    continue
                script = sc[t['idx']]
                if p.confirm:
                    tt, script2 = E.minimise(p.module, p.trace_consts(tier), p.make, script, tries=14 if not viols and p.shrink else 0)
                    if tt is None:
                        print('[%s/%s] a rejected trace was accepted when replayed (not reported): script %d' % (pid, p.name, t['idx']))
                        continue
                    t, script = tt, script2
                    d = E.diagnose(p.module, p.trace_consts(tier), t)
                os.makedirs(os.path.join(E.VERIF, 'replays'), exist_ok=True)
                path = os.path.join(E.VERIF, 'replays', '%s_%s_%d.json' % (pid, p.name, len(viols) + 1))
                json.dump({'property': pid, 'part': p.name, 'module': p.module, 'cfg': t['cfg'], 'inputs': script[1], 'trace': t['ev'],
                           'rejected_at': d, 'crash': t.get('crash')}, open(path, 'w'), indent=1)
                viols.append(path)
                shown += 1
                at = d[0]['at'] if d else 0
                e = t['ev'][at - 1] if d and at <= len(t['ev']) else None
                print('  cfg %s; step %d of the trace is not a step of the specification: %s\n  specification allows: %s' % (
                    json.dumps(t['cfg']), at, json.dumps(e)[:600], json.dumps([x['spec_allows'] for x in d])[:600] if d else '?'))
                print('VIOLATION property=%s replay=%s' % (pid, path))
                sys.stdout.flush()
        for kid in knowns:
            print('KNOWN-FINDING: property=%s %s' % (pid, kid))
        rc = 1 if viols else 0
    except (E.ToolError, B.BuildError) as ex:
        print('ERROR property=%s %s' % (pid, ex))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    if not cov['samples']:
        cov['samples'] = ['none']
    os.makedirs(os.path.join(E.VERIF, 'evidence'), exist_ok=True)
    json.dump({'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': level, 'coverage': cov,
               'assumptions': list(assumptions), 'wall_s': round(time.time() - t0, 1), 'violations': len(viols)},
              open(os.path.join(E.VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    sys.stdout.flush()
    return rc

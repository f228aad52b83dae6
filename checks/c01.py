"""C01: the handshake accepts exactly the message flow of the protocol from a peer that proves itself."""
import random
from lib import engine as E, hitls as H, peer as P, runner as R, tls as T, tlsref as X
from lib.hitls import K, L


class Drv:
    def reset(self, cfg):
        self.cfg = cfg
        kind = {'12': 'tls12', '13': 'tls13', 'tlcp': 'tlcp'}[cfg['proto']]
        srv = cfg['role'] == 'srv'
        self.rnd = random.Random('%s' % sorted(cfg.items()))
        alg = cfg['alg']
        c = T.std_config(kind, srv, alg, srv and cfg['auth'] != 'none' or not srv and cfg['cert'])
        if not srv:
            c.trust('ec_ca', 'ec_int') if kind != 'tlcp' and alg != 'ec' else None
        elif kind != 'tlcp' and alg != 'ec':
            c.trust('ec_ca', 'ec_int')
        c.suites([cfg['suite'], P.ALT13[cfg['suite']]] if kind == 'tls13' and cfg['alt'] else [cfg['suite']])
        if srv:
            c.call('SetClientVerifySupport', cfg['auth'] != 'none')
            c.call('SetNoClientCertSupport', cfg['auth'] == 'opt')
        if kind == 'tls12':
            c.call('SetEncryptThenMac', cfg['etm'])
            c.call('SetExtendedMasterSecretMode', 0)
            c.groups([cfg['group'], 52 - cfg['group'], P.SECP384])
            c.call('SetSessionTicketSupport', cfg['ticket'])
        if kind == 'tls13':
            if srv:
                c.call('SetTicketNums', 2 if cfg['ticket'] else 0)
            if cfg['hrr'] and srv:
                c.groups([P.X25519 if cfg['group'] != P.SECP256 else P.SECP256])
            elif not srv:
                c.groups([P.SECP384, cfg['group']] if cfg['hrr'] else [cfg['group'], P.SECP384])
        self.conf = c
        self.e = T.End(c, not srv)
        opt = dict(kind=kind, suite=cfg['suite'], alg=alg, auth=cfg.get('auth'), group=cfg['group'], ticket=cfg['ticket'], hrr=cfg['hrr'], ems=cfg['ems'], etm=cfg['etm'],
                   sut_cert=None if kind == 'tlcp' else (alg + ('_srv' if srv else '_cli')) if srv or cfg['cert'] else None)
        self.p = P.Peer(not srv, opt, seed=cfg.get('salt', 0))
        self.isup = False
        self.held = b''

    def close(self):
        self.e.free()
        self.conf.free()

    def pump(self):
        """let the library run; (names, status, alert)"""
        self.p.alert = None
        n, st = self.pump1()
        n = [x for x in n if x[0] != 'A']
        return n, st, list(self.p.alert or [])

    def pump1(self):
        names = []
        for _ in range(8):
            if not self.isup:
                r = self.e.hs()
                names += self.p.feed(self.e.take())
                if r == 0:
                    self.isup = True
                    return names, 'up'
                if not T.again(r):
                    return names, 'dead'
                if not self.e.rx:
                    return names, 'wait'
            else:
                r, d = self.e.read(100)
                names += self.p.feed(self.e.take())
                if r == 0:
                    return names, 'data' if d == b'hello' else 'baddata'
                if T.again(r):
                    return names, 'wait'
                return names, 'closed' if r == K.HITLS_CM_LINK_CLOSED else 'dead'
        return names, 'loop'

    def do(self, i):
        if i['op'] == 'start':
            return list(self.pump())
        fr = i.get('fr', 'whole')
        self.p.frame[0] = fr
        try:
            b = self.p.build(i['m'], i['v'], i.get('x', False))
        except Exception as ex:
            return [['?the peer cannot go on: %r' % ex], 'dead', []]
        if b is None:
            return None
        if fr == 'hold':
            return [[], 'wait', []]
        if fr == 'cut':
            # the bytes arrive in pieces
            n = []
            k = self.rnd.choice([1, 2, 4, 5, 6, 9, max(1, len(b) // 2), len(b) - 1])
            k = max(1, min(k, len(b) - 1))
            self.e.give(b[:k])
            n, st, al = self.pump()
            if n or al or st != 'wait':
                if st == 'dead':
                    return [n, st, al]
                return [['early'] + n, st, al]
            b = b[k:]
        self.e.give(b)
        return list(self.pump())


SUITES12 = [(0xC02B, 'ec', 'ecdhe'), (0xC02C, 'ec', 'ecdhe'), (0xCCA9, 'ec', 'ecdhe'), (0xC023, 'ec', 'ecdhe'), (0xC02F, 'rsa', 'ecdhe'), (0xC027, 'rsa', 'ecdhe')]
HS = {'HR', 'CH', 'SH', 'NST', 'EE', 'CERT', 'SKE', 'CR', 'SHD', 'CV', 'CKE', 'FIN', 'KU', 'EOED', 'HRR'}
OTHERS = {'HR', 'CH', 'SH', 'NST', 'EE', 'CERT', 'SKE', 'CR', 'SHD', 'CV', 'CKE', 'FIN', 'KU', 'CCS', 'DATA', 'EOED'}


def configs():
    out = []
    for role in ('srv', 'cli'):
        for proto, kxs in (('12', ['ecdhe', 'rsa']), ('13', ['ecdhe']), ('tlcp', ['ecc'])):
            for kx in kxs:
                for auth in (('none', 'opt', 'req') if role == 'srv' else ('none',)):
                    for cert in ((False,) if role == 'srv' else (False, True)):
                        for ticket in (False, True) if proto != 'tlcp' and not (proto == '13' and role == 'cli') else (False,):
                            for hrr in (False, True) if proto == '13' and role == 'srv' else (False,):
                                out.append(dict(proto=proto, role=role, kx=kx, auth=auth, cert=cert, ticket=ticket, hrr=hrr, res=False))
    return out


class Flow(R.Part):
    module = 'Hs'
    name = 'flow'
    shrink = False

    def consts(self, tier):
        return {'Configs': E.tla('{' + ', '.join(E.tla_value(c) for c in configs()) + '}'), 'Others': OTHERS}

    def scripts(self, tier, rng, g):
        out = []
        edges = {}
        for fp, es in g.edges.items():
            for i, o, t in es:
                edges.setdefault(fp, {}).setdefault(E.key(i), []).append((o, t))
        inits = {E.key(c): fp for c, fp in g.inits}
        for n, (c, ins) in enumerate(E.cover(g, rng=rng, maxlen=2)):
            d = dict(c, salt=n, etm=rng.random() < 0.5, ems=rng.random() < 0.8, alt=rng.random() < 0.7 or any(i.get('v') == 'newsuite' for i in ins), group=rng.choice([29, 29, 29, 23]))
            if c['proto'] == '12':
                s, a, _ = rng.choice(SUITES12) if c['kx'] == 'ecdhe' else rng.choice([(0x009C, 'rsa', 0), (0x003D, 'rsa', 0)])
            elif c['proto'] == '13':
                s, a = rng.choice([0x1301, 0x1302, 0x1303, 0x1304]), rng.choice(['ec', 'ec', 'rsa'])
            else:
                s, a = rng.choice([0xE013, 0xE053]), 'sm2'
            d.update(suite=s, alg=a)
            ins2 = [dict(i, fr=rng.choice(['whole', 'whole', 'cut', 'frag'])) for i in ins]
            fp = inits[E.key(c)]
            for k, i in enumerate(ins[:-1]):
                if len(edges.get(fp, {}).get(E.key(i), ())) != 1:
                    break
                o, t = edges[fp][E.key(i)][0]
                j = ins[k + 1]
                if (o == [[], 'wait', []] and i['m'] in HS and not i.get('x') and i['v'] == 'ok' and not (c['proto'] == '13' and i['m'] in ('SH', 'HRR', 'FIN'))
                        and j['m'] in HS and j['v'] not in ('plain', 'joined') and not (c['proto'] == '13' and j['m'] in ('SH', 'HRR')) and rng.random() < 0.4):
                    ins2[k]['fr'] = 'hold'
                    if ins2[k + 1]['fr'] == 'cut':
                        ins2[k + 1]['fr'] = 'whole'
                fp = t
            out.append((d, ins2))
        return out

    def make(self):
        return Drv()


PARTS = [Flow()]


def setup():
    H.init([__file__, T.__file__])
    T.setup()


def main():
    return R.run('C01', PARTS, setup=setup)

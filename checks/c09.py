"""C09: changing keys on a live connection: key updates of TLS 1.3, renegotiation before."""
import ctypes as ct, random, copy
from lib import engine as E, hitls as H, peer as P, runner as R, tls as T, tlsref as X
from lib.hitls import K, L
from checks import c03
#K: HITLS_CM_LINK_UNSUPPORT_SECURE_RENEGOTIATION HITLS_MSG_HANDLE_STATE_ILLEGAL HITLS_MSG_HANDLE_ILLEGAL_KEY_UPDATE_TYPE HITLS_MSG_HANDLE_UNSUPPORT_VERSION


class Slots(T.End):
    """an endpoint whose transport can take a number of records only"""
    slots = None

    def io_write(self, b, out):
        if self.slots is not None:
            self.room = None if self.slots > 0 else 0
            self.slots -= self.slots > 0
        return super().io_write(b, out)


class Drv:
    """cfg: kind, auto, suite, swap, ref, salt"""

    def reset(self, cfg):
        self.cfg = cfg
        self.rnd = random.Random(str(sorted(cfg.items())))
        kind, suite = cfg['kind'], cfg['suite']
        alg = 'sm13' if suite in (0xC6, 0xC7) else 'ec'
        self.cc = T.std_config(kind, False, alg)
        self.sc = T.std_config(kind, True, alg)
        for c in (self.cc, self.sc):
            c.suites([suite])
            if cfg['auto']:
                c.call('SetAutoKeyUpdateSupport', True)
        self.c, self.s = Slots(self.cc, True), Slots(self.sc, False)
        rc, rs = T.handshake(self.c, self.s)
        self.up = rc == 0 and rs == 0
        if not self.up:
            return
        for e, o in ((self.c, self.s), (self.s, self.c)):
            r, d = e.read(1)
            self.up = self.up and T.again(r)
            o.give(e.take())
        self.e = {'a': self.s, 'b': self.c} if cfg.get('swap') else {'a': self.c, 'b': self.s}
        self.wire = {'a': [], 'b': []}
        self.carry = {'a': b'', 'b': b''}
        self.sent = {'a': [], 'b': []}        # data records on the wire, in order
        self.asked = {'a': [], 'b': []}       # data given to write, in order
        self.got = {'a': 0, 'b': 0}
        self.pw = {'a': None, 'b': None}
        self.tap = {}
        self.exp = self.e['a'].export()
        for k, e in self.e.items():
            self.tap[k] = X.Tap(kind, e, self.e['b' if k == 'a' else 'a'], e.client)
            if any(x[1] is None for x in self.tap[k].feed(e.log)):
                self.up = False
        self.old = None
        if cfg['auto']:
            n = LIMIT[suite] - cfg['auto'] - self.tap['a'].k.seq
            a, b = self.e['a'], self.e['b']
            for _ in range(n):
                r, _n = a.write(b'x')
                w = a.take()
                x = self.tap['a'].feed(w)
                b.give(w)
                r2, d = b.read(9)
                if r or r2 or d != b'x' or x != [(23, b'x')]:
                    self.up = False
                    return

    def close(self):
        for x in (self.c, self.s, self.cc, self.sc):
            x.free()

    def flush(self, e):
        """what the endpoint has written since: names of its records, under the keys they have to be under"""
        rs, self.carry[e] = X.records(self.carry[e] + self.e[e].take())
        out = []
        self.alert = None
        for r in rs:
            x = self.tap[e].feed(r)[0]
            if x[1] is None:
                out.append('unreadable')
            elif x[0] == 23:
                n = len(self.sent[e])
                if n < len(self.asked[e]) and x[1] == self.asked[e][n]:
                    out.append('d')
                else:
                    out.append('wrong data')
                self.sent[e].append(x[1])
            elif x[0] == 22:
                out += [{b'\x18\0\0\x01\0': 'ku0', b'\x18\0\0\x01\x01': 'ku1'}.get(x[1], 'handshake message')]
            elif x[0] == 21:
                if x[1][:1] == b'\x02':
                    self.alert = x[1][1]
                    continue
                out.append('alert')
            else:
                out.append('record %d' % x[0])
            self.wire[e].append(r)
        return out

    def room(self, e, room):
        x = self.e[e]
        x.slots = {'all': None, 'none': 0, 'one': 1, 'part': None}[room]
        x.room = self.rnd.choice([1, 4, 5, 20]) if room == 'part' else None

    def unroom(self, e):
        self.e[e].slots = self.e[e].room = None

    def do(self, i):
        if not self.up:
            return ['no connection']
        op, e = i['op'], i['c']
        x = self.e[e]
        o = 'b' if e == 'a' else 'a'
        ref = self.cfg.get('ref') and e == 'a'
        if op == 'deliver':
            if not self.wire[e]:
                return None
            self.e[o].give(self.wire[e].pop(0))
            return []
        if op == 'put':
            return self.put(i['k'])
        if ref:
            return None
        if op == 'write':
            if self.pw[e] is None:
                b = self.rnd.randbytes(self.rnd.choice([1, 2, 5, 17, 100]))
                self.pw[e] = (H.buf(b), len(b))
                self.asked[e].append(b)
            b, n = self.pw[e]
            l = ct.c_uint32()
            self.room(e, i['room'])
            r = L.HITLS_Write(x.ctx, b, n, ct.byref(l))
            self.unroom(e)
            out = self.flush(e)
            c = self.code(r)
            if c == 'again':
                return [c, out]
            self.pw[e] = None
            if c == 'ok' and (l.value != n or len(self.sent[e]) != len(self.asked[e])):
                return ['half', out]
            return [c, out] if self.alert is None else ['fatal', out, self.alert]
        if op == 'read':
            self.room(e, i['room'])
            r, d = x.read(4096)
            self.unroom(e)
            out = self.flush(e)
            if self.alert is not None:
                return ['fatal', out, self.alert]
            if r == 0:
                g = self.got[e]
                self.got[e] += 1
                return ['data' if g < len(self.sent[o]) and self.sent[o][g] == d else 'wrong data', out]
            if r == K.HITLS_REC_NORMAL_IO_BUSY:
                return ['busy', out]
            return [self.code(r), out]
        if op == 'ku':
            r = L.HITLS_KeyUpdate(x.ctx, i['t'] if i['t'] < 2 else self.rnd.choice([2, 3, 255, 256, 257]))
            if x.tx:
                return ['wrote']
            return [{0: 'ok', K.HITLS_MSG_HANDLE_STATE_ILLEGAL: 'state', K.HITLS_MSG_HANDLE_ILLEGAL_KEY_UPDATE_TYPE: 'param',
                     K.HITLS_MSG_HANDLE_UNSUPPORT_VERSION: 'unsupported'}.get(r, hex(r))]
        if op == 'type':
            return ['type', L.HITLS_GetKeyUpdateType(x.ctx)]
        if op == 'export':
            return ['same' if x.export() == self.exp else 'other']
        raise ValueError(op)

    def code(self, r):
        return 'ok' if r == 0 else 'again' if T.again(r) else 'dead' if r in (K.HITLS_CM_LINK_FATAL_ALERTED, K.HITLS_CM_LINK_CLOSED) else 'err'

    def put(self, k):
        t = self.tap['a'].k
        KU = lambda n: b'\x18\0\0\x01' + bytes([n])
        rs = []
        def ku(n, b=None):
            rs.append(t.seal(22, b or KU(n)))
            self.old = copy.copy(t)
            t.update()
        if k == 'd':
            d = self.rnd.randbytes(9)
            self.sent['a'].append(d)
            rs.append(t.seal(23, d))
        elif k in ('ku0', 'ku1'):
            ku(k == 'ku1')
        elif k in ('split', 'split1'):
            m = KU(k == 'split1')
            c = self.rnd.choice([1, 2, 3, 4])
            rs.append(t.seal(22, m[:c]))
            ku(0, m[c:])
            rs = [b''.join(rs)]
        elif k == 'splitd':
            rs = [t.seal(22, KU(0)[:3]) + t.seal(23, b'zz') + t.seal(22, KU(0)[3:])]
        elif k == 'old':
            if self.old is None:
                return None
            rs.append(self.old.seal(23, b'old'))
        elif k == 'new':
            t.update()
            rs.append(t.seal(23, b'new'))
        elif k == 'kubad':
            ku(0, KU(self.rnd.choice([2, 3, 0x80, 255])))
        elif k == 'kulong':
            ku(0, b'\x18\0\0\x02\0\0')
        elif k == 'kuempty':
            ku(0, b'\x18\0\0\0')
        elif k == 'kuku':
            ku(0, KU(0) + KU(0))
        elif k == 'kutail':
            ku(0, KU(self.rnd.choice([0, 1])) + b'\x18\0\0')
        elif k == 'hr':
            rs.append(t.seal(22, b'\0\0\0\0'))
        elif k == 'fin':
            rs.append(t.seal(22, b'\x14\0\0\x20' + bytes(32)))
        elif k == 'creq':
            rs.append(t.seal(22, b'\x0d\0\0\x0b\0' + b'\0\x08\0\x0d\0\x04\0\x02\x04\x03'))
        elif k == 'ee':
            rs.append(t.seal(22, b'\x08\0\0\2\0\0'))
        elif k == 'eoed':
            rs.append(t.seal(22, b'\x05\0\0\0'))
        elif k == 'ccs':
            rs.append(t.seal(20, b'\1'))
        else:
            raise ValueError(k)
        self.wire['a'] += rs
        return []


SUITES = [0x1301, 0x1302, 0x1303, 0x1304, 0x00C6]
LIMIT = {0x00C7: 1023}


class Base(R.Part):
    module = 'Rekey'
    per_script = 60
    maxlen = 14
    nwalk = {'quick': (40, 60), 'thorough': (600, 120)}

    def trace_consts(self, tier):
        return dict(self.consts(tier), MaxQ=99, MaxKU=99)

    def scripts(self, tier, rng, g):
        out = E.cover(g, maxlen=self.maxlen, rng=rng, limit=self.limit[tier]) + E.random_walks(g, *self.nwalk[tier], rng)
        res = []
        for n, (c, ins) in enumerate(out):
            d = dict(c, salt=n, swap=rng.random() < 0.5, suite=0xC02B if c['kind'] == 'tls12' else 0x00C7 if c['auto'] else rng.choice(SUITES), ref=self.ref)
            res.append((d, ins))
        return res

    def make(self):
        return Drv()


class Ku(Base):
    name = 'ku'
    ref = False
    limit = {'quick': 1500, 'thorough': None}

    def consts(self, tier):
        return {'Kinds': {'tls13'}, 'Autos': {0}, 'Actors': {'a', 'b'}, 'Ops': {'write', 'read', 'ku', 'kubad', 'type', 'export'}, 'Puts': set(),
                'Rooms': {'all', 'none', 'one', 'part'}, 'MaxKU': 2, 'MaxQ': 2}

    def explore_consts(self, tier):
        return dict(self.consts(tier), Ops={'write', 'read', 'ku'}, Rooms={'all', 'none'} if tier == 'quick' else {'all', 'none', 'one'}, MaxQ=1 if tier == 'quick' else 2)


class Auto(Base):
    """automatic updates, when the limit of a key is reached"""
    name = 'auto'
    ref = False
    limit = {'quick': 60, 'thorough': 800}
    nwalk = {'quick': (10, 30), 'thorough': (100, 60)}

    def consts(self, tier):
        return {'Kinds': {'tls13'}, 'Autos': {1, 2}, 'Actors': {'a', 'b'}, 'Ops': {'write', 'read', 'ku', 'type'}, 'Puts': set(),
                'Rooms': {'all', 'none'}, 'MaxKU': 1, 'MaxQ': 2 if tier == 'thorough' else 1}

    def explore_consts(self, tier):
        return dict(self.consts(tier), Ops={'write', 'read', 'ku'})


PUTS = {'d', 'ku0', 'ku1', 'split', 'split1', 'splitd', 'old', 'new', 'kubad', 'kulong', 'kuempty', 'kuku', 'kutail', 'hr', 'fin', 'creq', 'ee', 'eoed', 'ccs'}


class Ref(Base):
    """the peer is an independent implementation, and may misbehave"""
    name = 'peer'
    ref = True
    limit = {'quick': 800, 'thorough': None}

    def consts(self, tier):
        return {'Kinds': {'tls13'}, 'Autos': {0}, 'Actors': {'b'}, 'Ops': {'write', 'read', 'ku', 'put'}, 'Puts': PUTS,
                'Rooms': {'all', 'none'}, 'MaxKU': 1 if tier == 'quick' else 2, 'MaxQ': 1 if tier == 'quick' else 2}


class Old(Base):
    """there is no key update before TLS 1.3"""
    name = 'old'
    ref = False
    limit = {'quick': 60, 'thorough': 60}
    nwalk = {'quick': (5, 20), 'thorough': (5, 20)}

    def consts(self, tier):
        return {'Kinds': {'tls12'}, 'Autos': {0}, 'Actors': {'a', 'b'}, 'Ops': {'write', 'read', 'ku', 'kubad', 'type', 'export'}, 'Puts': set(),
                'Rooms': {'all'}, 'MaxKU': 2, 'MaxQ': 1}


# ------------------------------------------------------------------ renegotiation
class Pair:
    """two library ends. cfg: kind, sc, ss, al, salt"""

    def reset(self, cfg):
        self.rnd = random.Random(str(sorted(cfg.items())))
        kind = cfg['kind']
        alg = {'tlcp': 'sm2', 'dtlcp': 'sm2'}.get(kind, 'ec')
        self.cc, self.sc = T.std_config(kind, False, alg, cfg.get('cauth', False)), T.std_config(kind, True, alg, cfg.get('cauth', False))
        for c, on in ((self.cc, cfg['sc']), (self.sc, cfg['ss'])):
            c.suites([0xE013 if alg == 'sm2' else cfg['suite']])
            c.call('SetRenegotiationSupport', on)
            if 'ems' in cfg:
                c.call('SetExtendedMasterSecretMode', 1 if cfg['ems'] else 0) if alg == 'ec' else None
                c.call('SetEncryptThenMac', cfg['ems'])
                c.call('SetSessionTicketSupport', cfg['ticket'])
        if cfg.get('cauth'):
            self.sc.call('SetClientVerifySupport', True)
            self.sc.call('SetClientOnceVerifySupport', cfg['ticket'])
        self.sc.call('SetClientRenegotiateSupport', cfg['al'])
        self.e = {'c': T.End(self.cc, True), 's': T.End(self.sc, False)}
        self.up = T.handshake(self.e['c'], self.e['s']) == (0, 0)
        self.alg = alg
        self.data = {'c': b'', 's': b''}     # written and not read
        self.pend = {'c': None, 's': None}
        self.ep = 1
        self.keys = self.key()

    def key(self):
        return [self.e[k].export() if self.alg == 'ec' else b'' for k in 'cs']

    def close(self):
        for x in (self.e['c'], self.e['s'], self.cc, self.sc):
            x.free()

    def count(self, k):
        return len(self.e[k].keylog.get('CLIENT_RANDOM', []))

    def do(self, i):
        if not self.up:
            return ['no connection']
        op = i['op']
        if op == 'settle':
            return self.settle()
        k = i['c']
        o = 's' if k == 'c' else 'c'
        if op == 'rn':
            r = L.HITLS_Renegotiate(self.e[k].ctx)
            return [{0: 'ok', K.HITLS_CM_LINK_UNSUPPORT_SECURE_RENEGOTIATION: 'off', K.HITLS_CM_LINK_FATAL_ALERTED: 'dead', K.HITLS_CM_LINK_CLOSED: 'dead'}.get(r, 'busy')]
        if op == 'write':
            x = self.write(k)
        else:
            x = self.read(k)
        self.e[o].give(self.e[k].take())
        return [x]

    def write(self, k):
        if self.pend[k] is None:
            b = self.rnd.randbytes(self.rnd.choice([1, 5, 60, 1000]))
            self.pend[k] = (H.buf(b), b)
        h, b = self.pend[k]
        l = ct.c_uint32()
        r = L.HITLS_Write(self.e[k].ctx, h, len(b), ct.byref(l))
        if T.again(r):
            return 'again'
        self.pend[k] = None
        if r == 0:
            self.data[k] += b
            return 'ok' if l.value == len(b) else 'short'
        return 'dead' if r in (K.HITLS_CM_LINK_FATAL_ALERTED, K.HITLS_CM_LINK_CLOSED) else 'fatal'

    def read(self, k):
        o = 's' if k == 'c' else 'c'
        r, d = self.e[k].read(4096)
        if r == 0:
            if not d or not self.data[o].startswith(d):
                return 'wrong data'
            self.data[o] = self.data[o][len(d):]
            return 'data'
        if T.again(r):
            return 'again'
        return 'dead' if r in (K.HITLS_CM_LINK_FATAL_ALERTED, K.HITLS_CM_LINK_CLOSED) else 'fatal'

    def settle(self):
        bad = set()
        for n in range(14):
            for k in self.rnd.sample('cs', 2):
                o = 's' if k == 'c' else 'c'
                x = ['again']
                if self.pend[k] is not None:
                    x = [self.write(k)]
                while x[-1] not in ('dead', 'fatal', 'wrong data'):
                    x.append(self.read(k))
                    self.e[o].give(self.e[k].take())
                    if x[-1] == 'again':
                        break
                if 'wrong data' in x:
                    return ['wrong data']
                if x[-1] != 'again':
                    bad.add(k)
        if bad:
            return ['dead'] if len(bad) == 2 else ['half dead']
        d = self.count('c') - self.ep
        if self.count('s') - self.ep != d:
            return ['different']
        self.ep += d
        k, old = self.key(), self.keys
        self.keys = k
        return ['up', not self.data['c'] and not self.data['s'] and self.pend == {'c': None, 's': None}, d, k[0] == k[1],
                k != old if self.alg == 'ec' else d > 0]


class Forge:
    """cfg: role, pre, sup, al, kx, suite, alg, ems, salt"""

    def reset(self, cfg):
        self.cfg = cfg
        self.rnd = random.Random(str(sorted(cfg.items())))
        srv = cfg['role'] == 'srv'
        alg = cfg['alg']
        c = T.std_config('tls12', srv, alg, False)
        if alg != 'ec':
            c.trust('ec_ca', 'ec_int')
        c.suites([cfg['suite']])
        c.call('SetRenegotiationSupport', cfg['sup'])
        c.call('SetClientRenegotiateSupport', cfg['al'])
        c.call('SetExtendedMasterSecretMode', 0)
        c.call('SetEncryptThenMac', cfg['etm'])
        c.call('SetSessionTicketSupport', cfg['ticket'])
        if not srv:
            c.call('SetLegacyRenegotiateSupport', True)
        self.conf = c
        self.e = T.End(c, not srv)
        self.p = P.Peer(not srv, dict(kind='tls12', suite=cfg['suite'], alg=alg, auth='none', group=29, ticket=cfg['ticket'], hrr=False, ems=cfg['ems'], etm=cfg['etm'],
                                      sut_cert=alg + '_srv' if srv else None), seed=cfg['salt'])
        self.srv = srv
        self.isup = False
        self.dead = False
        self.p.ri = None if cfg['pre'] in ('none', 'scsv') else b''
        self.p.scsv = cfg['pre'] == 'scsv'
        if not srv and cfg['pre'] == 'scsv':
            self.p.ri = b''
        self.p.scsv = self.p.scsv and srv
        if not srv:
            self.pump()
        self.up = self.hs()
        self.prev = {}

    def close(self):
        self.e.free()
        self.conf.free()

    def pump(self):
        names = []
        for _ in range(8):
            if not self.isup:
                r = self.e.hs()
                names += self.p.feed(self.e.take())
                if r == 0:
                    self.isup = True
                    break
            else:
                r, d = self.e.read(100)
                names += self.p.feed(self.e.take())
                if r == 0:
                    names.append('data' if d == b'hello' else 'wrong data')
            if r and not T.again(r):
                self.dead = True
                break
            if not self.e.rx:
                break
        return names

    def send(self, m, v='ok'):
        self.e.give(self.p.build(m, v))
        return self.pump()

    def hs(self):
        """the rest of a handshake from the peer's first message on"""
        kx = self.p.kx
        ticket = []
        if self.srv:
            n = self.send('CH')
            if 'SHD' not in n:
                return False
            for m in ('CKE', 'CCS', 'FIN'):
                n = self.send(m)
        else:
            ms = ['SH', 'CERT'] + (['SKE'] if kx == 'ecdhe' else []) + ['SHD']
            for m in ms:
                n = self.send(m)
                if self.dead:
                    return False
            if self.cfg['ticket'] and 35 in self.p.sh_ext:
                self.send('NST')
            for m in ('CCS', 'FIN'):
                n = self.send(m)
        return self.p.fin_seen and not self.dead and not any('?' in x for x in n) and (self.isup or not self.srv)

    def alive(self):
        n = self.send('DATA')
        if n != ['data']:
            return False
        r, _ = self.e.write(b'world')
        x = self.p.feed(self.e.take())
        ok = r == 0 and x == ['DATA'] and self.p.appdata == b'world'
        self.p.appdata = b''
        return ok

    def do(self, i):
        if not self.up:
            return ['no connection']
        p = self.p
        if self.dead:
            n = self.pump()
            return ['dead', True, bool(n)]
        p.alert = None
        p.post = True
        f = p.fins
        old = dict(f)
        if i['by'] == 'lib':
            r = L.HITLS_Renegotiate(self.e.ctx)
            if r:
                return ['off' if r == K.HITLS_CM_LINK_UNSUPPORT_SECURE_RENEGOTIATION else hex(r), True, self.alive()]
        p.renew()
        n = self.pump()
        v = i['v']
        good = f['c'] if self.srv else f['c'] + f['s']
        wrong = f['s'] if self.srv else f['s'] + f['c']
        flip = bytearray(good)
        k = self.rnd.randrange(len(good))
        if v == 'flip1':
            k = self.rnd.randrange(12)
        elif v == 'flip2' and not self.srv:
            k = 12 + self.rnd.randrange(12)
        flip[k] ^= 1 << self.rnd.randrange(8)
        p.scsv = False
        p.ri = {'ok': good, 'missing': None, 'scsv': None, 'okscsv': good, 'empty': b'', 'flip1': bytes(flip), 'flip2': bytes(flip), 'swap': wrong,
                'cut': good[:self.rnd.choice([1, 11, len(good) - 1, len(good) // 2])], 'long': good + b'\0', 'both': f['c'] + f['s'] if self.srv else f['c'],
                'zero': bytes(len(good)), 'prev': self.prev.get('c' if self.srv else 'x', b'') or bytes(12)}[v]
        if v == 'prev' and not self.srv:
            p.ri = self.prev['c'] + self.prev['s'] if self.prev else f['c'] + bytes(12)
        if v in ('scsv', 'okscsv'):
            if self.srv:
                p.scsv = True
            else:
                p.ri = None if v == 'scsv' else b'\0' * 24
        lib = True
        if self.srv:
            if i['by'] == 'lib' and n != ['HR']:
                return ['no request', True, True]
            n = self.send('CH')
            if 'SHD' in n:
                lib = p.sh_ext.get(0xff01) == P.v8(f['c'] + f['s'])
        else:
            if i['by'] == 'peer':
                n = self.send('HR')
            if 'CH' in n:
                lib = p.ch_ext.get(0xff01) == P.v8(f['c']) and 0xff not in p.ch_suites
        if p.alert == (1, 100):
            if not self.dead:
                return ['warned', lib, self.alive()]
        if not (self.dead or p.alert):
            if self.srv:
                for m in ('CKE', 'CCS', 'FIN'):
                    n += self.send(m)
            else:
                for m in ['SH', 'CERT'] + (['SKE'] if p.kx == 'ecdhe' else []) + ['SHD']:
                    n += self.send(m)
                    if self.dead or p.alert:
                        break
                if not (self.dead or p.alert):
                    if self.cfg['ticket'] and 35 in p.sh_ext:
                        n += self.send('NST')
                    for m in ('CCS', 'FIN'):
                        n += self.send(m)
        if self.dead or p.alert:
            return ['refused' if self.dead and p.alert and p.alert[0] == 2 else 'broken', lib, False]
        if any('?' in x for x in n) or not p.fin_seen:
            return ['?' + ' '.join(n), lib, False]
        self.prev = old
        return ['up', lib, self.alive()]


def tset(cs):
    return E.tla('{' + ', '.join(E.tla_value(c) for c in cs) + '}')


class Reneg(R.Part):
    module = 'Reneg'
    name = 'reneg'
    per_script = 20

    def consts(self, tier):
        return {'Configs0': tset([dict(part='pair', kind=k, sc=a, ss=b, al=x) for k in ('tls12', 'tlcp', 'dtls12') for a in (True, False) for b in (True, False) for x in (True, False)]),
                'Ops': set(), 'Ris': set(), 'MaxQ': 99, 'MaxEp': 99}

    def explore_consts(self, tier):
        return dict(self.consts(tier), MaxQ=1, MaxEp=1 if tier == 'quick' else 2)

    def scripts(self, tier, rng, g):
        q = tier == 'quick'
        out = E.cover(g, maxlen=14, rng=rng, limit=250 if q else 3000) + E.random_walks(g, 100 if q else 1500, 40, rng)
        res = []
        for n, (c, ins) in enumerate(out):
            d = dict(c, salt=n, suite=rng.choice([0xC02B, 0xCCA9, 0xC023]), ems=rng.random() < 0.5, ticket=rng.random() < 0.5, cauth=rng.random() < 0.3)
            if d['kind'] == 'dtls12' and d['suite'] == 0xCCA9:
                d['suite'] = 0xC02B
            res.append((d, ins + [{'op': 'settle'}]))
        return res

    def make(self):
        return Pair()


RIS = {'ok', 'missing', 'scsv', 'okscsv', 'empty', 'flip1', 'flip2', 'swap', 'cut', 'long', 'both', 'zero', 'prev'}


class ForgeP(R.Part):
    module = 'Reneg'
    name = 'forge'
    per_script = 10

    def consts(self, tier):
        return {'Configs0': tset([dict(part='forge', role=r, pre=p, sup=s, al=x) for r in ('srv', 'cli') for p in ('ri', 'scsv', 'none') for s in (True, False)
                                  for x in ((True, False) if r == 'srv' else (True,))]),
                'Ops': set(), 'Ris': RIS, 'MaxQ': 99, 'MaxEp': 2 if tier == 'quick' else 3}

    def scripts(self, tier, rng, g):
        out = E.cover(g, maxlen=3, rng=rng, limit=None if tier == 'thorough' else 400)
        res = []
        for n, (c, ins) in enumerate(out * (1 if tier == 'quick' else 4)):
            s, a = rng.choice([(0xC02B, 'ec'), (0xC02C, 'ec'), (0xCCA9, 'ec'), (0xC023, 'ec'), (0xC02F, 'rsa'), (0x009C, 'rsa'), (0x003D, 'rsa')])
            res.append((dict(c, salt=n, suite=s, alg=a, ems=rng.random() < 0.5, etm=rng.random() < 0.5, ticket=rng.random() < 0.5), ins))
        return res

    def make(self):
        return Forge()



PARTS = [Ku(), Auto(), Ref(), Old(), Reneg(), ForgeP()]


def setup():
    H.init([__file__, T.__file__, c03.__file__])
    T.setup()


def main():
    return R.run('C09', PARTS, setup=setup)

"""C05: DTLS handshakes over a lossy, duplicating, reordering, re-fragmenting network."""
import ctypes as ct, random
from lib import engine as E, hitls as H, runner as R, tls as T
from lib.hitls import K, L
#K: BSL_SAL_TIME_GET_BSL_TIME_CB_FUNC HITLS_MSG_HANDLE_DTLS_RETRANSMIT_NOT_TIMEOUT HITLS_REC_NORMAL_RECV_DISORDER_MSG


class BslTime(ct.Structure):
    _fields_ = [('year', ct.c_uint16), ('month', ct.c_uint8), ('day', ct.c_uint8), ('hour', ct.c_uint8), ('minute', ct.c_uint8), ('ms', ct.c_uint16),
                ('sec', ct.c_uint8), ('us', ct.c_uint16)]


NOW = [0.0]


@ct.CFUNCTYPE(ct.c_int32, ct.POINTER(BslTime))
def clock(p):
    t, s = p[0], NOW[0]
    t.year, t.month, t.day, t.hour, t.minute, t.sec, t.ms, t.us = 2026, 6, 1 + int(s // 86400), int(s // 3600 % 24), int(s // 60 % 60), int(s % 60), int(s * 1000 % 1000), 0
    return 0


HSN = {1: 'CH', 2: 'SH', 3: 'HV', 4: 'TK', 11: 'CT', 12: 'KX', 13: 'CR', 14: 'DN', 15: 'CV', 16: 'KX'}
# per shape: kind, alg, verify client, cookie, suites
SHAPES = {'full': ('dtls12', 'ec', False, False, [0xC02B, 0xCCA9, 0xC023, 0xC009]), 'rsa': ('dtls12', 'rsa', False, False, [0x009C, 0x002F]), 'tlcp': ('dtlcp', 'sm2', False, False, [0xE053, 0xE013]),
          'cookie': ('dtls12', 'ec', False, True, [0xC02C]), 'mutual': ('dtls12', 'ec', True, False, [0xC02B]), 'resume': ('dtls12', 'ec', False, False, [0xC02B])}
FLIGHTS = {'full': ['1CH', '2SH 2CT 2KX 2DN', '3KX 3CC 3FN', '4TK 4CC 4FN'], 'rsa': ['1CH', '2SH 2CT 2DN', '3KX 3CC 3FN', '4TK 4CC 4FN'],
           'tlcp': ['1CH', '2SH 2CT 2KX 2DN', '3KX 3CC 3FN', '4CC 4FN'], 'cookie': ['1CH', '2HV', '3CH', '4SH 4CT 4KX 4DN', '5KX 5CC 5FN', '6TK 6CC 6FN'],
           'mutual': ['1CH', '2SH 2CT 2KX 2CR 2DN', '3CT 3KX 3CV 3CC 3FN', '4TK 4CC 4FN'], 'resume': ['1CH', '2SH 2CC 2FN', '3CC 3FN']}


def configs(kind, alg, vc, cookie, suites, flight=True):
    cc, sc = T.std_config(kind, False, alg, vc), T.std_config(kind, True, alg, vc)
    for c in (cc, sc):
        if suites:
            c.suites(suites)
        c.call('SetFlightTransmitSwitch', flight)
    sc.call('SetDtlsCookieExchangeSupport', cookie)
    return cc, sc


class Drv:
    """cfg: shape, suite, flight (one datagram per flight or per record)"""

    def reset(self, cfg):
        self.cfg = cfg
        self.rnd = random.Random(str(sorted(cfg.items())))
        NOW[0] = 0
        self.now = {'c': 0, 's': 0}     # each endpoint has its own clock
        L.BSL_SAL_CallBack_Ctrl(K.BSL_SAL_TIME_GET_BSL_TIME_CB_FUNC, ct.cast(clock, ct.c_void_p))
        kind, alg, vc, cookie, suites = SHAPES[cfg['shape']]
        self.cc, self.sc = configs(kind, alg, vc, cookie, [cfg.get('suite', suites[0])], cfg.get('flight', True))
        self.sess = None
        if cfg['shape'] == 'resume':
            c, s = T.End(self.cc, True), T.End(self.sc, False)
            ok = T.handshake(c, s)
            c.read(1)
            self.sess = L.HITLS_GetDupSession(c.ctx)
            c.free()
            s.free()
        self.e = {'c': T.End(self.cc, True), 's': T.End(self.sc, False)}
        if self.sess:
            L.HITLS_SetSession(self.e['c'].ctx, self.sess)
        self.names = [x.split() for x in FLIGHTS[cfg['shape']]]
        self.res = {'c': None, 's': None}
        self.first = {}       # unit -> message bytes when first seen (handshake messages in the clear)
        self.frags = {}       # unit -> records of its latest transmission
        self.seqs = 1000
        self.bad = None

    def close(self):
        for e in self.e.values():
            e.free()
        if self.sess:
            L.HITLS_SESS_Free(self.sess)
        self.cc.free()
        self.sc.free()

    # ------------------------------------------------------------------ what an endpoint sent, as units
    def units(self, e, datagrams):
        out = []
        part = {}
        for d in datagrams:
            if len(d) > 1472:
                return ['datagram too long']
            while d:
                n = int.from_bytes(d[11:13], 'big')
                rec, d = d[:13 + n], d[13 + n:]
                if len(rec) < 13 + n:
                    return ['short record']
                typ, ep, body = rec[0], int.from_bytes(rec[3:5], 'big'), rec[13:]
                if typ == 22 and ep == 0:
                    while body:
                        ht, tot, seq, off, ln = body[0], int.from_bytes(body[1:4], 'big'), int.from_bytes(body[4:6], 'big'), int.from_bytes(body[6:9], 'big'), int.from_bytes(body[9:12], 'big')
                        frag, body = body[12:12 + ln], body[12 + ln:]
                        if len(frag) != ln or off + ln > tot:
                            return ['bad fragment']
                        u = self.name(e, HSN.get(ht, '?%d' % ht), seq)
                        p = part.setdefault(u, [tot, ht, seq, {}, []])
                        p[3].update(zip(range(off, off + ln), frag))
                        p[4].append(rec[:11] + (12 + ln).to_bytes(2, 'big') + rec[13:13] + bytes([ht]) + tot.to_bytes(3, 'big') + seq.to_bytes(2, 'big') + off.to_bytes(3, 'big') + ln.to_bytes(3, 'big') + frag)
                        if len(p[3]) == tot:
                            m = bytes([ht]) + tot.to_bytes(3, 'big') + seq.to_bytes(2, 'big') + bytes(p[3][k] for k in range(tot))
                            if ht == 3:     # the cookie secret may change
                                self.first[u] = m
                            if self.first.setdefault(u, m) != m:
                                return [u + ' changed']
                            self.frags[u] = p[4]
                            del part[u]
                            out.append(u)
                elif typ == 20 and ep == 0:
                    u = self.name(e, 'CC', None)
                    self.frags[u] = [rec]
                    out.append(u)
                elif typ == 22 and ep == 1:
                    u = self.name(e, 'FN', None)
                    self.frags[u] = [rec]
                    out.append(u)
                else:
                    out.append('?type %d epoch %d' % (typ, ep))
        return out + [u + ' incomplete' for u in part]

    def name(self, e, k, seq):
        """the unit of that kind; the two ClientHellos differ in their sequence number"""
        c = [u for n, f in enumerate(self.names) for u in f if (n % 2 == 0) == (e == 'c') and u[1:] == k]
        if len(c) > 1 and seq is not None:
            c = [c[min(seq, len(c) - 1)]]
        return c[0] if c else '?' + k

    # ------------------------------------------------------------------ stepping an endpoint
    def run(self, e):
        x = self.e[e]
        NOW[0] = self.now[e]
        idle = 0
        for _ in range(5000):
            r = x.hs() if self.res[e] != 0 else x.read(1)[0]
            if self.res[e] != 0:
                self.res[e] = r
                if r == 0:
                    idle = 0
                    continue
            if T.again(r) or r == K.HITLS_REC_NORMAL_RECV_DISORDER_MSG:
                idle += 1
                if not x.rx and idle > 16:
                    break
            elif r != 0:
                self.bad = 'error %x' % r
                break
        if x.alerts_tx:
            self.bad = 'alert %s' % (x.alerts_tx[-1],)
        return self.units(e, x.take())

    def st(self, e):
        return self.bad or ('done' if self.res[e] == 0 else 'wait')

    def fresh(self, r):
        """a record in the clear with another sequence number"""
        self.seqs += 1
        return r[:5] + self.seqs.to_bytes(6, 'big') + r[11:] if r[3:5] == b'\0\0' else r

    def cut(self, u, k):
        m = self.first[u]
        head, body = m[:6], m[6:]
        ver = self.frags[u][0][1:3]
        n = len(body)
        rnd = self.rnd

        def piece(a, b):
            self.seqs += 1
            p = head + a.to_bytes(3, 'big') + (b - a).to_bytes(3, 'big') + body[a:b]
            return b'\x16' + ver + b'\0\0' + self.seqs.to_bytes(6, 'big') + len(p).to_bytes(2, 'big') + p
        if k == 'part':     # everything but one byte, the same one each time
            x = sum(map(ord, u + str(self.cfg['salt']))) % n if n else 0
            return ([piece(0, x)] if x else []) + ([piece(x + 1, n)] if x + 1 < n else [])
        if n < 2:
            return [piece(0, n)]
        h = rnd.randint(1, n - 1)
        if k == 'two':
            return [piece(0, h), piece(h, n)]
        if k == 'swapped':
            return [piece(h, n), piece(0, h)]
        if k == 'overlap':
            return [piece(0, max(h, n - h)), piece(min(h, n - h), n)]
        if k == 'bytes':
            z = [piece(j, j + 1) for j in range(n)]
            rnd.shuffle(z)
            return z
        if k == 'small':
            w = rnd.choice([3, 7, 8, 9, 13, 15, 16, 17, 64, 100])
            z = [piece(j, min(n, j + w)) for j in range(0, n, w)]
            if rnd.random() < .5:
                rnd.shuffle(z)
            return z + ([z[0]] if rnd.random() < .5 else [])
        if k == 'odd':      # overlapping pieces with random ends that cover the message
            z, pos = [], 0
            while pos < n:
                a = max(0, pos - rnd.randint(0, 12))
                b = min(n, pos + rnd.randint(1, 40))
                z.append(piece(a, b))
                pos = b
            rnd.shuffle(z)
            return z
        if k == 'mixed':     # all pieces in one datagram
            return [piece(0, h) + piece(h, n)]
        raise ValueError(k)

    def junk(self, e, k):
        o = 'c' if e == 's' else 's'
        rnd = self.rnd
        ver = b'\1\1' if self.cfg['shape'] == 'tlcp' else b'\xfe\xfd'
        if k == 'noise':
            return bytes([rnd.choice([0, 1, 19, 27, 128, 255])]) + rnd.randbytes(rnd.choice([3, 12, 40]))
        if k == 'empty':
            return b''
        if k == 'app':
            return b'\x17' + ver + b'\0\1' + rnd.randbytes(2).rjust(6, b'\0') + b'\0\x20' + rnd.randbytes(32)
        if k == 'fin':      # a Finished of the next epoch that does not authenticate
            return b'\x16' + ver + b'\0\1' + bytes(5) + bytes([rnd.randrange(4)]) + b'\0\x28' + bytes(8) + rnd.randbytes(32)
        if k == 'epoch2':
            return b'\x16' + ver + b'\0\2' + bytes(6) + b'\0\x28' + rnd.randbytes(40)
        if k == 'short':
            return b'\x16' + ver + bytes(8) + b'\0\x40' + rnd.randbytes(9)
        if k == 'finflip':
            f = [r for u, rs in self.frags.items() if u.endswith('FN') and (self.who(u) == o) for r in rs]
            if not f:
                return None
            b = bytearray(f[0])
            b[rnd.randrange(13, len(b))] ^= 1 << rnd.randrange(8)
            return bytes(b)

    def who(self, u):
        return 'c' if int(u[0]) % 2 else 's'

    def do(self, i):
        op = i['op']
        if op == 'start':
            return [self.run('c'), self.st('c')] if self.res['c'] is None else None
        if self.res['c'] is None:
            return None
        e = i.get('e')
        if op == 'deliver':
            if any(u not in self.frags for u in i['us']):
                return None
            if len(i['us']) > 1 and self.cfg.get('flight', True):
                d, x = [], b''
                for u in i['us']:
                    for r in self.frags[u]:
                        if len(x) + len(r) > 1472:
                            d.append(x)
                            x = b''
                        x += self.fresh(r)
                d.append(x)
            else:
                d = [self.fresh(r) for u in i['us'] for r in self.frags[u]]
            self.e[e].give(d)
            return [self.run(e), self.st(e)]
        if op == 'frag':
            if i['us'][0] not in self.first:
                return None
            self.e[e].give(self.cut(i['us'][0], i['k']))
            return [self.run(e), self.st(e)]
        if op == 'bad':
            d = self.junk(e, i['k'])
            if d is None:
                return None
            self.e[e].give([d])
            return [self.run(e), self.st(e)]
        if op == 'timeout':
            self.now[e] += 70
            NOW[0] = self.now[e]
            r = L.HITLS_DtlsProcessTimeout(self.e[e].ctx)
            if r not in (0, K.HITLS_MSG_HANDLE_DTLS_RETRANSMIT_NOT_TIMEOUT):
                self.bad = 'timeout %x' % r
            # what would be sent in other directions later belongs to this step
            return [self.units(e, self.e[e].take()), self.st(e)]
        if op == 'settle':
            return [self.settle()]

    def settle(self):
        for _ in range(14):
            for e, o in ('cs', 'sc') * 4:
                self.run_keep(e, o)
            if self.bad:
                return self.bad
            if self.res['c'] == 0 and self.res['s'] == 0:
                break
            for e, o in ('cs', 'sc'):
                self.now[e] += 70 if self.res[e] != 0 else 1     # stay within the 240 s during which a finished end answers
                NOW[0] = self.now[e]
                if self.res[e] != 0:
                    L.HITLS_DtlsProcessTimeout(self.e[e].ctx)
                    self.e[o].give(self.e[e].take())
        if self.res['c'] != 0 or self.res['s'] != 0:
            return 'no completion'
        return agree(self.e['c'], self.e['s'])

    def run_keep(self, e, o):
        x = self.e[e]
        NOW[0] = self.now[e]
        idle = 0
        for _ in range(5000):
            r = x.hs() if self.res[e] != 0 else x.read(1)[0]
            if self.res[e] != 0:
                self.res[e] = r
                if r == 0:
                    continue
            if T.again(r) or r == K.HITLS_REC_NORMAL_RECV_DISORDER_MSG:
                idle += 1
                if not x.rx and idle > 16:
                    break
            elif r != 0:
                self.bad = 'error %x' % r
                break
        if x.alerts_tx:
            self.bad = 'alert %s' % (x.alerts_tx[-1],)
        self.e[o].give(x.take())


def agree(c, s):
    if c.version() != s.version() or c.suite() != s.suite():
        return 'different parameters'
    a, b = c.export(), s.export()
    if a is None or a != b:
        return 'different secrets'
    for x, y, d in ((c, s, b'ping-ping'), (s, c, b'pong')):
        if x.write(d) != (0, len(d)):
            return 'write failed'
        y.give(x.take())
        got = b''
        for _ in range(8):
            r, z = y.read(100)
            if r == 0:
                got += z
                break
        if got != d:
            return 'data lost'
    return 'agree'


FRAGS = {'two', 'swapped', 'overlap', 'bytes', 'small', 'odd', 'part', 'mixed'}
BADS = {'noise', 'empty', 'app', 'fin', 'epoch2', 'short', 'finflip'}


class Base(R.Part):
    module = 'Flight'

    def make(self):
        return Drv()


def dress(sc, rng, tail=True):
    out = []
    for n, (cfg, ins) in enumerate(sc):
        d = dict(cfg)
        d['suite'] = rng.choice(SHAPES[cfg['shape']][4])
        d['flight'] = rng.random() < .6
        d['salt'] = n
        ins = [x for x in ins if x['op'] != 'settle']
        out.append((d, ins + ([{'op': 'settle'}] if tail else [])))
    return out


class Net(Base):
    """every order of delivery and repetition of the messages of each flight, then a reliable network"""
    name = 'net'

    def consts(self, tier):
        return {'Shapes': set(SHAPES), 'MaxT': 1 if tier == 'quick' else 3, 'Frags': FRAGS, 'Bads': BADS, 'Ops': {'settle'}}

    def scripts(self, tier, rng, g):
        sc = E.cover(g, rng=rng, maxlen=25)
        return dress(sc, rng)


class Cut(Base):
    """fragments and junk between"""
    name = 'cut'

    def consts(self, tier):
        return {'Shapes': set(SHAPES), 'MaxT': 0, 'Frags': FRAGS, 'Bads': BADS, 'Ops': {'settle', 'frag', 'bad'}}

    def scripts(self, tier, rng, g):
        sc = E.cover(g, rng=rng, maxlen=25, limit=1500 if tier == 'quick' else None)
        return dress(sc, rng)


SHAPES13 = {'full': {}, 'rsa': {'alg': 'rsa'}, 'mutual': {'vc': True}, 'hrr': {'hrr': True}, 'cookie': {'cookie': True}, 'resume': {'res': True}, 'cid': {'cid': True}, 'pha': {'vc': True, 'hrr': True}, 'ticket0': {'tickets': 0}}
SUITES13 = [0x1301, 0x1302, 0x1303]


class LossyDrv(Drv):
    """the same from the network's point of view, for every version"""

    def reset(self, cfg):
        self.cfg = cfg
        self.rnd = random.Random(str(sorted(cfg.items())))
        NOW[0] = 0
        self.now = {'c': 0, 's': 0}
        L.BSL_SAL_CallBack_Ctrl(K.BSL_SAL_TIME_GET_BSL_TIME_CB_FUNC, ct.cast(clock, ct.c_void_p))
        self.sess = None
        if cfg['v'] == 13:
            o = SHAPES13[cfg['shape']]
            self.cc, self.sc = configs('dtls13', o.get('alg', 'ec'), o.get('vc', False), False, [cfg['suite']], cfg['flight'])
            if o.get('hrr'):
                self.cc.groups([K.HITLS_EC_GROUP_SECP256R1, K.HITLS_EC_GROUP_SECP384R1])
                self.sc.groups([K.HITLS_EC_GROUP_SECP384R1])
            if o.get('cookie'):
                self.sc.call('SetDtlsCookieExchangeSupport', True)
            if 'tickets' in o:
                self.sc.call('SetTicketNums', o['tickets'])
            if o.get('cid'):
                for c in (self.cc, self.sc):
                    c.call('SetDtlsCidSupport', True)
            res = o.get('res')
        else:
            kind, alg, vc, cookie, suites = SHAPES[cfg['shape']]
            self.cc, self.sc = configs(kind, alg, vc, cookie, [cfg['suite']], cfg['flight'])
            res = cfg['shape'] == 'resume'
        if res:
            c, s = T.End(self.cc, True), T.End(self.sc, False)
            T.handshake(c, s)
            for _ in range(6):
                c.read(1)
                s.give(c.take())
                s.read(1)
                c.give(s.take())
            self.sess = L.HITLS_GetDupSession(c.ctx)
            c.free()
            s.free()
        self.e = {'c': T.End(self.cc, True), 's': T.End(self.sc, False)}
        if cfg['v'] == 13 and SHAPES13[cfg['shape']].get('cid'):
            for e, x in self.e.items():
                n = self.rnd.choice([0, 1, 8])
                b = H.buf(self.rnd.randbytes(n) or b'x')
                assert L.HITLS_SetDtlsRecvCid(x.ctx, b, n) == 0
        if self.sess:
            L.HITLS_SetSession(self.e['c'].ctx, self.sess)
        self.res = {'c': None, 's': None}
        self.net = {'c': [], 's': []}
        self.log = []
        self.seqs = 1000
        self.bad = None

    def out(self, e, st=None):
        x = self.e[e].take()
        o = 'c' if e == 's' else 's'
        self.net[o] += x
        self.log += x
        return [str(len(x)), st or self.st(e)]

    def run(self, e):
        x = self.e[e]
        NOW[0] = self.now[e]
        idle = 0
        for _ in range(5000):
            r = x.hs() if self.res[e] != 0 else x.read(1)[0]
            if self.res[e] != 0:
                self.res[e] = r
                if r == 0:
                    idle = 0
                    continue
            if T.again(r) or r == K.HITLS_REC_NORMAL_RECV_DISORDER_MSG:
                idle += 1
                if not x.rx and idle > 12:
                    break
            elif r != 0:
                self.bad = 'error %x' % r
                break
        if x.alerts_tx:
            self.bad = 'alert %s' % (x.alerts_tx[-1],)

    def do(self, i):
        op, e = i['op'], i.get('e')
        if op == 'start':
            if self.res['c'] is not None:
                return None
            self.run('c')
            return self.out('c')
        if self.res['c'] is None:
            return None
        q = self.net.get(e)
        if op == 'deliver':
            if not q:
                return None
            j = i['j'] % len(q)
            i = dict(i, j=j)
            d = q[j] if i['keep'] else q.pop(j)
            self.e[e].give([d])
            self.run(e)
            return (i, self.out(e))
        if op == 'all':
            if not q:
                return None
            d = q[:]
            del q[:]
            if i.get('shuffle'):
                self.rnd.shuffle(d)
            self.e[e].give(d)
            self.run(e)
            return self.out(e)
        if op == 'drop':
            if not q:
                return None
            j = i['j'] % len(q)
            q.pop(j)
            return (dict(i, j=j), ['0', 'lost'])
        if op == 'lose':
            del q[:]
            return ['0', 'lost']
        if op == 'timeout':
            self.now[e] += 70 if self.res[e] != 0 else 1
            NOW[0] = self.now[e]
            r = L.HITLS_DtlsProcessTimeout(self.e[e].ctx)
            if r not in (0, K.HITLS_MSG_HANDLE_DTLS_RETRANSMIT_NOT_TIMEOUT):
                self.bad = 'timeout %x' % r
            return self.out(e)
        if op == 'forge':
            d = self.forged(e, i['k'])
            if d is None:
                return None
            self.e[e].give([d])
            self.run(e)
            return self.out(e)
        if op == 'settle':
            for e, o in ('cs', 'sc'):
                self.e[e].give(self.net[e])
                self.net[e] = []
            return ['0', self.settle()]

    def forged(self, e, k):
        rnd = self.rnd
        if k == 'flip':      # a protected record of the connection, altered
            x = [d for d in self.log[-12:] if d and (d[0] & 0xe0 == 0x20 or d[0] in (20, 21, 22, 23) and d[3:5] != b'\0\0')]
            if not x:
                return None
            b = bytearray(rnd.choice(x))
            b[rnd.randrange(max(1, len(b) - 20), len(b))] ^= 1 << rnd.randrange(8)
            return bytes(b)
        if k == 'uni':       # a unified header of DTLS 1.3 with anything behind it
            return bytes([0x20 | rnd.randrange(16) | 0x0c]) + rnd.randbytes(2) + b'\0\x20' + rnd.randbytes(32)
        if k == 'rand':
            return bytes([rnd.choice([0, 1, 19, 64, 128, 255])]) + rnd.randbytes(rnd.choice([3, 12, 40, 200]))
        if k == 'app':
            return b'\x17' + (b'\1\1' if self.cfg['shape'] == 'tlcp' else b'\xfe\xfd') + b'\0\1' + rnd.randbytes(2).rjust(6, b'\0') + b'\0\x20' + rnd.randbytes(32)
        if k == 'empty':
            return b''
        if k == 'short':
            x = [d for d in self.log[-6:] if d and d[0] in (20, 22)]
            return rnd.choice(x)[:rnd.randrange(1, 13)] if x else None


FORGED = ['flip', 'uni', 'rand', 'app', 'empty', 'short']


class Lossy(R.Part):
    """random fates for opaque datagrams, DTLS 1.3, 1.2 and DTLCP"""
    name = 'lossy'
    module = 'Lossy'

    def explore_consts(self, tier):
        return {'MaxN': 1, 'MaxQ': 2}

    def trace_consts(self, tier):
        return {'MaxN': 60, 'MaxQ': 60}

    def make(self):
        return LossyDrv()

    def scripts(self, tier, rng, g):
        out = []
        for k in range(1200 if tier == 'quick' else 12000):
            if rng.random() < .75:
                sh = rng.choice(sorted(SHAPES13))
                cfg = {'mode': 'net', 'v': 13, 'shape': sh, 'suite': rng.choice(SUITES13)}
            else:
                sh = rng.choice(sorted(SHAPES))
                cfg = {'mode': 'net', 'v': 12, 'shape': sh, 'suite': rng.choice(SHAPES[sh][4])}
            cfg.update(flight=rng.random() < .5, salt=k)
            ins = [{'op': 'start'}]
            loss, dup, late, tmo, bad = rng.choice([(0, 0, 0, 0, 0), (.3, 0, 0, .1, 0), (0, .4, .3, 0, 0), (.15, .2, .3, .1, .1), (0, 0, .7, 0, 0), (0, 0, 0, .3, .3), (.05, .1, .1, .02, .02)])
            nt = 0
            for _ in range(rng.randint(2, 30)):
                e = rng.choice('cs')
                r = rng.random()
                if r < bad:
                    ins.append({'op': 'forge', 'e': e, 'k': rng.choice(FORGED)})
                elif r < bad + tmo and nt < 6:
                    nt += 1
                    ins.append({'op': 'timeout', 'e': e})
                elif rng.random() < loss:
                    ins.append({'op': 'drop', 'e': e, 'j': rng.randrange(4)} if rng.random() < .8 else {'op': 'lose', 'e': e})
                elif rng.random() < .25:
                    ins.append({'op': 'all', 'e': e, 'shuffle': rng.random() < late})
                else:
                    ins.append({'op': 'deliver', 'e': e, 'j': rng.randrange(8) if rng.random() < late else 0, 'keep': rng.random() < dup})
            ins.append({'op': 'settle'})
            out.append((cfg, ins))
        return out


PARTS = [Net(), Cut(), Lossy()]


def setup():
    H.init([__file__, T.__file__])
    T.setup()


def main():
    return R.run('C05', PARTS, setup=setup)

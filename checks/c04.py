"""C04: DTLS/DTLCP records over a hostile datagram network: at most once, window of 64, forgeries change nothing."""
import ctypes as ct, random
from lib import engine as E, hitls as H, runner as R, tls as T
from lib.hitls import K, L
#K: HITLS_REC_NORMAL_RECV_DISORDER_MSG HITLS_CM_LINK_CLOSED HITLS_CM_LINK_FATAL_ALERTED

SUITES = {
    'dtls12': [(0xC02B, 'ec'), (0xC02C, 'ec'), (0xCCA9, 'ec'), (0xC0AC, 'ec'), (0xC023, 'ec'), (0xC009, 'ec'), (0xC024, 'ec'), (0xC02F, 'rsa'), (0x002F, 'rsa')],
    'dtlcp': [(0xE053, 'sm2'), (0xE013, 'sm2')],
    'dtls13': [(0x1301, 'ec'), (0x1302, 'ec'), (0x1303, 'ec'), (0x1304, 'ec')],
}
ALL = [{'kind': k, 'suite': s, 'alg': a} for k in ('dtls12', 'dtlcp', 'dtls13') for s, a in SUITES[k]]
ALL += [{'kind': 'dtls13', 'suite': 0x1301, 'alg': 'ec', 'cid': 1}, {'kind': 'dtls13', 'suite': 0x1303, 'alg': 'ec', 'cid': 16}]


class Entry(ct.Structure):
    _fields_ = [('val', ct.c_uint8 * 255), ('len', ct.c_uint8)]


class Drv:
    """cfg: kind, suite, alg, swap (the server sends), etm, cid"""

    def reset(self, cfg):
        self.cfg = cfg
        self.rnd = random.Random(str(sorted(cfg.items())))
        self.up = False
        kind = cfg['kind']
        self.cc = T.std_config(kind, False, cfg['alg'])
        self.sc = T.std_config(kind, True, cfg['alg'])
        for c in (self.cc, self.sc):
            c.suites([cfg['suite']])
            if kind == 'dtls12':
                c.call('SetEncryptThenMac', cfg.get('etm', True))
            if cfg.get('cid'):
                c.call('SetDtlsCidSupport', True)
        self.c, self.s = T.End(self.cc, True), T.End(self.sc, False)
        if cfg.get('cid'):
            for e, n in ((self.c, cfg['cid']), (self.s, 3)):
                if L.HITLS_SetDtlsRecvCid(e.ctx, H.buf(self.rnd.randbytes(n)), n) != 0:
                    return
        self.old = {True: [], False: []}
        rc = rs = None
        for _ in range(60):
            for e, o in ((self.c, self.s), (self.s, self.c)):
                r = e.hs() if (rc if e is self.c else rs) not in (0,) else e.read(1)[0]
                if e is self.c:
                    rc = r if rc != 0 else 0
                else:
                    rs = r if rs != 0 else 0
                t = e.take()
                self.old[e is self.c] += t
                o.give(t)
            if rc == 0 and rs == 0 and not self.c.rx and not self.s.rx:
                break
        self.up = rc == 0 and rs == 0 and not self.c.rx and not self.s.rx
        self.a, self.b = (self.s, self.c) if cfg['swap'] else (self.c, self.s)
        self.cap, self.data = [], []
        self.naive = 0

    def close(self):
        for x in (self.c, self.s, self.cc, self.sc):
            x.free()

    def drain(self, e, room=20000):
        """everything that can be read now"""
        out = []
        idle = 0
        for _ in range(1000):
            r, d = e.read(room)
            if r == 0:
                out.append(d)
                idle = 0
            elif T.again(r) or r == K.HITLS_REC_NORMAL_RECV_DISORDER_MSG:
                idle += 1            # a record of a datagram that is dropped ends a call; the next call looks at the next one
                if not e.rx and idle > 5:
                    break
            elif r == K.HITLS_CM_LINK_CLOSED:
                out.append('closed')
                e.rx = []
                break
            else:
                out.append('err %x' % r)
                break
        if e.alerts_tx and e.alerts_tx[-1] != (1, 0):
            out.append('alert %s' % (e.alerts_tx[-1],))
        return out

    def result(self, js):
        """what the receiver reads, as slot numbers"""
        rs = self.cfg.get('rs', 20000)
        got = self.drain(self.b, rs)
        out = []
        buf = b''
        for g in got:
            if isinstance(g, bytes):
                buf += g
            else:
                out.append(g)
        res = []
        while buf:
            for n, d in enumerate(self.data):
                if d and buf.startswith(d) and n + 1 in js:
                    res.append(str(n + 1))
                    buf = buf[len(d):]
                    break
            else:
                res.append('corrupt')
                break
        return res + out

    def write(self, n):
        d = self.rnd.randbytes(8) + bytes(max(0, n - 8))
        d = d[:max(n, 8)]
        r, k = self.a.write(d)
        t = self.a.take()
        if r != 0 or len(t) != 1 or k != len(d):
            return None, None
        return d, t[0]

    def do(self, i):
        if not self.up:
            return ['no connection']
        op = i['op']
        if op == 'send':
            for _ in range(i['g'] - 1):
                if self.write(8)[0] is None:
                    return ['write failed']
            if i['k'] == 'close':
                if self.a.close() != 0:
                    return ['close failed']
                t = self.a.take()
                if len(t) != 1:
                    return ['close wrote %d' % len(t)]
                self.cap.append(t[0])
                self.data.append(None)
            else:
                d, t = self.write(i['z'])
                if d is None:
                    return ['write failed']
                self.cap.append(t)
                self.data.append(d)
            return ['ok']
        if op == 'deliver':
            if any(j > len(self.cap) for j in i['js']):
                return None
            self.b.give([b''.join(self.cap[j - 1] for j in i['js'])])
            return self.result(i['js'])
        if op == 'bad':
            if i['j'] > len(self.cap):
                return None
            self.b.give([self.damage(self.cap[i['j'] - 1], i['k'])])
            return self.result([])
        if op == 'old':
            self.b.give(list(self.old[self.a is self.c]))
            r = self.result([])
            self.b.take()
            return r
        if op == 'oldback':
            self.a.give(list(self.old[self.a is not self.c]))
            r = [x for x in self.drain(self.a)]
            self.a.take()
            return [x if isinstance(x, str) else 'data' for x in r]
        if op == 'back':
            d = self.rnd.randbytes(20)
            r, k = self.b.write(d)
            if r != 0:
                return ['write failed']
            self.a.give(self.b.take())
            return ['ok'] if b''.join(x if isinstance(x, bytes) else b'?' for x in self.drain(self.a)) == d else ['lost']

    def damage(self, r, k):
        v13 = self.cfg['kind'] == 'dtls13'
        cl = 3 if (r[0] & 0x10 and v13) else 0
        if v13 and cl:
            cl = 3 if self.a is self.c else self.cfg['cid']
        hl = 5 + cl if v13 else 13
        b = bytearray(r)
        rnd = self.rnd
        bit = 1 << rnd.randrange(8)
        if k == 'body':
            b[rnd.randrange(hl, len(b))] ^= bit
        elif k == 'first':
            b[hl] ^= bit
        elif k == 'tag':
            b[-1 - rnd.randrange(min(16, len(b) - hl))] ^= bit
        elif k == 'last':
            b[-1] ^= bit
        elif k == 'type':
            if v13:
                b[0] ^= 1
            else:
                b[0] = rnd.choice([20, 21, 22, 24, 0, 255])
                if b[0] == r[0]:
                    b[0] ^= 64
        elif k == 'ver':
            b[2 if not v13 else 0] ^= 1
        elif k == 'epoch':
            if v13:
                b[0] ^= rnd.choice([1, 2, 3])
            else:
                b[3:5] = rnd.choice([0, 2, 3, 256, 0xffff]).to_bytes(2, 'big')
        elif k == 'seq':
            if v13:
                b[1 + cl + rnd.randrange(2)] ^= bit
            else:
                q = int.from_bytes(b[5:11], 'big')
                q = rnd.choice([q + 1, q + 63, q + 64, q + 100, q + 10000, 2 ** 47, 2 ** 48 - 1, max(0, q - 1), 0])
                if q == int.from_bytes(b[5:11], 'big'):
                    q += 1
                b[5:11] = q.to_bytes(6, 'big')
        elif k == 'cut':
            del b[rnd.randrange(1, len(b)):]
        elif k == 'cutfix':
            n = rnd.randrange(0, len(b) - hl)
            del b[hl + n:]
            b[hl - 2:hl] = n.to_bytes(2, 'big')
        elif k == 'longfix':
            n = rnd.choice([1, 8, 16, 17])
            b += rnd.randbytes(n)
            b[hl - 2:hl] = (len(b) - hl).to_bytes(2, 'big')
        elif k == 'plain':
            t = rnd.choice([20, 21, 21, 22, 23, 23, 24, 26])
            p = {20: b'\1', 21: rnd.choice([b'\2\x28', b'\1\0', b'\2\x14', b'\1\x5a']), 22: bytes([rnd.choice([0, 1, 2, 14, 20])]) + bytes(11), 23: b'AAAA', 24: b'\1\0\1A', 26: b'\0\0'}[t]
            q = rnd.choice([0, 1, 5, 9, 1000])
            v = b'\xfe\xfd' if not self.cfg['kind'] == 'dtlcp' else b'\1\1'
            b = bytearray(bytes([t]) + v + q.to_bytes(8, 'big') + len(p).to_bytes(2, 'big') + p)
        elif k == 'junk':
            b = bytearray(rnd.randbytes(rnd.choice([1, 12, 13, 14, 40, 200])))
            b[0] |= 0x80
        elif k == 'none':
            b = bytearray()
        elif k == 'huge':
            b = bytearray(b[:hl - 2] + (0x4801).to_bytes(2, 'big') + rnd.randbytes(0x4801))
        elif k == 'mirror':
            r, n = self.b.write(b'mirror')
            b = bytearray(self.b.take()[0]) if r == 0 else bytearray()
        return bytes(b)


BADS = {'body', 'first', 'tag', 'last', 'type', 'ver', 'epoch', 'seq', 'cut', 'cutfix', 'longfix', 'plain', 'junk', 'none', 'huge', 'mirror'}


def spread(sc, rng, pick, extra):
    out = []
    for n, (cfg, ins) in enumerate(sc):
        d = dict(pick[n % len(pick)])
        d.update({'swap': rng.random() < .5, 'salt': n})
        if d['kind'] == 'dtls12':
            d['etm'] = rng.random() < .5
        d.update(extra(rng) if callable(extra) else extra)
        out.append((d, ins))
    return out


class Base(R.Part):
    module = 'Dgram'
    maxlen = 30

    def make(self):
        return Drv()


def small(rng):
    return {'rs': rng.choice([20000, 20000, 5])}


class Window(Base):
    """all delivery orders of up to MaxCap records whose distances surround the window size"""
    name = 'window'

    def consts(self, tier):
        return {'Gaps': {1, 2, 62, 63, 64, 65} if tier == 'quick' else {1, 2, 31, 32, 33, 62, 63, 64, 65, 66, 127, 128, 129}, 'MaxCap': 3, 'Bads': set(), 'Ops': {'two'} if tier != 'quick' else set(), 'Sizes': {8}}

    def scripts(self, tier, rng, g):
        sc = E.cover(g, rng=rng, maxlen=self.maxlen)
        p = [x for x in ALL if x['suite'] in (0xC02B, 0xE053, 0x1301)]
        out = []
        for k in range(1 if tier == 'quick' else 3):
            out += spread(sc, rng, p[k:] + p[:k], small)
        return out


class Attack(Base):
    """forged, damaged, repeated datagrams between the genuine ones"""
    name = 'attack'

    def consts(self, tier):
        return {'Gaps': {1, 5, 64}, 'MaxCap': 2, 'Bads': BADS, 'Ops': {'bad', 'old', 'back', 'close', 'two'}, 'Sizes': {8, 100}}

    def scripts(self, tier, rng, g):
        sc = E.cover(g, rng=rng, maxlen=self.maxlen)
        pick = ALL[:]
        rng.shuffle(pick)
        out = []
        for k in range(3 if tier == 'quick' else 30):
            out += spread(sc, rng, pick[k:] + pick[:k], small)
        return out


class Long(Base):
    """long histories with any distances, with attacks"""
    name = 'long'
    per_script = 300

    def consts(self, tier):
        return {'Gaps': {1}, 'MaxCap': 1, 'Bads': {'body'}, 'Ops': {'bad'}, 'Sizes': {8}}

    def scripts(self, tier, rng, g):
        out = []
        for k in range(600 if tier == 'quick' else 8000):
            ins, n, live = [], 0, []
            style = rng.randrange(3)
            for _ in range(rng.randint(10, 60)):
                r = rng.random()
                if r < .45 or not n:
                    gap = rng.choice([1, 1, 1, 2, 3, 7, 8, 9, 15, 16, 17, 30, 31, 32, 33, 40, 61, 62, 63, 64, 65, 66, 100, 127, 128, 129]) if style else 1
                    if rng.random() < .004:
                        gap = rng.choice([255, 256, 257, 1000, 5000])
                    ins.append({'op': 'send', 'g': gap, 'k': 'd', 'z': rng.choice([8, 16, 31, 200, 1000])})
                    n += 1
                elif r < .8:
                    j = rng.randint(max(1, n - (3 if rng.random() < .5 else 40)), n)
                    js = [j] if rng.random() < .8 else [rng.randint(max(1, n - 6), n) for _ in range(rng.randint(2, 4))]
                    ins.append({'op': 'deliver', 'js': js})
                elif r < .96:
                    ins.append({'op': 'bad', 'k': rng.choice(sorted(BADS)), 'j': rng.randint(max(1, n - 5), n)})
                elif r < .98:
                    ins.append({'op': 'back'})
                else:
                    ins.append({'op': rng.choice(['old', 'oldback'])})
            if style == 2:      # everything again, in some order
                js = list(range(1, n + 1))
                rng.shuffle(js)
                ins += [{'op': 'deliver', 'js': [j]} for j in js]
            if rng.random() < .3:
                ins.append({'op': 'send', 'g': 1, 'k': 'close', 'z': 0})
                ins += [{'op': 'bad', 'k': rng.choice(sorted(BADS - {'mirror'})), 'j': n + 1}, {'op': 'deliver', 'js': [n + 1]}, {'op': 'deliver', 'js': [n]}]
            d = dict(rng.choice(ALL))
            d.update({'swap': rng.random() < .5, 'salt': k})
            if d['kind'] == 'dtls12':
                d['etm'] = rng.random() < .5
            d.update(small(rng))
            out.append((d, ins))
        return out


class Wrap(Base):
    """DTLS 1.3: the truncated sequence number wraps between the records"""
    name = 'wrap'

    def consts(self, tier):
        return {'Gaps': {1}, 'MaxCap': 1, 'Bads': {'body'}, 'Ops': {'bad'}, 'Sizes': {8}}

    def scripts(self, tier, rng, g):
        out = []
        for k in range(8 if tier == 'quick' else 100):
            ins, n, q, due = [], 0, 0, []
            edge = rng.choice([65536, 65536, 131072]) if k % 4 else 65536
            for z in range(20):
                left = edge - q
                gap = min(30000, left - rng.randint(1, 70)) if left > 100 else rng.choice([1, 2, 5, 30, 62, 63, 64])
                ins.append({'op': 'send', 'g': gap, 'k': 'd', 'z': 8})
                q += gap
                n += 1
                due.append(n)
                if gap > 64 or rng.random() < .5:
                    j = due.pop(rng.randrange(len(due)) if gap <= 64 else -1)
                    ins.append({'op': 'deliver', 'js': [j]})
                    ins.append({'op': 'bad', 'k': rng.choice(['body', 'seq', 'tag']), 'j': rng.randint(1, n)})
                if rng.random() < .5:
                    ins.append({'op': 'deliver', 'js': [rng.randint(max(1, n - 5), n)]})
            for j in range(n, 0, -1):
                ins.append({'op': 'deliver', 'js': [j]})
            d = dict(rng.choice([x for x in ALL if x['kind'] == 'dtls13']))
            d.update({'swap': rng.random() < .5, 'salt': k})
            out.append((d, ins))
        return out


PARTS = [Window(), Wrap(), Attack(), Long()]


def setup():
    H.init([__file__, T.__file__])
    T.setup()


def main():
    return R.run('C04', PARTS, setup=setup)

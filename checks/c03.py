"""C03: an established TLS stream delivers exactly what was written, or fails; C02 uses the same driver for the life cycle."""
import ctypes as ct, random
from lib import engine as E, hitls as H, runner as R, tls as T, tlsref as X
from lib.hitls import K, L

# version, suite, credentials, extra
SUITES = {
    'tls12': [(0xC02B, 'ec'), (0xC02C, 'ec'), (0xC02F, 'rsa'), (0xCCA9, 'ec'), (0xCCA8, 'rsa'), (0xC0AC, 'ec'), (0xC023, 'ec'), (0xC024, 'ec'),
              (0xC009, 'ec'), (0xC00A, 'ec'), (0xC027, 'rsa'), (0x009C, 'rsa'), (0x002F, 'rsa'), (0x003D, 'rsa'), (0xC09C, 'rsa')],
    'tls13': [(0x1301, 'ec'), (0x1302, 'ec'), (0x1303, 'ec'), (0x1304, 'ec'), (0x00C6, 'sm13'), (0x00C7, 'sm13')],
    'tlcp': [(0xE013, 'sm2'), (0xE053, 'sm2'), (0xE011, 'sm2'), (0xE051, 'sm2')],
}


class Drv:
    """cfg: kind, suite, alg, max, etm, swap (which real role plays a)"""

    def reset(self, cfg):
        self.cfg = cfg
        self.rnd = random.Random(str(sorted(cfg.items())))
        kind = cfg['kind']
        vc = cfg['suite'] in (0xE011, 0xE051)
        self.cc = T.std_config(kind, False, cfg['alg'], vc)
        self.sc = T.std_config(kind, True, cfg['alg'], vc)
        for c in (self.cc, self.sc):
            c.suites([cfg['suite']])
            if kind == 'tls12':
                c.call('SetEncryptThenMac', cfg.get('etm', True))
            if cfg.get('quiet'):
                c.call('SetQuietShutdown', 1)
            if cfg.get('noauto'):
                c.call('ClearModeSupport', K.HITLS_MODE_AUTO_RETRY)
            if cfg['max'] != 16384:
                c.call('SetMaxSendFragment', cfg['max'])
        self.c, self.s = T.End(self.cc, True), T.End(self.sc, False)
        rc, rs = T.handshake(self.c, self.s)
        self.up = rc == 0 and rs == 0
        if not self.up:
            return
        # session tickets of TLS 1.3: consume
        for e, o in ((self.c, self.s), (self.s, self.c)):
            r, d = e.read(1)
            self.up = self.up and T.again(r)
            o.give(e.take())
        self.e = {'a': self.s, 'b': self.c} if cfg.get('swap') else {'a': self.c, 'b': self.s}
        self.wire = {'a': [], 'b': []}     # records in flight
        self.cut = {'a': 0, 'b': 0}        # delivered bytes of the head
        self.sent = {'a': b'', 'b': b''}
        self.got = {'a': 0, 'b': 0}
        self.closing = {'a': False, 'b': False}
        self.pendw = {'a': None, 'b': None}
        self.carry = {'a': b'', 'b': b''}
        self.plain = {'a': b'', 'b': b''}
        self.badwire = {'a': False, 'b': False}
        self.over = {'a': '', 'b': ''}
        self.extra = False
        self.tap = {}
        for k, e in self.e.items():
            self.tap[k] = X.Tap(kind, e, self.e['b' if k == 'a' else 'a'], e.client)
            if any(x[1] is None for x in self.tap[k].feed(e.log)):
                self.up = False

    def close(self):
        for x in (self.c, self.s, self.cc, self.sc):
            x.free()

    def flush(self, e):
        b = self.carry[e] + self.e[e].take()
        rs, self.carry[e] = X.records(b)
        self.wire[e] += rs
        for x in self.tap[e].feed(b''.join(rs)):
            if self.over[e] and (self.over[e] == 'fatal' or x[1] is None or x[0] != 21 or x[1][:1] != b'\x02'):
                self.extra = True           # something follows a close_notify or a fatal alert
            if x[0] == 21 and x[1] is not None:
                self.over[e] = 'fatal' if x[1][:1] == b'\x02' else 'close' if x[1][1:] == b'\0' else self.over[e]
            if x[1] is None:
                self.badwire[e] = True
            elif x[0] == 23:
                self.plain[e] += x[1]
        p = self.pendw[e]
        if p is not None and self.plain[e] == self.sent[e] + bytes(p[0][:self.cfg['max']]):
            # a record that the transport had refused went out with something else
            self.sent[e] = self.plain[e]
            self.pendw[e] = None

    def code(self, e, r):
        x = self.e[e]
        if r == 0:
            return 'ok'
        if T.again(r):
            return 'again'
        if r == K.HITLS_CM_LINK_FATAL_ALERTED:
            return 'dead'
        if r == K.HITLS_CM_LINK_CLOSED:
            return 'closed'
        return 'err'

    def do(self, i):
        r = self.do1(i)
        if self.extra:
            return ['wire after the end']
        return r

    def do1(self, i):
        op, e = i['op'], i['c']
        if not self.up:
            return ['no connection']
        x = self.e[e]
        o = 'b' if e == 'a' else 'a'
        na = len(x.alerts_tx)
        if self.cfg.get('ref') and e == 'a':
            return self.ref(i)
        if op == 'write':
            if self.pendw[e] is not None:
                b, n = self.pendw[e]
                i = dict(i, n=n)
            else:
                n = i['n']
                b = H.buf(self.rnd.randbytes(n))
            l = ct.c_uint32()
            x.room = {'all': None, 'none': 0, 'some': self.rnd.choice([1, 4, 5, 6, 20])}[i['room']]
            r = L.HITLS_Write(x.ctx, b, n, ct.byref(l))
            x.room = None
            c = self.code(e, r)
            self.pendw[e] = None
            self.flush(e)
            if c == 'again':
                self.pendw[e] = (b, n)
            if c == 'ok':
                self.sent[e] += bytes(b[:l.value])
                if self.badwire[e] or self.plain[e] != self.sent[e]:
                    return i, ['wire', l.value]          # not what the protocol defines
                return i, [c, l.value]
            return i, [c]
        if op in ('read', 'peek'):
            r, d = x.read(i['n'], op == 'peek')
            self.flush(e)
            c = self.code(e, r)
            fat = [a for a in x.alerts_tx[na:] if a[0] == 2]
            if c == 'ok':
                g = self.got[e]
                while self.closing[e] and d != self.sent[o][g:g + len(d)] and g < len(self.sent[o]):
                    g += 1              # close may have discarded records
                self.got[e] = g
                m = d == self.sent[o][self.got[e]:self.got[e] + len(d)] and not fat
                if op == 'read':
                    self.got[e] += len(d)
                return ['ok', len(d), m]
            if fat:
                return ['fatal', fat[0][1]]
            return [c]
        if op == 'close':
            if self.pendw[e] is not None:
                return None
            x.room = 0 if i.get('room') == 'none' else None
            self.closing[e] = True
            r = x.close()
            x.room = None
            self.flush(e)
            fat = [a for a in x.alerts_tx[na:] if a[0] == 2]
            return ['fatal', fat[0][1]] if fat else [self.code(e, r)]
        return self.net(i)

    def net(self, i):
        op, e = i['op'], i['c']
        o = 'b' if e == 'a' else 'a'
        if op in ('deliver', 'part'):
            if not self.wire[e]:
                return None
            rec = self.wire[e][0]
            if op == 'part':
                if self.cut[e]:
                    return None
                k = self.rnd.choice([1, 4, 5, 6, max(1, len(rec) // 2), len(rec) - 1])
                k = min(k, len(rec) - 1)
                self.e[o].give(rec[:k])
                self.cut[e] = k
                return []
            self.e[o].give(rec[self.cut[e]:])
            self.cut[e] = 0
            self.wire[e].pop(0)
            return []
        if op == 'eof':
            self.e[o].eof = True
            return []
        if op == 'tamper':
            return self.tamper(e, i['k'])
        raise ValueError(op)

    def ref(self, i):
        """endpoint a is played by the independent implementation"""
        op, k = i['op'], self.tap['a'].k
        t13 = self.cfg['kind'] == 'tls13'
        if op == 'write':
            n = min(i['n'], self.cfg['max'])
            d = self.rnd.randbytes(n)
            self.sent['a'] += d
            self.wire['a'].append(k.seal(23, d))
            return dict(i, room='all'), ['ok', n]
        if op == 'close':
            return None
        if op in ('deliver', 'part', 'eof', 'tamper'):
            return self.net(i)
        if op != 'forge':
            return None
        f = i['k']
        d = self.rnd.randbytes(i['n'])
        if f == 'pad':
            self.sent['a'] += d
            r = k.seal(23, d, pad=self.rnd.choice([0, 1, 2, 15, 16, 100, 255, 1000])) if t13 else k.seal(23, d) if k.mac is None else self.cbcpad(k, d, True)
        elif f == 'empty':
            r = k.seal(23, b'')
        elif f == 'fatalalert':
            r = k.seal(21, bytes([2, self.rnd.choice([20, 40, 80, 10, 50])]))
        elif f == 'overflow':
            r = k.seal(23, self.rnd.randbytes(16385 + self.rnd.choice([0, 1, 15])))
        elif f == 'zerotype':
            if not t13:
                return None
            r = k.seal(23, b'', inner=b'\0' * (i['n'] + 1))
        elif f == 'badinner':
            if self.cfg['kind'] == 'tlcp':
                return None
            r = k.seal(self.rnd.choice([0 if not t13 else 99, 19, 26, 99, 255]), d)
        elif f == 'emptyhs':
            r = k.seal(22, b'')
        elif f == 'emptyalert':
            r = k.seal(21, b'')
        elif f == 'seq':
            k.seq += self.rnd.choice([1, 2, 256])
            r = k.seal(23, d)
        elif f == 'cbcpad':
            if t13 or k.mac is None:
                return None
            r = self.cbcpad(k, d)
        else:
            raise ValueError(f)
        self.wire['a'].append(r)
        return []

    def cbcpad(self, k, d, good=False):
        """a CBC record whose MAC is right and whose padding (of any length) is not, or is"""
        from lib import oracle as O
        m = O.hmac_(k.mac, k.mkey, k._hdr(23, len(d)) + d)
        x = d if k.etm else d + m
        p = 16 - len(x) % 16
        if p < 3:
            p += 16
        p += 16 * self.rnd.choice([0, 0, 1, 2, 7, (256 - p) // 16])
        pad = bytearray([p - 1]) * p
        if not good:
            pad[self.rnd.choice([0, 0, p - 2, self.rnd.randrange(0, p - 1)])] ^= 1 << self.rnd.randrange(8)
        iv = self.rnd.randbytes(16)
        b = iv + O.evp(k.cipher, k.key, iv, x + bytes(pad))
        if k.etm:
            b += O.hmac_(k.mac, k.mkey, k._hdr(23, len(b)) + b)
        k.seq += 1
        return b'\x17' + k.ver + len(b).to_bytes(2, 'big') + b

    def tamper(self, e, k):
        w = self.wire[e]
        if not w or self.cut[e]:
            return None
        h = bytearray(w[0])
        if k == 'body':
            p = self.rnd.randrange(5, len(h))
            h[p] ^= 1 << self.rnd.randrange(8)
        elif k == 'tag':
            h[-1] ^= 0x80
        elif k == 'first':
            h[5] ^= 1
        elif k == 'zero':
            for p in range(max(5, len(h) - 16), len(h)):
                h[p] = 0
        elif k == 'type':
            if self.cfg['kind'] == 'tls13':
                return None
            h[0] = {23: 22, 21: 23, 22: 23}[h[0]]
        elif k == 'ver':
            h[2] ^= 1
        elif k == 'short':
            n = int.from_bytes(h[3:5], 'big') - 1
            h[3:5] = n.to_bytes(2, 'big')
        elif k == 'long':
            n = int.from_bytes(h[3:5], 'big') + 1
            h[3:5] = n.to_bytes(2, 'big')
        if k == 'drop':
            w.pop(0)
        elif k == 'dup':
            w.insert(0, w[0])
        elif k == 'swap':
            if len(w) < 2:
                return None
            w[0], w[1] = w[1], w[0]
        elif k == 'insplain':
            w.insert(0, bytes([23, 3, 3, 0, 1, 65]) if self.cfg['kind'] != 'tlcp' else bytes([23, 1, 1, 0, 1, 65]))
        elif k == 'insalert':
            w.insert(0, bytes([21, 3, 3, 0, 2, 1, 0]) if self.cfg['kind'] != 'tlcp' else bytes([21, 1, 1, 0, 2, 1, 0]))
        elif k == 'insccs':
            w.insert(0, bytes([20, 3, 3, 0, 1, 1]) if self.cfg['kind'] != 'tlcp' else bytes([20, 1, 1, 0, 1, 1]))
        elif k == 'huge':
            n = 16384 + 2048 + 1
            w.insert(0, bytes(h[:3]) + n.to_bytes(2, 'big') + self.rnd.randbytes(n))
        elif k == 'cross':
            # a record of the opposite direction reflected back
            b = self.e['b' if e == 'a' else 'a']
            l = ct.c_uint32()
            return None
        else:
            w[0] = bytes(h)
        return []


ALL = [{'kind': k, 'suite': s, 'alg': a} for k, v in SUITES.items() for s, a in v]
CHEAP = [c for c in ALL if c['alg'] != 'rsa']
TAMPERS = {'body', 'tag', 'first', 'type', 'ver', 'short', 'long', 'zero', 'drop', 'dup', 'swap', 'insplain', 'insalert', 'insccs', 'huge'}


def spread(scripts, rng, pick, extra=lambda rng: {}):
    """give every script a concrete connection"""
    out = []
    for n, (c, ins) in enumerate(scripts):
        d = dict(c)
        d.update(pick[n % len(pick)])
        d['swap'] = rng.random() < 0.5
        if d['kind'] == 'tls12':
            d['etm'] = rng.random() < 0.5
        d.update(extra(rng))
        d['salt'] = n
        out.append((d, ins))
    return out


class Base(R.Part):
    module = 'Conn'
    pick = CHEAP

    def make(self):
        return Drv()

    def scripts(self, tier, rng, g):
        sc = E.cover(g, rng=rng, maxlen=self.maxlen)
        pick = self.pick[:]
        rng.shuffle(pick)
        return spread(sc, rng, pick)


class Data(Base):
    """every interleaving of writes, delivery (whole records or pieces), reads and peeks"""
    name = 'data'
    maxlen = 40
    pick = ALL

    def consts(self, tier):
        return {'Writers': {'a'}, 'Readers': {'b'}, 'Closers': {'a'}, 'TDirs': set(), 'Sizes': {1, 300}, 'Reads': {100, 20000}, 'MaxQ': 2, 'Forges': set(), 'Tampers': set(),
                'Ops': {'write', 'read', 'peek', 'deliver', 'part', 'close'}, 'Limits': {16384}, 'Quiet': {False}, 'Rooms': {'all', 'none', 'some'}}

    def scripts(self, tier, rng, g):
        sc = E.cover(g, rng=rng, maxlen=self.maxlen)
        pick = self.pick[:]
        rng.shuffle(pick)
        out = []
        for k in range(2 if tier == 'quick' else 20):
            out += spread(sc, rng, pick[k:] + pick[:k])
        return out


class Tamper(Base):
    """an attacker changes, drops, repeats, swaps or inserts records"""
    name = 'tamper'
    maxlen = 12

    def consts(self, tier):
        return {'Writers': {'a'}, 'Readers': {'a', 'b'}, 'Closers': {'a'}, 'TDirs': {'a'}, 'Sizes': {300}, 'Reads': {100, 20000}, 'MaxQ': 2, 'Forges': set(), 'Tampers': TAMPERS,
                'Ops': {'write', 'read', 'deliver', 'tamper', 'close', 'eof'}, 'Limits': {16384}, 'Quiet': {False}, 'Rooms': {'all'}}


class Long(Base):
    """long random histories with boundary sizes, both directions, limited fragments"""
    name = 'long'

    def consts(self, tier):
        return {'Writers': {'a'}, 'Readers': {'b'}, 'Closers': set(), 'TDirs': set(), 'Sizes': {1}, 'Reads': {1}, 'MaxQ': 1, 'Forges': set(), 'Tampers': set(),
                'Ops': {'write', 'read', 'deliver'}, 'Limits': {16384}, 'Quiet': {False}, 'Rooms': {'all'}}

    def scripts(self, tier, rng, g):
        out = []
        n = 300 if tier == 'quick' else 6000
        for k in range(n):
            mx = rng.choice([16384, 16384, 16384, 512, 1000, 4096, 16383])
            sizes = [1, 2, 15, 16, 17, 31, 32, 33, 47, 48, 63, 64, 65, 255, 256, 257, mx - 1, mx, mx + 1, 2 * mx, rng.randint(1, 20000), 16384, 16385]
            ins = []
            infl = {'a': 0, 'b': 0}
            pw = {'a': 0, 'b': 0}
            for _ in range(rng.randint(10, 60)):
                e = rng.choice('ab')
                o = 'b' if e == 'a' else 'a'
                r = rng.random()
                if r < 0.35:
                    room = rng.choice(['all', 'all', 'all', 'some', 'none'])
                    z = pw[e] or rng.choice(sizes)
                    ins.append({'op': 'write', 'c': e, 'n': z, 'room': room})
                    pw[e] = 0 if room == 'all' else min(z, mx)
                    if room == 'all':
                        infl[e] += 1
                elif r < 0.7:
                    ins.append({'op': rng.choice(['read', 'read', 'read', 'peek']), 'c': e, 'n': rng.choice([1, 7, 16, 100, mx - 1, mx, 20000])})
                elif r < 0.8 and infl[e]:
                    ins.append({'op': 'part', 'c': e})
                elif infl[e]:
                    ins.append({'op': 'deliver', 'c': e})
                    infl[e] -= 1
            for e in 'ab':
                if pw[e]:
                    ins.append({'op': 'write', 'c': e, 'n': pw[e], 'room': 'all'})
                    infl[e] += 1
                o = 'b' if e == 'a' else 'a'
                for _ in range(infl[e]):
                    ins.append({'op': 'deliver', 'c': e})
                for _ in range(6):
                    ins.append({'op': 'read', 'c': o, 'n': 20000})
            d = dict(rng.choice(ALL))
            d.update({'max': mx, 'quiet': False, 'swap': rng.random() < 0.5, 'salt': k})
            if d['kind'] == 'tls12':
                d['etm'] = rng.random() < 0.5
            out.append((d, ins))
        return out


class LongTamper(Base):
    """one record of a longer stream is attacked, over all suites and record sizes"""
    name = 'attack'

    def consts(self, tier):
        return {'Writers': {'a'}, 'Readers': {'b'}, 'Closers': set(), 'TDirs': {'a'}, 'Sizes': {1}, 'Reads': {1}, 'MaxQ': 1, 'Forges': set(), 'Tampers': {'body'},
                'Ops': {'write', 'read', 'deliver', 'tamper'}, 'Limits': {16384}, 'Quiet': {False}, 'Rooms': {'all'}}

    def scripts(self, tier, rng, g):
        out = []
        n = 1500 if tier == 'quick' else 20000
        for k in range(n):
            e = 'a'
            ins = []
            pre = rng.randint(0, 3)
            for _ in range(pre):
                ins += [{'op': 'write', 'c': 'a', 'n': rng.choice([1, 16, 100]), 'room': 'all'}, {'op': 'deliver', 'c': 'a'}, {'op': 'read', 'c': 'b', 'n': 20000}]
            for _ in range(2):
                ins.append({'op': 'write', 'c': 'a', 'n': rng.choice([1, 2, 15, 16, 17, 32, 48, 100, 255, 256, 1000]), 'room': 'all'})
            ins.append({'op': 'tamper', 'c': 'a', 'k': rng.choice(sorted(TAMPERS) + ['body'] * 10)})
            for _ in range(3):
                ins += [{'op': 'deliver', 'c': 'a'}, {'op': 'read', 'c': 'b', 'n': 20000}]
            ins += [{'op': 'write', 'c': 'b', 'n': 5, 'room': 'all'}, {'op': 'deliver', 'c': 'b'}, {'op': 'read', 'c': 'a', 'n': 100}, {'op': 'write', 'c': 'a', 'n': 5, 'room': 'all'}]
            d = dict(rng.choice(CHEAP + ALL[:17] if rng.random() < 0.2 else CHEAP))
            d.update({'max': 16384, 'quiet': False, 'swap': rng.random() < 0.5, 'salt': k})
            if d['kind'] == 'tls12':
                d['etm'] = rng.random() < 0.5
            out.append((d, ins))
        return out


FORGES = {'pad', 'empty', 'fatalalert', 'overflow', 'zerotype', 'badinner', 'emptyhs', 'emptyalert', 'seq', 'cbcpad'}


class Forge(Base):
    """the sender is an independent implementation that also sends unusual and malformed records under the right keys"""
    name = 'forge'
    maxlen = 12
    pick = ALL

    def consts(self, tier):
        return {'Writers': {'a'}, 'Readers': {'b'}, 'Closers': {'b'}, 'TDirs': {'a'}, 'Sizes': {300}, 'Reads': {100, 20000}, 'MaxQ': 2,
                'Forges': FORGES, 'Tampers': set(), 'Ops': {'read', 'deliver', 'forge'}, 'Limits': {16384}, 'Quiet': {False}, 'Rooms': {'all'}}

    def scripts(self, tier, rng, g):
        sc = E.cover(g, rng=rng, maxlen=self.maxlen)
        pick = ALL[:]
        rng.shuffle(pick)
        out = []
        for k in range(2 if tier == 'quick' else 20):
            out += spread(sc, rng, pick[k:] + pick[:k], lambda r: {'ref': True})
        return out


PARTS = [Forge(), Data(), Tamper(), Long(), LongTamper()]


def setup():
    H.init([__file__, T.__file__])
    T.setup()


def main():
    return R.run('C03', PARTS, setup=setup)

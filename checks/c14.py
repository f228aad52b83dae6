"""C14: stateful hash-based signatures."""
import ctypes as ct, random
from lib import engine as E, hbsref as G, hitls as H, runner as R
from lib.hitls import K, L

#K: CRYPT_PKEY_XMSS CRYPT_PKEY_XMSSMT CRYPT_PARAM_XMSS_PRV_INDEX CRYPT_PARAM_XMSS_PRV_SEED CRYPT_PARAM_XMSS_PRV_PRF CRYPT_PARAM_XMSS_PUB_SEED CRYPT_PARAM_XMSS_PUB_ROOT
#K: CRYPT_PARAM_XMSS_XDR_TYPE CRYPT_PARAM_XMSS_BDS_STATE BSL_PARAM_TYPE_OCTETS BSL_PARAM_TYPE_UINT64 BSL_SAL_MEM_MALLOC BSL_SAL_MEM_FREE CRYPT_MD_SHA256
#K: CRYPT_XMSS_SHA2_10_256 CRYPT_XMSS_SHA2_10_192 CRYPT_XMSS_SHAKE_10_256 CRYPT_XMSS_SHAKE256_10_192 CRYPT_XMSS_SHA2_10_512 CRYPT_XMSS_SHAKE_10_512 CRYPT_XMSS_SHAKE256_10_256
#K: CRYPT_XMSSMT_SHA2_20_4_256 CRYPT_XMSSMT_SHA2_20_4_192 CRYPT_XMSSMT_SHAKE_20_4_256 CRYPT_XMSSMT_SHAKE256_20_4_192 CRYPT_XMSSMT_SHAKE256_20_4_256 CRYPT_XMSSMT_SHA2_20_4_512
#K: CRYPT_XMSSMT_SHA2_40_8_192 CRYPT_XMSSMT_SHA2_40_8_256 CRYPT_XMSSMT_SHA2_60_12_192 CRYPT_XMSSMT_SHA2_60_12_256 CRYPT_XMSSMT_SHA2_20_2_192 CRYPT_XMSSMT_SHAKE256_40_8_192 CRYPT_XMSSMT_SHAKE_20_4_512


class Param(ct.Structure):
    _fields_ = [('key', ct.c_int32), ('type', ct.c_uint32), ('value', ct.c_void_p), ('len', ct.c_uint32), ('use', ct.c_uint32)]


def shape(a):
    """'MT_SHA2_20_4_256' or 'SHA2_10_256' -> reference"""
    p = a.split('_')
    mt = p[0] == 'MT'
    p = p[mt:]
    n = int(p[-1]) // 8
    kind = {'SHA2': 'sha2', 'SHAKE': 'shake256' if n == 64 else 'shake128', 'SHAKE256': 'shake256'}[p[0]]
    return mt, G.Xmss(n, int(p[1]), int(p[2]) if mt else 1, kind, 4 if n == 24 else n)


def new(a):
    mt, _ = shape(a)
    c = ct.c_void_p(L.CRYPT_EAL_PkeyNewCtx(K.CRYPT_PKEY_XMSSMT if mt else K.CRYPT_PKEY_XMSS))
    assert c.value and L.CRYPT_EAL_PkeySetParaById(c, K.get('CRYPT_XMSS' + ('' if mt else '_') + (a if not mt else a.replace('MT_', 'MT_')))) == 0, a
    return c


class Rec:
    """the fields of a private key"""


def fields(n, bds=None):
    ps = (Param * 8)()
    b = {'seed': H.buf(n), 'prf': H.buf(n), 'pub': H.buf(n), 'root': H.buf(n), 'idx': (ct.c_uint64 * 1)()}
    for j, (k, nm) in enumerate((('seed', 'PRV_SEED'), ('prf', 'PRV_PRF'), ('pub', 'PUB_SEED'), ('root', 'PUB_ROOT'))):
        ps[j] = Param(K.get('CRYPT_PARAM_XMSS_' + nm), K.BSL_PARAM_TYPE_OCTETS, ct.addressof(b[k]), n, 0)
    ps[4] = Param(K.CRYPT_PARAM_XMSS_PRV_INDEX, K.BSL_PARAM_TYPE_UINT64, ct.addressof(b['idx']), 8, 0)
    j = 5
    if bds is not None:
        b['bds'] = H.buf(max(1, bds))
        ps[5] = Param(K.CRYPT_PARAM_XMSS_BDS_STATE, K.BSL_PARAM_TYPE_OCTETS, ct.addressof(b['bds']) if bds else None, bds, 0)
        j = 6
    ps[j] = Param(0, 0, None, 0, 0)
    return ps, b


def get(c, n, bds=False):
    """-> dict or None"""
    size = None
    if bds:
        ps, b = fields(n, 0)
        L.CRYPT_EAL_PkeyGetPrvEx(c, ps)
        size = ps[5].use
    ps, b = fields(n, size)
    if L.CRYPT_EAL_PkeyGetPrvEx(c, ps) != 0:
        return None
    d = {k: bytes(b[k]) for k in ('seed', 'prf', 'pub', 'root')}
    d['idx'] = b['idx'][0]
    d['bds'] = bytes(b['bds'])[:ps[5].use] if bds and size else b''
    return d


def put(c, d, cut=None, skip=None):
    n = len(d['seed'])
    ps, b = fields(n, len(d['bds']) if d['bds'] else None)
    for k in ('seed', 'prf', 'pub', 'root'):
        b[k][:] = d[k]
    b['idx'][0] = d['idx']
    if d['bds']:
        b['bds'][:] = d['bds']
    if cut == 'seed':
        ps[0].len = n - 1
    if cut == 'idx':
        ps[4].len = 4
    if skip:
        ps[0].key = K.CRYPT_PARAM_XMSS_XDR_TYPE
        ps[0].len = 4
    return L.CRYPT_EAL_PkeySetPrvEx(c, ps)


KEYS = {}
RAND = ct.CFUNCTYPE(ct.c_int32, ct.c_void_p, ct.c_uint32)
_rng = [random.Random(1)]


def _fill(p, n):
    ct.memmove(p, _rng[0].randbytes(n), n)
    return 0


RCB = RAND(_fill)


def key(a, which=0):
    """a generated key of this parameter set: fields with the traversal state at its first index"""
    if (a, which) not in KEYS:
        _rng[0] = random.Random('%s/%d' % (a, which))
        L.CRYPT_EAL_SetRandCallBack(RCB)
        c = new(a)
        r = L.CRYPT_EAL_PkeyGen(c)
        KEYS[a, which] = get(c, shape(a)[1].n, True) if r == 0 else None
        L.CRYPT_EAL_PkeyFreeCtx(c)
    return KEYS[a, which]


LIBC = ct.CDLL(None)
LIBC.malloc.restype, LIBC.malloc.argtypes = ct.c_void_p, [ct.c_size_t]
LIBC.free.restype, LIBC.free.argtypes = None, [ct.c_void_p]
MAL = ct.CFUNCTYPE(ct.c_void_p, ct.c_uint32)
_count = [0]


def _malloc(n):
    _count[0] -= 1
    return LIBC.malloc(n) if _count[0] else None


MCB = MAL(_malloc)
FCB = ct.cast(LIBC.free, ct.c_void_p)


class Drv:
    k = [None, None, None]

    def reset(self, cfg):
        self.close()
        self.cfg, self.a = cfg, cfg['alg']
        self.mt, self.ref = shape(self.a)
        self.n = self.ref.n
        self.rng = random.Random(repr(sorted(cfg.items())))
        self.key = key(self.a)
        assert self.key and self.key['bds'], self.a
        self.base = self.start(cfg)
        self.k = [None, new(self.a), new(self.a)]
        d = dict(self.key, idx=self.base)
        if not cfg['bds']:
            d['bds'] = b''
        assert put(self.k[1], d) == 0
        self.blob = None
        self.sig = None
        self.has = [None, 'prv', 'none']

    def start(self, cfg):
        w = cfg['at']
        h, hp = self.ref.h, self.ref.hp
        return {'zero': 0, 'end': (1 << h) - cfg['room'], 'tree': (1 << hp) - 2, 'over': 1 << h, 'max': (1 << 64) - 1, 'past': (1 << h) + 1,
                'word': (1 << 32) - 2, 'tree2': (1 << (2 * hp)) - 2, 'tree3': (1 << (3 * hp)) - 2 if self.ref.d > 3 else 5}[w]

    def close(self):
        for c in self.k[1:]:
            if c:
                L.CRYPT_EAL_PkeyFreeCtx(c)
        self.k = [None, None, None]

    def msg(self, n):
        return self.rng.randbytes(n)

    def libverify(self, c, m, s):
        return L.CRYPT_EAL_PkeyVerify(c, K.CRYPT_MD_SHA256, H.buf(m) if m else H.buf(1), len(m), H.buf(s), len(s)) == 0

    def good(self, c, m, s, idx, deep=True):
        """the signature is the one of this index and message"""
        if len(s) != self.ref.size:
            return False
        if not self.libverify(c, m, s):
            return False
        if deep:
            f = self.ref.first_part(self.key['seed'], self.key['prf'], self.key['pub'], self.key['root'], m, idx)
            if s[:len(f)] != f or not self.ref.verify(self.key['pub'], self.key['root'], m, s):
                return False
        return int.from_bytes(s[:self.ref.ib], 'big') == idx

    def idx(self, c):
        d = get(c, self.n)
        return d['idx'] if d else None

    def sign(self, c, m, size):
        b = H.buf(b'\xc3' * (max(size, self.ref.size) + 16))
        n = ct.c_uint32(size)
        r = L.CRYPT_EAL_PkeySign(c, K.CRYPT_MD_SHA256, H.buf(m) if m else H.buf(1), len(m), b, ct.byref(n))
        return r, n.value, bytes(b)

    def result(self, i, c, m, size, before, r, n, b):
        if r == 0:
            clean = b[n:] == b'\xc3' * (len(b) - n) and n == self.ref.size
            s = b[:n]
            self.sig = (m, s)
            at = int.from_bytes(s[:self.ref.ib], 'big')
            return ['yes', 1, at - self.base, self.good(c, m, s, at), 'full' if clean else 'odd']
        if b == b'\xc3' * len(b):
            st = 'same'
        elif b[:size] == bytes(size) and b[size:] == b'\xc3' * (len(b) - size) and n == 0:
            st = 'wiped'
        else:
            st = 'dirty'
        return ['no', 0, 0, True, st]

    def do(self, i):
        op, c, S = i['op'], self.k[i['k']], self.ref.size
        h = self.has[i['k']]
        if op == 'export' and h != 'prv' or op in ('forge', 'pair') and h == 'none' or op == 'pub' and h != 'none':
            return None
        if op == 'sign':
            if i['buf'] == 'none':
                n = ct.c_uint32(S)
                b = H.buf(b'\xc3' * S)
                rs = [L.CRYPT_EAL_PkeySign(c, K.CRYPT_MD_SHA256, H.buf(4), 4, None, ct.byref(n)), L.CRYPT_EAL_PkeySign(c, K.CRYPT_MD_SHA256, None, 4, b, ct.byref(n)),
                      L.CRYPT_EAL_PkeySign(c, K.CRYPT_MD_SHA256, H.buf(4), 4, b, None)]
                return ['yes' if 0 in rs else 'no', 0, 0, True, 'same' if bytes(b) == b'\xc3' * S else 'dirty']
            m = self.msg(i['len'])
            size = {'exact': S, 'large': S + 9, 'short': S - 1}[i['buf']]
            r, n, b = self.sign(c, m, size)
            return self.result(i, c, m, size, None, r, n, b)
        if op == 'many':
            first, ok, m = None, True, 0
            for j in range(i['len']):
                t = self.msg(20)
                r, n, b = self.sign(c, t, S)
                if r != 0:
                    ok &= b == b'\xc3' * len(b)
                    break
                s = b[:n]
                at = int.from_bytes(s[:self.ref.ib], 'big')
                if first is None:
                    first = at
                ok &= at == first + m and n == S and self.good(c, t, s, at, j % 16 in (0, 15) or j == i['len'] - 1 or i['len'] < 40)
                m += 1
                self.sig = (t, s)
            return ['yes', m, first - self.base if m else 0, ok, 'full']
        if op == 'fault':
            m = self.msg(30)
            _count[0] = i['at']
            L.BSL_SAL_CallBack_Ctrl(K.BSL_SAL_MEM_FREE, FCB)
            L.BSL_SAL_CallBack_Ctrl(K.BSL_SAL_MEM_MALLOC, MCB)
            try:
                r, n, b = self.sign(c, m, S)
            finally:
                L.BSL_SAL_CallBack_Ctrl(K.BSL_SAL_MEM_MALLOC, None)
                L.BSL_SAL_CallBack_Ctrl(K.BSL_SAL_MEM_FREE, None)
            return self.result(i, c, m, S, None, r, n, b)
        if op == 'export':
            if i['room'] == 'short' and i['bds']:
                ps, b = fields(self.n, 0)
                L.CRYPT_EAL_PkeyGetPrvEx(c, ps)
                if ps[5].use:
                    ps, b = fields(self.n, ps[5].use - 1)
                    r = L.CRYPT_EAL_PkeyGetPrvEx(c, ps)
                    return ['no', 0, False] if r != 0 and bytes(b['bds']) == bytes(len(b['bds'])) else ['yes', 0, True]
            d = get(c, self.n, i['bds'])
            if d is None:
                return ['no', 0, False]
            self.blob = d
            return ['yes', d['idx'] - self.base, bool(d['bds'])] if all(d[k] == self.key[k] for k in ('seed', 'prf', 'pub', 'root')) else ['odd', 0, False]
        if op == 'import':
            if not self.blob or (i['bds'] and not self.blob['bds']) or (i['bad'] == 'behind' and not self.blob['idx']) \
                    or (not i['bds'] and i['bad'] in ('ahead', 'behind', 'cutbds', 'longbds', 'otherroot', 'otheralg', 'garbage')):
                return None
            d = dict(self.blob)
            if not i['bds']:
                d['bds'] = b''
            t, cut, skip = i['bad'], None, None
            if t in ('ahead', 'behind'):
                d['idx'] += 1 if t == 'ahead' else -1
            elif t == 'cutbds':
                d['bds'] = d['bds'][:-1]
            elif t == 'longbds':
                d['bds'] += b'\0'
            elif t == 'otherroot':
                d['root'] = bytes([d['root'][0] ^ 1]) + d['root'][1:]
            elif t == 'otheralg':
                o = key(OTHER[self.a])
                d['bds'] = o['bds'][:4] + d['bds'][4:]
            elif t == 'garbage':
                d['bds'] = d['bds'][:36] + b'\xff' * (len(d['bds']) - 36)
            cut = {'shortseed': 'seed', 'shortidx': 'idx'}.get(t)
            r = put(c, d, cut, t == 'noseed')
            if r == 0:
                self.has[i['k']] = 'prv'
            return ['yes' if r == 0 else 'no']
        if op == 'dup':
            d = ct.c_void_p(L.CRYPT_EAL_PkeyDupCtx(self.k[1]))
            if not d.value:
                return ['no']
            L.CRYPT_EAL_PkeyFreeCtx(self.k[2])
            self.k[2] = d
            self.has[2] = 'pub'
            return ['yes']
        if op == 'pub':
            self.has[2] = 'pub'
            ps = (Param * 3)()
            a, b = H.buf(self.key['pub']), H.buf(self.key['root'])
            ps[0] = Param(K.CRYPT_PARAM_XMSS_PUB_SEED, K.BSL_PARAM_TYPE_OCTETS, ct.addressof(a), self.n, 0)
            ps[1] = Param(K.CRYPT_PARAM_XMSS_PUB_ROOT, K.BSL_PARAM_TYPE_OCTETS, ct.addressof(b), self.n, 0)
            ps[2] = Param(0, 0, None, 0, 0)
            return ['yes' if L.CRYPT_EAL_PkeySetPubEx(self.k[2], ps) == 0 else 'no']
        if op == 'pair':
            return ['yes' if L.CRYPT_EAL_PkeyPairCheck(self.k[2], self.k[1]) == 0 else 'no']
        if op == 'index':
            return ['index', self.idx(self.k[1]) - self.base]
        if op == 'forge':
            if not self.sig:
                return None
            m, s = self.sig
            h, n, ib = i['how'], self.n, self.ref.ib
            def flip(p):
                nonlocal s
                s = s[:p] + bytes([s[p] ^ (1 << self.rng.randrange(8))]) + s[p + 1:]
            r = self.rng
            layer = (self.ref.len + self.ref.hp) * n
            lay = r.randrange(self.ref.d)
            if h == 'index':
                flip(r.randrange(ib))
            elif h == 'random':
                flip(ib + r.randrange(n))
            elif h == 'ots':
                flip(ib + n + lay * layer + r.randrange(self.ref.len * n))
            elif h == 'auth':
                flip(ib + n + lay * layer + self.ref.len * n + r.randrange(self.ref.hp * n))
            elif h == 'short':
                s = s[:-1]
            elif h == 'long':
                s += b'\0'
            elif h == 'message':
                m = m[:-1] + bytes([m[-1] ^ 0x80])
            else:
                p = ib + n + lay * layer
                j = r.randrange(self.ref.len - 1)
                x, y = s[p + j * n:p + (j + 1) * n], s[p + (j + 1) * n:p + (j + 2) * n]
                s = s[:p + j * n] + y + x + s[p + (j + 2) * n:]
            return ['yes' if self.libverify(c, m, s) else 'no']


def cfg(a, at, room=None, bds=False):
    _, r = shape(a)
    full = {'zero': 1 << r.h, 'end': room or 2, 'over': 0, 'max': 0, 'past': 0}.get(at, 1 << 29)
    return {'alg': a, 'at': at, 'start': 0 if at == 'zero' else 1, 'room': min(full, 1 << 29), 'bds': bds}


FAST = ['MT_SHA2_20_4_192', 'MT_SHA2_20_4_256', 'MT_SHAKE256_20_4_192', 'MT_SHA2_40_8_192']
SLOW = ['SHA2_10_192', 'SHA2_10_256', 'SHAKE256_10_192']
DEEP = ['SHAKE_10_256', 'SHAKE256_10_256', 'MT_SHAKE_20_4_256', 'MT_SHAKE256_20_4_256', 'MT_SHA2_20_4_512', 'MT_SHA2_60_12_192', 'MT_SHA2_60_12_256', 'MT_SHA2_20_2_192', 'MT_SHAKE256_40_8_192',
        'SHA2_10_512', 'SHAKE_10_512', 'MT_SHAKE_20_4_512', 'MT_SHA2_40_8_256']
OTHER = {a: 'MT_SHA2_20_4_192' if a != 'MT_SHA2_20_4_192' else 'MT_SHA2_20_4_256' for a in FAST + SLOW + DEEP}


class Part(R.Part):
    name, module, per_script = 'key', 'Xmss', 100

    def consts(self, tier):
        cs = [cfg('MT_SHA2_20_4_192', 'zero', bds=True), cfg('MT_SHA2_20_4_192', 'end', 2)]
        return {'Depth': 3, 'Cfgs': E.tla('{' + ', '.join(E.tla_value(c) for c in cs) + '}')}

    def trace_consts(self, tier):
        return {'Depth': 99999, 'Cfgs': E.tla('{}')}

    def rnd(self, r, algs):
        a = r.choice(algs)
        slow = not a.startswith('MT')
        w = r.choice(('zero', 'zero', 'zero', 'end', 'tree', 'tree2', 'tree3', 'over', 'past', 'max')) if not slow else r.choice(('zero', 'zero', 'end', 'over'))
        if a.startswith('MT_SHA2_40') and r.random() < .3:
            w = 'word'
        c = cfg(a, w, r.choice((1, 2, 3)), w == 'zero')
        s = []
        for _ in range(r.choice((5, 9, 14))):
            x, k = r.random(), r.choice((1, 1, 1, 2))
            if x < .3:
                s.append({'op': 'sign', 'k': k, 'len': r.choice((1, 20, 31, 32, 33, 64, 200, 1000)), 'buf': r.choice(('exact', 'exact', 'large', 'short', 'none'))})
            elif x < .45:
                s.append({'op': 'many', 'k': k, 'len': r.choice((2, 5, 9, 33)) if c['bds'] else 2})
            elif x < .6:
                s.append({'op': 'fault', 'k': k, 'at': r.choice((1, 2, 3, 4, 5, 7, 10, 20, 40))})
            elif x < .72:
                s.append({'op': 'export', 'k': k, 'bds': r.random() < .7, 'room': r.choice(('exact', 'exact', 'short'))})
            elif x < .86:
                s.append({'op': 'import', 'k': k, 'bds': r.random() < .7, 'bad': r.choice(('no', 'no', 'no', 'ahead', 'behind', 'cutbds', 'longbds', 'otherroot', 'otheralg', 'garbage', 'shortseed', 'noseed', 'shortidx'))})
            elif x < .92:
                s.append({'op': 'forge', 'k': r.choice((1, 2)), 'how': r.choice(('index', 'random', 'ots', 'auth', 'short', 'long', 'message', 'swap'))})
            else:
                s.append({'op': r.choice(('dup', 'pub', 'index')), 'k': 2 if x < .97 else 1})
                s[-1]['k'] = 1 if s[-1]['op'] == 'index' else 2
        return c, s

    def scripts(self, tier, rng, g):
        q = tier == 'quick'
        algs = FAST + SLOW + ([] if q else DEEP)
        for a in algs:
            key(a)
        base = E.cover(g, rng=rng)
        if q and len(base) > 170:
            base = rng.sample(base, 170)
        rnd = [self.rnd(rng, FAST if rng.random() < .96 else SLOW) for _ in range(170 if q else 2500)]
        if not q:
            rnd += [self.rnd(rng, DEEP) for _ in range(1500)]
        # whole lives: to the last signature of an XMSS key, over the boundaries of the two lowest layers of a hypertree
        life = lambda a, n, m: (cfg(a, 'zero', bds=True), [{'op': 'many', 'k': 1, 'len': m} for _ in range(n // m)] + [{'op': 'export', 'k': 1, 'bds': True, 'room': 'exact'},
                                {'op': 'import', 'k': 2, 'bds': True, 'bad': 'no'}, {'op': 'many', 'k': 2, 'len': 40}, {'op': 'sign', 'k': 2, 'len': 9, 'buf': 'exact'}, {'op': 'index', 'k': 1}])
        rnd += [life('SHA2_10_192', 1000, 500), life('MT_SHA2_20_4_192', 1010, 505), life('MT_SHA2_40_8_192', 100, 50)]
        rnd.append((cfg('MT_SHA2_20_4_192', 'zero', bds=True), [{'op': 'pub', 'k': 2}, {'op': 'pair', 'k': 2}]))
        if not q:
            rnd += [life(a, 1000, 250) for a in SLOW[1:] + DEEP[:4]] + [life('MT_SHA2_20_2_192', 1010, 101), life('MT_SHA2_20_4_192', 32760, 2730), life('MT_SHA2_60_12_192', 1010, 505)]
        return base + rnd

    def make(self):
        return Drv()


PARTS = [Part()]


def setup():
    H.init([__file__])


def main():
    return R.run('C14', PARTS, setup=setup)

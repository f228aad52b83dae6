"""C13: random bit generators."""
import ctypes as ct, itertools, os, random, threading
from lib import drbgref as G, engine as E, hitls as H, runner as R
from lib.hitls import K, L

CLOCK = [0]
TCB = ct.CFUNCTYPE(ct.c_int64)(lambda: 1700000000 + CLOCK[0])


class Data(ct.Structure):
    _fields_ = [('data', ct.c_void_p), ('len', ct.c_uint32)]


class Range(ct.Structure):
    _fields_ = [('min', ct.c_uint32), ('max', ct.c_uint32)]


GET = ct.CFUNCTYPE(ct.c_int32, ct.c_void_p, ct.POINTER(Data), ct.c_uint32, ct.POINTER(Range))
CLEAN = ct.CFUNCTYPE(None, ct.c_void_p, ct.POINTER(Data))


class Meth(ct.Structure):
    _fields_ = [('getEntropy', GET), ('cleanEntropy', CLEAN), ('getNonce', GET), ('cleanNonce', CLEAN)]


class Param(ct.Structure):
    _fields_ = [('key', ct.c_int32), ('type', ct.c_uint32), ('value', ct.c_void_p), ('len', ct.c_uint32), ('use', ct.c_uint32)]


def alg(name, id_, str_, emin, nmin, max_=0, req=65536, iv=10000, tv=0):
    return {'name': name, 'str': str_, 'emin': emin, 'nmin': nmin, 'max': max_, 'req': req, 'iv': iv, 'tv': tv}


REF, ID, ALGS = {}, {}, []


def add(name, ref, *a, **k):
    REF[name], ID[name] = ref, 'CRYPT_RAND_' + name
    ALGS.append(alg(name, None, *a, **k))


for _n, _s in (('SHA1', 128), ('SHA224', 192), ('SHA256', 256), ('SHA384', 256), ('SHA512', 256)):
    add(_n, (lambda m: lambda: G.Hash(m))(_n.lower()), _s, _s // 8, _s // 16)
    add('HMAC_' + _n, (lambda m: lambda: G.Hmac(m))(_n.lower()), _s, _s // 8, _s // 16)
for _k in (16, 24, 32):
    add('AES%d_CTR' % (8 * _k), (lambda k: lambda: G.Ctr('AES-%d' % (8 * k), k, False))(_k), 8 * _k, _k + 16, 0, max_=_k + 16)
    add('AES%d_CTR_DF' % (8 * _k), (lambda k: lambda: G.Ctr('AES-%d' % (8 * k), k, True))(_k), 8 * _k, _k, _k // 2)
add('SM3', lambda: G.Hash('sm3', True), 256, 32, 16, req=32, iv=1024, tv=60)
add('SM4_CTR_DF', lambda: G.Ctr('SM4', 16, True), 128, 32, 16, req=16, iv=1024, tv=60)
#K: CRYPT_RAND_SHA1 CRYPT_RAND_SHA224 CRYPT_RAND_SHA256 CRYPT_RAND_SHA384 CRYPT_RAND_SHA512 CRYPT_RAND_SM3 CRYPT_RAND_SM4_CTR_DF
#K: CRYPT_RAND_HMAC_SHA1 CRYPT_RAND_HMAC_SHA224 CRYPT_RAND_HMAC_SHA256 CRYPT_RAND_HMAC_SHA384 CRYPT_RAND_HMAC_SHA512
#K: CRYPT_RAND_AES128_CTR CRYPT_RAND_AES192_CTR CRYPT_RAND_AES256_CTR CRYPT_RAND_AES128_CTR_DF CRYPT_RAND_AES192_CTR_DF CRYPT_RAND_AES256_CTR_DF
#K: CRYPT_CTRL_SET_GM_LEVEL CRYPT_CTRL_SET_RESEED_TIME CRYPT_CTRL_SET_RESEED_INTERVAL CRYPT_CTRL_SET_PREDICTION_RESISTANCE CRYPT_CTRL_GET_WORKING_STATUS
#K: CRYPT_PARAM_RAND_SEED_GETENTROPY CRYPT_PARAM_RAND_SEED_CLEANENTROPY CRYPT_PARAM_RAND_SEED_GETNONCE CRYPT_PARAM_RAND_SEED_CLEANNONCE CRYPT_PARAM_RAND_SEEDCTX
#K: BSL_PARAM_TYPE_FUNC_PTR BSL_PARAM_TYPE_CTX_PTR BSL_SAL_TIME_GET_UTC_TIME_CB_FUNC


class Drv:
    ctx = None
    cfg = None

    def __init__(self):
        self.get_e = GET(lambda c, d, s, r: self.get('E', d, s, r))
        self.get_n = GET(lambda c, d, s, r: self.get('N', d, s, r))
        self.cl_e = CLEAN(lambda c, d: self.clean('E', d))
        self.cl_n = CLEAN(lambda c, d: self.clean('N', d))

    def get(self, what, d, strength, rng):
        lo, hi = rng[0].min, rng[0].max
        self.q.append([what, lo, strength])
        k = self.ent.pop(0) if self.ent else 'ok'
        if k == 'fail':
            d[0].data, d[0].len = None, 0
            return 1
        n = {'ok': lo, 'more': lo + self.rng.choice((1, 7, 16, 64)), 'less': lo - 1}[k]
        self.serial += 1
        b = random.Random('%d/%d' % (self.salt, self.serial)).randbytes(n)
        buf = H.buf(b)
        self.held[ct.addressof(buf)] = (what, buf)
        d[0].data, d[0].len = ct.addressof(buf), n
        if k == 'ok' or (k == 'more' and (self.a['max'] == 0 or what == 'N')):
            self.got.append((what, b))
        return 0

    def clean(self, what, d):
        p = d[0].data
        if p in self.held and self.held[p][0] == what:
            del self.held[p]
        else:
            self.odd = True

    def reset(self, cfg):
        self.close()
        self.cfg, self.a = cfg, cfg['alg']
        self.ref, self.live_ref = REF[self.a['name']](), False
        self.held, self.odd, self.serial, self.ent, self.q, self.got = {}, False, 0, [], [], []
        self.rng, self.salt = random.Random(repr(cfg)), 5
        CLOCK[0] = 0
        self.pr, self.iv = False, self.a['iv']
        L.BSL_SAL_CallBack_Ctrl(K.BSL_SAL_TIME_GET_UTC_TIME_CB_FUNC, TCB)
        z = ct.cast(None, GET), ct.cast(None, CLEAN)
        n = (self.get_n, self.cl_n) if cfg['nonce'] else z
        self.meth = Meth(self.get_e, self.cl_e, *n)
        i = K.get(ID[self.a['name']])
        if cfg['api'] == 'drbg':
            self.ctx = ct.c_void_p(L.CRYPT_EAL_DrbgNew(i, ct.byref(self.meth), None))
        elif cfg['api'] == 'prov':
            ps = (Param * 6)()
            fs = [('GETENTROPY', self.get_e), ('CLEANENTROPY', self.cl_e)] + ([('GETNONCE', self.get_n), ('CLEANNONCE', self.cl_n)] if cfg['nonce'] else [])
            for k, (nm, f) in enumerate(fs):
                ps[k] = Param(K.get('CRYPT_PARAM_RAND_SEED_' + nm), K.BSL_PARAM_TYPE_FUNC_PTR, ct.cast(f, ct.c_void_p).value, 0, 0)
            ps[len(fs)] = Param(0, 0, None, 0, 0)
            self.ctx = ct.c_void_p(L.CRYPT_EAL_ProviderDrbgNewCtx(None, i, b'provider=default', ps))
        else:
            L.CRYPT_EAL_RandDeinit()
        if cfg['api'] != 'rand':
            assert self.ctx and self.ctx.value, self.a['name']

    def close(self):
        if self.cfg and self.cfg['api'] == 'rand':
            L.CRYPT_EAL_RandDeinit()
        elif self.ctx:
            L.CRYPT_EAL_DrbgDeinit(self.ctx)
        self.ctx = None

    def data(self, n):
        self.serial += 1
        return random.Random('%d/%d' % (self.salt, self.serial)).randbytes(n)

    def raw_gen(self, n, ad):
        o = H.buf(b'\xa5' * (n + 8))
        a, al = (H.buf(ad) if ad else None), len(ad)
        if self.cfg['api'] == 'rand':
            r = L.CRYPT_EAL_RandbytesWithAdin(o, n, a, al) if ad else L.CRYPT_EAL_Randbytes(o, n)
        else:
            r = L.CRYPT_EAL_DrbgbytesWithAdin(self.ctx, o, n, a, al) if ad else L.CRYPT_EAL_Drbgbytes(self.ctx, o, n)
        b = bytes(o)
        if b[n:] != b'\xa5' * 8:
            self.odd = True
        return r, b[:n]

    def seeds(self):
        """what was got, in the order of use: instantiations [nonce, entropy] and entropies for reseeding"""
        out, n = [], None
        for w, b in self.got:
            if w == 'N':
                n = b
            else:
                out.append((b, n))
                n = None
        return out

    def inst(self, s, pers):
        e, n = s
        self.ref.instantiate(e, n or b'', pers)
        self.live_ref = True

    def follow_gen(self, n, ad, out, was_error):
        """replay on the reference whatever was got; where in a long request it was got is found by trying"""
        s = self.seeds()
        if was_error:
            if not s:
                return False
            self.inst(s.pop(0), b'')
        blocks = -(-n // self.a['req'])
        if not self.live_ref:
            return False
        start = self.ref.state()
        for pos in itertools.combinations(range(blocks), len(s)):
            self.ref.restore(start)
            e, got, left = list(s), b'', n
            for k in range(blocks):
                m = min(left, self.a['req'])
                if k in pos:
                    self.ref.reseed(e.pop(0)[0], ad)
                    got += self.ref.generate(m, b'')
                else:
                    got += self.ref.generate(m, ad)
                if got != out[:len(got)]:
                    break
                left -= m
            if got == out:
                return True
        return False

    def begin(self, i):
        self.ent, self.q, self.got, self.odd = list(i.get('ent', [])), [], [], False

    def result(self, r, good):
        rel = not self.held and not self.odd
        self.held = {}
        return ['yes' if r == 0 else 'no', self.q, rel, good]

    def gen(self, i):
        self.begin(i)
        ad = self.data(i['ad'])
        dead = not self.live_ref
        r, out = self.raw_gen(i['len'], ad)
        if r == 0:
            good = self.follow_gen(i['len'], ad, out, dead)
        else:
            good = True
            if self.q:
                self.live_ref = False
        return self.result(r, good)

    def do(self, i):
        op, api = i['op'], self.cfg['api']
        if op == 'tick':
            CLOCK[0] += i['d']
            return ['ok']
        if op == 'deinit':
            L.CRYPT_EAL_RandDeinit()
            self.live_ref = False
            return ['ok']
        if op == 'inst':
            self.begin(i)
            p = self.data(i['pers'])
            if api == 'rand':
                r = L.CRYPT_EAL_RandInit(K.get(ID[self.a['name']]), ct.byref(self.meth), None, H.buf(p) if p else None, len(p))
            else:
                r = L.CRYPT_EAL_DrbgInstantiate(self.ctx, H.buf(p) if p else None, len(p))
            if r == 0:
                s = self.seeds()
                if len(s) == 1:
                    self.inst(s[0], p)
            return self.result(r, True)
        if op == 'gen':
            return self.gen(i)
        if op == 'seed':
            self.begin(i)
            ad = self.data(i['ad'])
            a = H.buf(ad) if ad else None
            if api == 'rand':
                r = L.CRYPT_EAL_RandSeedWithAdin(a, len(ad)) if ad else L.CRYPT_EAL_RandSeed()
            else:
                r = L.CRYPT_EAL_DrbgSeedWithAdin(self.ctx, a, len(ad)) if ad else L.CRYPT_EAL_DrbgSeed(self.ctx)
            good = True
            if r == 0:
                s = self.seeds()
                if not self.live_ref and s:
                    self.inst(s.pop(0), b'')
                if len(s) == 1 and self.live_ref:
                    self.ref.reseed(s[0][0], ad)
                else:
                    good = False
            elif self.q:
                self.live_ref = False
            return self.result(r, good)
        if op == 'fork':
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    self.salt = 6
                    o = self.gen(i)
                    os.write(wr, repr(o).encode())
                finally:
                    os._exit(0)
            os.close(wr)
            b = b''
            while True:
                x = os.read(rd, 65536)
                if not x:
                    break
                b += x
            os.close(rd)
            os.waitpid(pid, 0)
            self.serial += 100
            return eval(b.decode()) if b else ['crash', [], False, False]
        if op in ('many', 'threads') and not self.live_ref:
            return None
        if op == 'many':
            self.begin(i)
            m, good = 0, True
            for _ in range(i['len']):
                self.q, self.got = [], []
                r, out = self.raw_gen(1, b'')
                m += len(self.q)
                good &= r == 0 and self.follow_gen(1, b'', out, False)
            self.held = {}
            return ['many', m, good]
        if op == 'threads':
            self.begin(i)
            t = 4
            per, size = i['len'] // t, min(16, self.a['req'])
            outs = [None] * t
            bar = threading.Barrier(t)

            def work(k):
                bufs = [H.buf(b'\0' * size) for _ in range(per)]
                bar.wait()
                rs = [L.CRYPT_EAL_Randbytes(b, size) if api == 'rand' else L.CRYPT_EAL_Drbgbytes(self.ctx, b, size) for b in bufs]
                outs[k] = (rs, [bytes(b) for b in bufs])
            ts = [threading.Thread(target=work, args=(k,)) for k in range(t)]
            [x.start() for x in ts]
            [x.join() for x in ts]
            want = sorted(self.ref.generate(size, b'') for _ in range(per * t))
            have = sorted(b for rs, bs in outs for b in bs)
            return ['threads', want == have and all(r == 0 for rs, _ in outs for r in rs) and not self.q]
        if op == 'zero':
            self.begin(i)
            o = H.buf(b'\xa5' * 8)
            rs = []
            if api == 'rand':
                rs += [L.CRYPT_EAL_Randbytes(o, 0), L.CRYPT_EAL_Randbytes(None, 4), L.CRYPT_EAL_RandbytesWithAdin(o, 4, None, 5), L.CRYPT_EAL_RandSeedWithAdin(None, 3)]
            else:
                rs += [L.CRYPT_EAL_Drbgbytes(self.ctx, o, 0), L.CRYPT_EAL_Drbgbytes(self.ctx, None, 4), L.CRYPT_EAL_DrbgbytesWithAdin(self.ctx, o, 4, None, 5),
                       L.CRYPT_EAL_DrbgSeedWithAdin(self.ctx, None, 3), L.CRYPT_EAL_DrbgbytesWithAdin(None, o, 4, None, 0)]
            return ['yes' if 0 in rs else 'no', self.q, True, bytes(o) == b'\xa5' * 8]
        c = self.ctx if api != 'rand' else ct.c_void_p(L.CRYPT_EAL_GetSeedCtx(False))
        if not c or not c.value:
            return None
        if op == 'status':
            v = ct.c_uint32(7)
            r = L.CRYPT_EAL_DrbgCtrl(c, K.CRYPT_CTRL_GET_WORKING_STATUS, ct.byref(v), 4)
            return ['status', r == 0 and v.value == 1]
        v = {'interval': ct.c_uint32, 'pr': ct.c_bool, 'time': ct.c_uint64, 'level': ct.c_uint32}[op](i['v'])
        cmd = {'interval': K.CRYPT_CTRL_SET_RESEED_INTERVAL, 'pr': K.CRYPT_CTRL_SET_PREDICTION_RESISTANCE, 'time': K.CRYPT_CTRL_SET_RESEED_TIME, 'level': K.CRYPT_CTRL_SET_GM_LEVEL}[op]
        return ['set', L.CRYPT_EAL_DrbgCtrl(c, cmd, ct.byref(v), ct.sizeof(v)) == 0]


PICK = ('SHA256', 'HMAC_SHA512', 'AES256_CTR', 'AES128_CTR_DF', 'SM3')


class Part(R.Part):
    module = 'Drbg'
    per_script = 60

    def __init__(self, name, depth, n, walks):
        self.name, self.depth, self.n, self.walks = name, depth, n, walks

    def consts(self, tier):
        return {'Aspect': self.name, 'Depth': self.depth, 'Algs': E.tla('{' + ', '.join(E.tla_value(a) for a in ALGS if a['name'] in PICK or a['tv']) + '}')}

    def trace_consts(self, tier):
        return dict(self.consts(tier), Depth=99)

    def rnd(self, r, long):
        """a random history, any algorithm, any lengths"""
        a = r.choice(ALGS)
        cfg = {'alg': a, 'nonce': r.random() < .6, 'api': 'rand' if self.name == 'rand' else r.choice(('drbg', 'drbg', 'prov'))}
        m, mx = a['req'], a['max']
        adlen = lambda: r.choice((0, 0, 1, 16, 47, 48, 100)) if not mx else r.choice((0, 0, 1, 16, mx - 1, mx, mx + 1))
        ent = lambda: [r.choice(('ok', 'ok', 'more', 'more', 'less', 'fail') if r.random() < .25 else ('ok', 'more') if not mx else ('ok',)) for _ in range(r.choice((0, 1, 2, 3)))]
        pre = []
        if cfg['api'] != 'rand':
            for _ in range(r.choice((0, 0, 1, 2))):
                pre.append(r.choice(([{'op': 'interval', 'v': r.choice((0, 1, 2, 3, 7))}], [{'op': 'pr', 'v': r.random() < .7}],
                                     [{'op': 'time', 'v': r.choice((0, 5, 60))}] if a['tv'] else [{'op': 'pr', 'v': True}]))[0])
        s = pre + [{'op': 'inst', 'pers': adlen(), 'ent': ent() if r.random() < .3 else []}]
        ticked = False
        plain = not any(x['op'] == 'pr' and x['v'] or x['op'] == 'interval' and not x['v'] for x in pre)
        big = plain and not any(x['op'] == 'interval' for x in pre)
        for _ in range(r.choice((4, 8, 14))):
            w = r.random()
            if .8 <= w < .88 and (ticked and a['tv'] or not (plain if w < .84 else big)):
                continue
            if w < .55:
                s.append({'op': 'gen', 'len': r.choice((1, 15, 16, 17, 31, 32, 33, 47, 48, 55, 63, 64, 65, 100, 110, 111, 112) + ((m - 1, m, m + 1, 2 * m + 3) if m < 100 or r.random() < .04 else ())), 'ad': adlen(), 'ent': ent()})
            elif w < .7:
                s.append({'op': 'seed', 'ad': adlen(), 'ent': ent()})
            elif w < .75:
                s.append({'op': 'fork', 'len': r.choice((1, 20, 40)), 'ad': adlen(), 'ent': ent()})
            elif w < .8:
                ticked = True
                s.append({'op': 'tick', 'd': r.choice((1, 5, 6, 59, 60, 61, 600, 601))})
            elif w < .84:
                s.append({'op': 'many', 'len': r.choice((3, 9, 20, 40))})
            elif w < .88:
                s.append({'op': 'threads', 'len': 40})
            elif w < .91:
                s.append({'op': 'inst', 'pers': adlen(), 'ent': ent()})
            elif w < .94:
                s.append({'op': 'zero'})
            elif w < .96:
                s.append({'op': 'status'})
            elif cfg['api'] == 'rand':
                s += [{'op': 'deinit'}, {'op': 'inst', 'pers': adlen(), 'ent': ent()}]
            elif a['tv']:
                s.append({'op': r.choice(('interval', 'level')), 'v': 2})
            else:
                s.append({'op': 'interval', 'v': 2})
        return cfg, s

    def scripts(self, tier, rng, g):
        base = E.cover(g, rng=rng)
        if tier == 'quick' and len(base) > self.n:
            base = rng.sample(base, self.n)
        k = self.walks if tier == 'quick' else self.walks * 20
        rnd = [self.rnd(rng, False) for _ in range(k)]
        # the default limits, to the request
        for a in ALGS:
            cfg = {'alg': a, 'nonce': True, 'api': 'rand' if self.name == 'rand' else 'drbg'}
            rnd.append((cfg, [{'op': 'inst', 'pers': 0, 'ent': []}, {'op': 'many', 'len': a['iv'] - 1}, {'op': 'many', 'len': 1}, {'op': 'many', 'len': 1}, {'op': 'many', 'len': a['iv'] - 1}, {'op': 'many', 'len': 1}]))
            if a['tv']:
                for lv in ((1, 2) if self.name != 'rand' else ()):
                    t = 600 if lv == 1 else 60
                    rnd.append((cfg, [{'op': 'level', 'v': lv}, {'op': 'inst', 'pers': 0, 'ent': []}, {'op': 'tick', 'd': t}, {'op': 'gen', 'len': 5, 'ad': 0, 'ent': []},
                                      {'op': 'tick', 'd': 1}, {'op': 'gen', 'len': 5, 'ad': 0, 'ent': []}, {'op': 'gen', 'len': 5, 'ad': 0, 'ent': []}]))
        return base + rnd

    def make(self):
        return Drv()


PARTS = [Part('drbg', 3, 900, 700), Part('rand', 3, 500, 250)]


def setup():
    H.init([__file__])


def main():
    return R.run('C13', PARTS, setup=setup)

"""C10: certification path validation (trust, signatures, constraints, validity, revocation)."""
import ctypes as ct, json, random
from lib import der, engine as E, hitls as H, runner as R
from lib.hitls import K, L
#K: BSL_LIST_POS_END HITLS_X509_ERR_CERT_NOT_CA HITLS_X509_STORECTX_DEEP_COPY_SET_CA HITLS_X509_STORECTX_SET_CRL HITLS_X509_STORECTX_SET_PARAM_FLAGS HITLS_X509_STORECTX_CLR_PARAM_FLAGS
#K: HITLS_X509_STORECTX_SET_TIME HITLS_X509_STORECTX_SET_PARAM_DEPTH HITLS_X509_STORECTX_SET_PURPOSE HITLS_X509_STORECTX_SET_SECBITS
#K: HITLS_X509_STORECTX_CLEAR_CRL HITLS_X509_VFY_FLAG_CRL_ALL HITLS_X509_VFY_FLAG_CRL_DEV HITLS_X509_VFY_FLAG_PARTIAL_CHAIN
#K: HITLS_X509_VFY_FLAG_DISABLE_TIME_CHECK HITLS_X509_VFY_FLAG_CRL_LITE HITLS_X509_VFY_FLAG_CRL_USE_DELTA BSL_FORMAT_ASN1
#K: HITLS_X509_ERR_ISSUE_CERT_NOT_FOUND HITLS_X509_ERR_ROOT_CERT_NOT_FOUND HITLS_X509_ERR_CHAIN_DEPTH_UP_LIMIT HITLS_X509_ERR_VFY_CHECK_SECBITS
#K: HITLS_X509_ERR_PROCESS_CRITICALEXT HITLS_X509_ERR_VFY_EXTENSIONS_REQUIRE_V3 HITLS_X509_ERR_VFY_INVALID_CA HITLS_X509_ERR_VFY_INTERCA_INVALID_VERSION
#K: HITLS_X509_ERR_VFY_INTERCA_INVALID_BCONS HITLS_X509_ERR_VFY_KU_NO_CERTSIGN HITLS_X509_ERR_VFY_PATHLEN_EXCEEDED HITLS_X509_ERR_VFY_PURPOSE_UNMATCH
#K: HITLS_X509_ERR_VFY_NOTBEFORE_IN_FUTURE HITLS_X509_ERR_VFY_NOTAFTER_EXPIRED HITLS_X509_ERR_VFY_SIGNALG_NOT_MATCH HITLS_X509_ERR_VFY_CERT_SIGN_FAIL
#K: HITLS_X509_ERR_VFY_CRL_NOT_FOUND HITLS_X509_ERR_VFY_KU_NO_CRLSIGN HITLS_X509_ERR_VFY_CRLSIGN_FAIL HITLS_X509_ERR_VFY_THISUPDATE_IN_FUTURE
#K: HITLS_X509_ERR_VFY_NEXTUPDATE_EXPIRED HITLS_X509_ERR_VFY_DIFFERENT_CRL_SCOPE HITLS_X509_ERR_VFY_CERT_REVOKED HITLS_X509_ERR_VFY_CRL_TIME_ERROR

WHY = {'ISSUE_CERT_NOT_FOUND': 'issuer', 'ROOT_CERT_NOT_FOUND': 'root', 'CHAIN_DEPTH_UP_LIMIT': 'depth', 'VFY_CHECK_SECBITS': 'secbits',
       'PROCESS_CRITICALEXT': 'critext', 'VFY_EXTENSIONS_REQUIRE_V3': 'v3', 'VFY_INVALID_CA': 'ca', 'VFY_INTERCA_INVALID_VERSION': 'ca',
       'VFY_INTERCA_INVALID_BCONS': 'ca', 'VFY_KU_NO_CERTSIGN': 'certsign', 'VFY_PATHLEN_EXCEEDED': 'pathlen', 'VFY_PURPOSE_UNMATCH': 'purpose',
       'VFY_NOTBEFORE_IN_FUTURE': 'early', 'VFY_NOTAFTER_EXPIRED': 'late', 'VFY_SIGNALG_NOT_MATCH': 'alg', 'VFY_CERT_SIGN_FAIL': 'sig',
       'VFY_CRL_NOT_FOUND': 'nocrl', 'VFY_KU_NO_CRLSIGN': 'crlku', 'VFY_CRLSIGN_FAIL': 'crlsig', 'VFY_THISUPDATE_IN_FUTURE': 'crltime',
       'VFY_NEXTUPDATE_EXPIRED': 'crltime', 'VFY_DIFFERENT_CRL_SCOPE': 'crlscope', 'VFY_CERT_REVOKED': 'revoked', 'VFY_CRL_TIME_ERROR': 'crltime'}
FLAGS = {'crlall': 'CRL_ALL', 'crldev': 'CRL_DEV', 'partial': 'PARTIAL_CHAIN', 'notime': 'DISABLE_TIME_CHECK', 'lite': 'CRL_LITE', 'delta': 'CRL_USE_DELTA'}
PURPOSE = {'': 0, 'server': 1, 'client': 2, 'sign': 3, 'encrypt': 4, 'code': 5, 'ocsp': 6, 'time': 7, 'any': 8}
T0 = 1600000000
REASON = {'': None, 'kc': 1, 'hold': 6, 'remove': 8}
UNKNOWN = '1.3.6.1.4.1.55555.7'
RBITS = {'kc': [1], 'rest': [2, 3, 4, 5, 6, 7, 8]}


def at(t):
    """abstract moments: below 100 seconds after T0; 500 is between T0 and the far future"""
    return {1000: 2524607999, 900: 2500000000, 2000: 3000000000, 600: 2400000000}.get(t, T0 + t)


MEMO = {}


def bad_alg(md):
    return 'sha384' if md == 'sha256' else 'sha256'


def make_cert(n, c):
    """the certificate of a record; the serial number is its index in the world"""
    key = ('c', n, json.dumps(c, sort_keys=True))
    if key in MEMO:
        return MEMO[key]
    k, sk = der.Key(c['k']), der.Key(c['sk'])
    real = der.Key(c['by']) if c['by'] != 'none' else sk
    x = []
    if c['v'] == 3:
        if c['bc'] != 'no':
            x.append(der.x_bc(c['bc'] == 'ca', c['pl'] if c['pl'] >= 0 else None))
        if c['ku']:
            x.append(der.x_ku(c['ku']))
        if c['eku']:
            x.append(der.x_eku(c['eku']))
        if c['ski']:
            x.append(der.x_ski(der.Key(c['ski']).kid))
        if c['aki']:
            x.append(der.x_aki(der.Key(c['aki']).kid))
        if c['ext'] != 'no':
            x.append(der.ext(UNKNOWN, der.octets(b'hello'), c['ext'] == 'crit'))
        if c['cdp']:
            x.append(der.ext('2.5.29.31', der.seq(*[der.seq(der.tlv(0xa0, dpname(d)), *([ctx_bits(1, RBITS[r])] if r != 'all' else []))
                                                   for d, r in c['cdp']])))
    inner = None if c['alg'] else sk.alg(bad_alg(c['md']))
    d = der.cert(100 + n, der.name([(10, 'verif'), (3, 'CN ' + c['i'])]), der.name([(10, 'verif'), (3, 'CN ' + c['s'])]), at(c['nb']), at(c['na']), k, real, c['md'],
                 c['v'], x, inner, flip=c['by'] == 'none')
    MEMO[key] = d
    return d


def dpname(d):
    return der.tlv(0xa0, der.gn('uri', 'http://crl.example.test/' + d))


def ctx_bits(tag, on):
    b = der.bitlist(on)
    return bytes([0x80 | tag]) + b[1:]


def make_crl(c):
    key = ('l', json.dumps(c, sort_keys=True))
    if key in MEMO:
        return MEMO[key]
    sk = der.Key(c['sk'])
    real = der.Key(c['by']) if c['by'] != 'none' else sk
    x = []
    if c['aki']:
        x.append(der.x_aki(der.Key(c['aki']).kid))
    if c['num'] >= 0:
        x.append(der.ext('2.5.29.20', der.integer(c['num'])))
    if c['delta'] >= 0:
        x.append(der.ext('2.5.29.27', der.integer(c['delta']), True))
    if c['scope'] != 'all' or c['reasons'] != 'all' or c['dp']:
        idp = b''
        if c['dp']:
            idp += der.tlv(0xa0, dpname(c['dp']))
        if c['scope'] == 'user':
            idp += der.tlv(0x81, b'\xff')
        if c['scope'] == 'ca':
            idp += der.tlv(0x82, b'\xff')
        if c['reasons'] != 'all':
            idp += ctx_bits(3, RBITS[c['reasons']])
        if c['scope'] == 'attr':
            idp += der.tlv(0x85, b'\xff')
        x.append(der.ext('2.5.29.28', der.seq(idp), True))
    if c['ext'] != 'no':
        x.append(der.ext(UNKNOWN, der.octets(b'hello'), c['ext'] == 'crit'))
    inner = None if c['alg'] else sk.alg('sha384')
    d = der.crl(der.name([(10, 'verif'), (3, 'CN ' + c['i'])]), at(c['tu']), at(c['nu']) if c['nu'] >= 0 else None,
                [(100 + n, T0, REASON[r]) for n, r in c['rev']], real, exts=x, inner=inner, flip=c['by'] == 'none')
    MEMO[key] = d
    return d


class BB(ct.Structure):
    _fields_ = [('data', ct.c_void_p), ('len', ct.c_uint32)]


def parse(f, d):
    b = H.buf(d)
    s = BB(ct.addressof(b), len(d))
    p = ct.c_void_p()
    r = f(K.BSL_FORMAT_ASN1, ct.byref(s), ct.byref(p))
    assert r == 0, 'parse %x' % r
    return p


class Drv:
    def reset(self, c):
        self.c = c
        self.certs = [parse(L.HITLS_X509_CertParseBuff, make_cert(n + 1, x)) for n, x in enumerate(c['certs'])]
        self.crls = [parse(L.HITLS_X509_CrlParseBuff, make_crl(x)) for x in c['crls']]
        self.st = None
        self.new()

    def new(self):
        if self.st:
            L.HITLS_X509_StoreCtxFree(self.st)
        self.st = ct.c_void_p(L.HITLS_X509_StoreCtxNew())
        self.trusted, self.loaded = set(), set()

    def close(self):
        L.HITLS_X509_StoreCtxFree(self.st)
        for x in self.certs:
            L.HITLS_X509_CertFree(x)
        for x in self.crls:
            L.HITLS_X509_CrlFree(x)

    def ctl(self, name, v=None, n=0):
        return L.HITLS_X509_StoreCtxCtrl(self.st, K.get('HITLS_X509_STORECTX_' + name), v, n)

    def flag(self, f, on=True):
        v = ct.c_uint64(K.get('HITLS_X509_VFY_FLAG_' + FLAGS[f]))
        return self.ctl('SET_PARAM_FLAGS' if on else 'CLR_PARAM_FLAGS', ct.byref(v), 8)

    def num(self, cmd, v, t):
        v = t(v)
        return self.ctl(cmd, ct.byref(v), ct.sizeof(t))

    def trust(self, n):
        if n in self.trusted:
            return None
        self.trusted.add(n)
        return self.ctl('DEEP_COPY_SET_CA', self.certs[n - 1])

    def crl(self, n):
        if n in self.loaded:
            return None
        self.loaded.add(n)
        return self.ctl('SET_CRL', self.crls[n - 1])

    def do(self, i):
        op = i['op']
        if op == 'setup':
            self.new()
            rs = [self.trust(n) for n in i['trust']] + [self.crl(n) for n in i['crls']] + [self.flag(f) for f in i['flags']]
            if i['purpose']:
                rs.append(self.num('SET_PURPOSE', PURPOSE[i['purpose']], ct.c_int32))
            if i['time'] != -1:
                rs.append(self.num('SET_TIME', at(i['time']), ct.c_int64))
            if i['bits']:
                rs.append(self.num('SET_SECBITS', i['bits'], ct.c_uint32))
            rs.append(self.num('SET_PARAM_DEPTH', i['depth'], ct.c_int32))
            return done(rs)
        if op == 'verify':
            return self.verify(i['chain'])
        if op == 'trust':
            r = self.trust(i['n'])
            if r is None:
                return None
        elif op == 'crl':
            r = self.crl(i['n'])
            if r is None:
                return None
        elif op == 'clearcrl':
            self.loaded = set()
            r = self.ctl('CLEAR_CRL')
        elif op in ('set', 'clr'):
            r = self.flag(i['f'], op == 'set')
        elif op == 'time':
            r = self.num('SET_TIME', at(i['t']), ct.c_int64)
        elif op == 'depth':
            r = self.num('SET_PARAM_DEPTH', i['d'], ct.c_int32)
        elif op == 'purpose':
            r = self.num('SET_PURPOSE', PURPOSE[i['p']], ct.c_int32)
        elif op == 'bits':
            r = self.num('SET_SECBITS', i['b'], ct.c_uint32)
        elif op == 'dup':
            s = L.HITLS_X509_StoreCtxDup(self.st)
            r = 0 if s else 1
            if s:
                L.HITLS_X509_StoreCtxFree(self.st)
                self.st = ct.c_void_p(s)
        return done([r])

    def verify(self, chain):
        lst = ct.c_void_p(L.BSL_LIST_New(8))
        for n in chain:
            assert L.BSL_LIST_AddElement(lst, self.certs[n - 1], K.BSL_LIST_POS_END) == 0
        r = L.HITLS_X509_CertVerify(self.st, lst)
        L.BSL_LIST_FreeWithoutData(lst)
        if r == 0:
            return ['ok']
        w = CODES.get(r, '%x' % r)
        return ['no', w]


CODES = {}


def done(rs):
    rs = [r for r in rs if r]
    return ['done'] if not rs else ['refused'] if set(rs) == {K.HITLS_X509_ERR_CERT_NOT_CA} else ['error %x' % max(rs)]


class Part(R.Part):
    module = 'Chain'
    per_script = 30

    def __init__(self, aspect, n=None, lite=True):
        self.name = aspect
        self.aspect, self.lite = aspect, lite
        self.n = n

    def consts(self, tier):
        return {'Aspect': self.aspect, 'Depth': 2, 'Lite': self.lite}

    def scripts(self, tier, rng, g):
        base = [s for s in E.cover(g, rng=rng) if any(i['op'] == 'verify' for i in s[1])]
        if self.n and tier == 'quick' and len(base) > self.n:
            base = rng.sample(base, self.n)
        return base

    def make(self):
        return Drv()


KEYS = 'abcdeqrwf'
TIMES = (-1, 9, 10, 11, 19, 20, 21, 29, 30, 31, 39, 40, 41, 50)


class World:
    """a random hierarchy: a spine of authorities, rollovers, cross certificates, self-issued links, now and then a fault"""

    def __init__(self, r):
        self.r = r
        self.names, self.certs, self.crls = {}, [], []
        self.kinds = r.choice((('ec',), ('ec',), ('ec', 'rsa', 'ed')))
        n = r.choice((1, 2, 2, 3, 3, 4))
        spine = ['R', 'A', 'B', 'C'][:n]
        prev = None
        for x in spine:
            k = self.key()
            self.names[x] = k
            i = prev or x
            self.add(x, i, k, self.names[i], True, n)
            if r.random() < .15:                 # a new key under the old one, same name
                k2 = self.key()
                self.add(x, x, k2, k, True, n)
                if r.random() < .5:
                    self.names[x] = k2
            if r.random() < .12:                 # the same key once more
                self.add(x, i, k, self.names[i], True, n)
            prev = x
        if r.random() < .25:                     # a second root that also certifies somebody
            k = self.key()
            self.names['S'] = k
            self.add('S', 'S', k, k, True, n)
            x = r.choice(spine)
            self.add(x, 'S', self.names[x], k, True, n)
        self.add('L', prev, self.key(), self.names[prev], False, n)
        if r.random() < .1:
            self.add('M', 'L', self.key(), self.certs[-1]['k'], False, n)
        self.leaf = len(self.certs)
        fault = r.choice((0, 0, 1, 1, 2))
        for _ in range(fault):
            self.spoil(r.choice(self.certs))
        if r.random() < .5:
            for x in list(self.names):
                for _ in range(r.choice((0, 1, 1, 1, 2))):
                    self.crls.append(self.crl(x))

    def key(self):
        ks = {'ec': 'abcdeq', 'rsa': 'rw', 'ed': 'f'}[self.r.choice(self.kinds)]
        return self.r.choice(ks)

    def add(self, s, i, k, sk, ca, n):
        r = self.r
        eku = ([] if ca else r.choice(([], ['server'], ['client'], ['client', 'server'], ['code'], ['email'], ['ocsp'], ['time'], ['any'])))
        self.certs.append({'s': s, 'i': i, 'k': k, 'sk': sk, 'by': sk, 'ski': r.choice((k, k, '')), 'aki': r.choice((sk, sk, '')), 'v': 3,
                           'bc': 'ca' if ca else r.choice(('ee', 'no')), 'pl': r.choice((-1, -1, -1, -1, 0, 1, 2, n, n)) if ca else -1,
                           'ku': r.choice(('cr', 'cr', 'c', '')) if ca else r.choice(('s', 'e', '', 's')), 'eku': eku, 'nb': r.choice((10, 20)), 'na': r.choice((1000, 40, 2000)),
                           'ext': r.choice(('no', 'plain')), 'alg': True, 'md': r.choice(('sha256', 'sha256', 'sha384', 'sha512')),
                           'cdp': [] if r.random() < .7 else r.choice(([['u', 'all']], [['w', 'all']], [['u', 'kc']], [['u', 'kc'], ['w', 'rest']]))})

    def spoil(self, c):
        r = self.r
        f = r.choice(('by', 'by', 'alg', 'ext', 'aki', 'ski', 'i', 'bc', 'pl', 'ku', 'eku', 'v', 'md', 'nb', 'na'))
        if f == 'by':
            c['by'] = r.choice(('none', r.choice([k for k in KEYS if kind(k) == kind(c['sk'])])))
        elif f == 'v':
            c.update(v=1, bc='no', ku='', eku=[], ski='', aki='', ext='no', pl=-1, cdp=[])
        elif f == 'bc':
            c['bc'] = r.choice(('no', 'ee', 'ca'))
            c['pl'] = -1 if c['bc'] != 'ca' else c['pl']
        elif f == 'pl':
            c['pl'] = 0 if c['bc'] == 'ca' else -1
        else:
            c[f] = {'alg': False, 'ext': 'crit', 'aki': r.choice(KEYS), 'ski': r.choice(KEYS), 'i': r.choice('RABCSZ'), 'ku': r.choice(('s', 'r', 'e', 'n', 'a', 'cs')),
                    'eku': r.choice((['any'], ['client'])), 'md': 'sha1' if kind(c['sk']) != 'ed' else c['md'], 'nb': 600, 'na': 30}[f]
        if c['v'] == 1:
            c.update(bc='no', ku='', eku=[], ski='', aki='', ext='no', pl=-1, cdp=[])
        if kind(c['sk']) == 'ed':
            c['alg'] = True

    def crl(self, x):
        r = self.r
        k = self.names[x]
        odd = lambda v, *alt: r.choice(alt) if r.random() < .08 else v
        return {'i': odd(x, 'Z'), 'by': odd(k, 'none', k if kind(k) == 'ed' else {'ec': 'e', 'rsa': 'r'}[kind(k)]), 'sk': k, 'aki': odd(r.choice((k, '')), r.choice(KEYS)), 'tu': r.choice((10, 20, 20, 30)),
                'nu': r.choice((900, 900, -1, 40)), 'rev': [[n, r.choice(('', 'kc', 'hold'))] for n in r.sample(range(1, len(self.certs) + 1), r.choice((0, 0, 0, 1, 2)))],
                'scope': odd('all', 'user', 'ca', 'attr'), 'reasons': r.choice(('all', 'all', 'all', 'kc', 'rest')) if r.random() < .6 else 'all',
                'dp': r.choice(('u', 'w')) if r.random() < .15 else '', 'ext': odd('no', 'crit', 'plain'), 'num': r.choice((5, 5, 4, 6, -1)), 'delta': -1,
                'alg': kind(k) == 'ed' or odd(True, False)}

    def deltas(self):
        r = self.r
        for c in list(self.crls):
            if r.random() < .4:
                self.crls.append(dict(c, num=r.choice((5, 6, 7, 8)), delta=r.choice((4, 5, 6)), tu=r.choice((10, 20, 30, 40)), nu=r.choice((900, 40)),
                                      rev=[[n, r.choice(('', 'remove', 'kc'))] for n in r.sample(range(1, len(self.certs) + 1), r.choice((0, 1, 2)))]))

    def config(self):
        ts = list(range(10, 42))
        self.r.shuffle(ts)
        for c in self.crls:         # no two lists of the same moment: which one counts would be open
            c['tu'] = ts.pop() if ts else 600
        return {'certs': self.certs, 'crls': [c for n, c in enumerate(self.crls) if c not in self.crls[:n]]}


def kind(k):
    return {'r': 'rsa', 'w': 'rsa', 'f': 'ed'}.get(k, 'ec')


class Mix(Part):
    """random hierarchies and histories of a store"""
    per_script = 60

    def __init__(self, name='mix', lite=True):
        super().__init__('mix', lite=lite)
        self.name = name

    def consts(self, tier):
        return {'Aspect': 'mix', 'Depth': 1, 'Lite': self.lite}

    def scripts(self, tier, r, g):
        out = []
        for j in range(2500 if tier == 'quick' else 14000):
            w = World(r)
            if not self.lite:
                w.deltas()
            cfg = w.config()
            n = len(w.certs)
            ids = list(range(1, n + 1))
            roots = [m for m in ids if w.certs[m - 1]['s'] == w.certs[m - 1]['i']]
            chain = lambda: [r.choice((w.leaf, w.leaf, w.leaf, w.leaf, r.choice(ids)))]

            def verify():
                c = chain()
                rest = [m for m in ids if m != c[0]]
                k = r.choice((len(rest), len(rest), len(rest), len(rest), r.randrange(0, len(rest) + 1)))
                return {'op': 'verify', 'chain': c + r.sample(rest, k)}
            flag = lambda: r.choice(('partial', 'notime', 'crlall', 'crldev', 'delta', 'lite') if not self.lite else ('partial', 'notime', 'crlall', 'crldev'))
            fl = [f for f in ('partial', 'notime') if r.random() < .2] + ([r.choice(('crlall', 'crldev'))] if cfg['crls'] and r.random() < .8 else [])
            if not self.lite:
                fl += [f for f in ('delta', 'lite') if r.random() < (.7 if f == 'delta' else .1)]
            have = set(r.sample(ids, 1) if r.random() < .15 else roots[:1] if r.random() < .8 else r.sample(roots, r.randrange(0, len(roots) + 1)))
            seen = set(m for m in range(1, len(cfg['crls']) + 1) if r.random() < .85)
            s = [{'op': 'setup', 'trust': sorted(have, key=lambda m: r.random()), 'crls': sorted(seen, key=lambda m: r.random()), 'flags': fl,
                  'purpose': r.choice(('', '', '', '', '', '', '', '', '', 'server', 'client', 'sign', 'encrypt', 'code', 'ocsp', 'time', 'any')),
                  'depth': r.choice((20, 20, 20, 20, 20, 20, 20, 20, 20, 2, 3, 4, 5)), 'time': r.choice(TIMES) if r.random() < .7 else 25, 'bits': r.choice((0, 0, 0, 0, 63, 64, 80, 81, 112, 113, 128, 129, 192, 193)) if r.random() < .3 else 0}]
            s.append(verify())
            for _ in range(r.randrange(1, 8)):
                op = r.choice(('trust', 'crl', 'clearcrl', 'set', 'clr', 'time', 'depth', 'purpose', 'bits', 'dup') if r.random() < .3 else ('trust', 'crl', 'set', 'clr', 'time', 'time'))
                if op == 'trust':
                    m = r.choice(ids)
                    if m in have:
                        continue
                    if w.certs[m - 1]['v'] != 3 or w.certs[m - 1]['bc'] == 'ca':
                        have.add(m)
                    s.append({'op': op, 'n': m})
                elif op == 'crl':
                    m = r.randrange(0, len(cfg['crls'])) + 1 if cfg['crls'] else 0
                    if not m or m in seen:
                        continue
                    seen.add(m)
                    s.append({'op': op, 'n': m})
                elif op == 'clearcrl':
                    if r.random() < .3:
                        seen = set()
                        s.append({'op': op})
                elif op in ('set', 'clr'):
                    s.append({'op': op, 'f': flag()})
                elif op == 'time':
                    s.append({'op': op, 't': r.choice((21, 25, 25, 29) + TIMES[1:])})
                elif op == 'depth':
                    s.append({'op': op, 'd': r.choice((n, n, 20, 20, r.randrange(0, 7)))})
                elif op == 'purpose':
                    s.append({'op': op, 'p': r.choice(list(PURPOSE)[1:])})
                elif op == 'bits':
                    s.append({'op': op, 'b': r.choice((1, 80, 81, 112, 113, 128, 129, 192, 193))})
                else:
                    s.append({'op': op})
                if r.random() < .6:
                    s.append(verify())
            s.append(verify())
            out.append((cfg, s))
        return out


PARTS = [Part('path', 2500), Part('crl'), Part('delta'), Mix()]


def setup(d=None):
    H.init([__file__], d)
    for k, v in WHY.items():
        CODES[K.get('HITLS_X509_ERR_' + k)] = v


def main():
    return R.run('C10', PARTS, setup=setup)

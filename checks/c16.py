"""C16: key agreement, key encapsulation and public-key encryption over histories of two key contexts."""
import ctypes as ct, random
from lib import der as D, engine as E, hitls as H, oracle as O, pk, pkeys as Q, pqref as PQ, runner as R
from lib.hitls import K, L
from checks import c15

#K: CRYPT_CTRL_SET_RSA_RSAES_OAEP CRYPT_CTRL_SET_RSA_OAEP_LABEL CRYPT_CTRL_SET_RSA_RSAES_PKCSV15 CRYPT_CTRL_SET_RSA_RSAES_PKCSV15_TLS CRYPT_PARAM_RSA_MD_ID CRYPT_PARAM_RSA_MGF1_ID
#K: CRYPT_HYBRID_X25519_MLKEM512 CRYPT_HYBRID_X25519_MLKEM768 CRYPT_HYBRID_X25519_MLKEM1024 CRYPT_HYBRID_ECDH_NISTP256_MLKEM768 CRYPT_HYBRID_ECDH_NISTP384_MLKEM1024 CRYPT_HYBRID_ECDH_NISTP521_MLKEM512
#K: CRYPT_PKEY_HYBRID_KEM CRYPT_PKEY_DH

NAMES = {'x25519': ['x25519'], 'ecdh': ['ecdh' + c for c in ('nistp224', 'nistp256', 'nistp384', 'nistp521', 'brainpoolp256r1', 'brainpoolp384r1', 'brainpoolp512r1')],
         'dh': ['dh1024', 'dh1024b'], 'mlkem': ['mlkem512', 'mlkem768', 'mlkem1024'],
         'hybrid': ['X25519_MLKEM512', 'X25519_MLKEM768', 'X25519_MLKEM1024', 'ECDH_NISTP256_MLKEM768', 'ECDH_NISTP384_MLKEM1024', 'ECDH_NISTP521_MLKEM512'],
         'oaep': ['rsa1024', 'rsa2048', 'rsa1024e3'], 'pkcs1': ['rsa1024', 'rsa2048'], 'sm2': ['sm2']}
ALGS = {}
SMALL = [bytes(32), b'\1' + bytes(31), bytes.fromhex('e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800'),
         bytes.fromhex('5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157'), bytes.fromhex('ec' + 'ff' * 30 + '7f'), bytes.fromhex('ed' + 'ff' * 30 + '7f'), bytes.fromhex('ee' + 'ff' * 30 + '7f')]


class Dh(Q.Alg):
    size = prvsize = 400

    def __init__(self, salt=0):
        super().__init__('CRYPT_PKEY_DH')
        self.g = Q.dsa_group(1024, 160, salt)

    def setup(self, c):
        p, q, g = self.g
        f = lambda v: v.to_bytes((v.bit_length() + 7) // 8, 'big')
        k, keep = Q.lay(['p', 'q', 'g'], {'p': f(p), 'q': f(q), 'g': f(g)}, K.CRYPT_PKEY_DH)
        r = L.CRYPT_EAL_PkeySetPara(c, ct.byref(k))
        assert r == 0, hex(r)


def x25519(k, u):
    """RFC 7748 (any u, also one OpenSSL refuses)"""
    p = 2 ** 255 - 19
    k = int.from_bytes(k, 'little') & ~7 & (1 << 255) - 1 | 1 << 254
    x1 = int.from_bytes(u, 'little') & (1 << 255) - 1
    x2, z2, x3, z3, sw = 1, 0, x1, 1, 0
    for t in range(254, -1, -1):
        b = k >> t & 1
        if sw ^ b:
            x2, x3, z2, z3 = x3, x2, z3, z2
        sw = b
        A, B, C, Dd = x2 + z2, x2 - z2, x3 + z3, x3 - z3
        AA, BB = A * A % p, B * B % p
        Ee, DA, CB = AA - BB, Dd * A, C * B
        x3, z3 = (DA + CB) ** 2 % p, x1 * (DA - CB) ** 2 % p
        x2, z2 = AA * BB % p, Ee * (AA + 121665 * Ee) % p
    if sw:
        x2, z2 = x3, z3
    return (x2 * pow(z2, p - 2, p) % p).to_bytes(32, 'little')


def ecdh(curve, prv, pub):
    """x coordinate, or None for a point that is none"""
    oid = Q.CURVES['CRYPT_ECC_' + curve.upper()]
    q = pk.spki(D.seq(D.seq(D.oid('1.2.840.10045.2.1'), D.oid(oid)), D.bits(pub)))
    if not q:
        return None
    n = (len(pub) - 1) // 2
    k = pk.priv(D.seq(D.integer(0), D.seq(D.oid('1.2.840.10045.2.1'), D.oid(oid)), D.octets(D.seq(D.integer(1), D.octets(prv.rjust(n, b'\0'))))))
    c = pk.ctx_new(k, None)
    out, l = ct.create_string_buffer(n), ct.c_size_t(n)
    ok = pk.derive_init(c) == 1 and pk.derive_peer(c, q) == 1 and pk.derive(c, out, ct.byref(l)) == 1
    pk.ctx_free(c)
    pk.pkey_free(k)
    pk.pkey_free(q)
    return out.raw[:l.value] if ok else None


def mgf(md, seed, n):
    out, j = b'', 0
    while len(out) < n:
        out += c15.digest(md, seed + j.to_bytes(4, 'big'))
        j += 1
    return out[:n]


def xor(a, b):
    return bytes(x ^ y for x, y in zip(a, b))


def oaep_encode(k, m, md, mg, label, seed, y=0, one=1, lh=0, ps=0):
    h = len(seed)
    db = bytearray(c15.digest(md, label) + bytes(k - len(m) - 2 * h - 2) + bytes([one]) + m)
    db[0] ^= lh
    if ps:
        db[h] = ps
    mdb = xor(db, mgf(mg, seed, k - h - 1))
    return bytes([y]) + xor(seed, mgf(mg, mdb, h)) + mdb


def oaep_decode(em, md, mg, label):
    h = len(c15.digest(md, b''))
    mdb = em[1 + h:]
    seed = xor(em[1:1 + h], mgf(mg, mdb, h))
    db = xor(mdb, mgf(mg, seed, len(mdb)))
    r = db[h:].lstrip(b'\0')
    return r[1:] if em[0] == 0 and db[:h] == c15.digest(md, label) and r[:1] == b'\1' else None


def kdf(z, n):
    return b''.join(O.digest('SM3', z + j.to_bytes(4, 'big')) for j in range(1, n // 32 + 2))[:n]


def sm2_enc(pub, m, k):
    C = pk.SM2
    x1, y1 = C.mul(k, C.g)
    x2, y2 = (v.to_bytes(32, 'big') for v in C.mul(k, C.dec(pub)))
    if not any(kdf(x2 + y2, len(m))):
        return sm2_enc(pub, m, k + 1)
    return x1, y1, O.digest('SM3', x2 + m + y2), xor(m, kdf(x2 + y2, len(m)))


def sm2_der(x, y, h, c):
    return D.seq(D.integer(x), D.integer(y), D.octets(h), D.octets(c))


def tlv(b):
    n, o = (b[1], 2) if b[1] < 128 else (int.from_bytes(b[2:2 + b[1] - 128], 'big'), 2 + b[1] - 128)
    return b[0], b[o:o + n], b[o + n:]


def sm2_parts(s):
    _, b, _ = tlv(s)
    _, x, b = tlv(b)
    _, y, b = tlv(b)
    _, h, b = tlv(b)
    _, c, _ = tlv(b)
    return int.from_bytes(x, 'big'), int.from_bytes(y, 'big'), h, c


def sm2_dec(prv, s):
    x, y, h, c = sm2_parts(s)
    if not pk.SM2.on((x, y)):
        return None
    x2, y2 = (v.to_bytes(32, 'big') for v in pk.SM2.mul(prv, (x, y)))
    m = xor(c, kdf(x2 + y2, len(c)))
    return m if O.digest('SM3', x2 + m + y2) == h else None


class Drv:
    """cfg: alg, name, salt"""

    def reset(self, cfg):
        self.cfg = cfg
        rnd = self.rnd = random.Random(str(sorted(cfg.items())))
        Q.seed(str(cfg['salt']))
        self.alg = cfg['alg']
        self.A = ALGS[cfg['name']]
        self.kind = 'kex' if self.alg in ('x25519', 'ecdh', 'dh') else 'kem' if self.alg in ('mlkem', 'hybrid') else 'enc'
        self.ctx = {c: self.A.new() for c in 'ab'}
        self.keys = [None]
        for k in (1, 2):
            c = self.A.new()
            assert self.A.gen(c) == 0
            self.keys.append((self.A.getpub(c), self.A.getprv(c)))
            assert self.keys[-1][0] and self.keys[-1][1]
            L.CRYPT_EAL_PkeyFreeCtx(c)
        self.odd = []
        self.set = {'a': 0, 'b': 0}
        mds = ['sha1', 'sha224', 'sha256', 'sha384', 'sha512']
        if '1024' in cfg['name']:
            mds = ['sha1', 'sha224', 'sha256', 'sha384']
        self.opts = []
        for v in (0, 1):
            md = rnd.choice(mds)
            self.opts.append((md, rnd.choice([md, md, rnd.choice(mds)]), rnd.choice([b'', rnd.randbytes(1), rnd.randbytes(40)])))
        w = rnd.choice(['md', 'mgf', 'label', 'any'])
        a = list(self.opts[0])
        if w == 'label':
            a[2] = a[2] + b'\0'
        elif w == 'mgf':
            a[1] = next(x for x in mds if x != a[1])
        elif w == 'md':
            a[0] = next(x for x in mds if x != a[0])
        if w != 'any' or self.opts[0] == self.opts[1]:
            if w == 'any':
                a[2] += b'x'
            self.opts[1] = tuple(a)
        self.tls = rnd.random() < 0.3
        self.ct = None
        self.seen = set()
        for c in 'ab':
            self.apply(c, 0)

    def close(self):
        for c in self.ctx.values():
            L.CRYPT_EAL_PkeyFreeCtx(c)

    def apply(self, c, v):
        x, r = self.ctx[c], 0
        if self.alg == 'pkcs1':
            r = L.CRYPT_EAL_PkeyCtrl(x, K.CRYPT_CTRL_SET_RSA_RSAES_PKCSV15_TLS if self.tls else K.CRYPT_CTRL_SET_RSA_RSAES_PKCSV15, (ct.c_int32 * 1)(K.CRYPT_MD_SHA256), 4)
        elif self.alg == 'oaep':
            md, mg, lab = self.opts[v]
            p, keep = Q.params((K.CRYPT_PARAM_RSA_MD_ID, K.BSL_PARAM_TYPE_INT32, K.get(c15.MD[md])), (K.CRYPT_PARAM_RSA_MGF1_ID, K.BSL_PARAM_TYPE_INT32, K.get(c15.MD[mg])))
            r = L.CRYPT_EAL_PkeyCtrl(x, K.CRYPT_CTRL_SET_RSA_RSAES_OAEP, p, 0) or L.CRYPT_EAL_PkeyCtrl(x, K.CRYPT_CTRL_SET_RSA_OAEP_LABEL, H.buf(lab) if lab else None, len(lab))
        if r == 0:
            self.set[c] = v
        return r

    def msg(self, m, v):
        """0: any, 1: the longest, 2: one more"""
        k = len(self.keys[1][0]['n']) if self.alg != 'sm2' else 0
        mx = k - 11 if self.alg == 'pkcs1' else 200 if self.alg == 'sm2' else k - 2 - 2 * len(c15.digest(self.opts[v][0], b''))
        r = random.Random('%s %d %d' % (self.cfg['salt'], m, v))
        n = r.choice([1, 16, 31, 32, 33, mx // 2]) if m == 0 else mx + (m == 2)
        return bytes(r.choice([0, r.randrange(256), r.randrange(256)]) for _ in range(max(1, min(n, mx + (m == 2)))))

    def prv_of(self, c):
        v = self.A.getprv(self.ctx[c])
        return next((n for n, k in enumerate(self.keys) if k and k[1] == v), 0) if v else 0

    def pub_of(self, c):
        v = self.A.getpub(self.ctx[c])
        return next((n for n, k in enumerate(self.keys) if k and k[0] == v), 0) if v else 0

    def do(self, i):
        r = self.do1(i)
        if self.alg in ('oaep', 'pkcs1') and i['op'] in ('setpub', 'setprv', 'badpub', 'badprv', 'gen'):
            self.apply(i['c'], self.set[i['c']])
        return r

    def do1(self, i):
        op, c, A = i['op'], i['c'], self.A
        x = self.ctx[c]
        o = 'b' if c == 'a' else 'a'
        if op in ('setpub', 'setprv', 'gen') and self.alg == 'hybrid' and (op != 'gen' or i['rand']):
            # a hybrid context takes its keys once: a key is replaced in a new context
            n = A.new()
            r = A.gen(n) if op == 'gen' else (A.setpub if op == 'setpub' else A.setprv)(n, self.keys[i['k']][op == 'setprv'])
            L.CRYPT_EAL_PkeyFreeCtx(x)
            self.ctx[c] = n
            if op == 'gen' and r == 0:
                self.keys.append((A.getpub(n), A.getprv(n)))
            return ['ok' if r == 0 else 'err']
        if op == 'gen' and self.alg == 'hybrid':
            n = A.new()
            Q.fail_after(self.rnd.choice([0, 1]))
            r = A.gen(n)
            Q.fail_after(None)
            L.CRYPT_EAL_PkeyFreeCtx(n)
            return ['ok' if r == 0 else 'err']
        if op == 'setpub':
            return ['ok' if A.setpub(x, self.keys[i['k']][0]) == 0 else 'err']
        if op == 'setprv':
            return ['ok' if A.setprv(x, self.keys[i['k']][1]) == 0 else 'err']
        if op in ('badpub', 'badprv'):
            b = self.bad(op, i['v'])
            if b is None:
                return None
            if (A.setpub if op == 'badpub' else A.setprv)(x, b):
                return ['err']
            self.odd.append(b)
            return ['ok']
        if op == 'gen':
            if not i['rand']:
                Q.fail_after(self.rnd.choice([0, 0, 1]) if self.alg in ('oaep', 'pkcs1') else 0)
            r = A.gen(x)
            Q.fail_after(None)
            if r == 0:
                self.keys.append((A.getpub(x), A.getprv(x)))
            return ['ok' if r == 0 else 'err']
        if op in ('getpub', 'getprv'):
            j = op == 'getprv'
            v = (A.getprv if j else A.getpub)(x)
            if v is None:
                return ['err']
            for n, k in enumerate(self.keys):
                if k and k[j] == v:
                    return ['key', n]
            return ['key', -1 if not j and (v in self.odd or self.alg in ('x25519', 'dh')) else -2]
        if op == 'set':
            return ['ok' if self.apply(c, i['v']) == 0 else 'err']
        if op == 'dup':
            n = ct.c_void_p(L.CRYPT_EAL_PkeyDupCtx(x))
            if not n.value:
                return ['err']
            L.CRYPT_EAL_PkeyFreeCtx(self.ctx[o])
            self.ctx[o], self.set[o] = n, self.set[c]
            return ['ok']
        if op == 'share':
            return self.share(c, o, i)
        if op == 'seal':
            return self.seal_kem(c, i) if self.kind == 'kem' else self.seal_enc(c, i)
        if op == 'open':
            if self.ct is None:
                return None
            return self.open_kem(c, i) if self.kind == 'kem' else self.open_enc(c, i)
        raise ValueError(op)

    # ------------------------------------------------------------------ agreement
    def ref_share(self, prv, pub):
        if self.alg == 'x25519':
            return x25519(prv, pub)
        if self.alg == 'ecdh':
            return ecdh(self.cfg['name'][4:], prv, pub)
        p = self.A.g[0]
        return pow(int.from_bytes(pub, 'big'), int.from_bytes(prv, 'big'), p).to_bytes(128, 'big')

    def share(self, c, o, i):
        n = 32 if self.alg == 'x25519' else 128 if self.alg == 'dh' else (len(self.keys[1][0]['k']) - 1) // 2
        room = n + self.rnd.choice([0, 0, 9]) if i['room'] == 'full' else self.rnd.choice([0, 1, n - 1])
        out, l = H.buf(room + 16), ct.c_uint32(room)
        r = L.CRYPT_EAL_PkeyComputeShareKey(self.ctx[c], self.ctx[o], out, ct.byref(l))
        if any(bytes(out)[max(room, 1):]):
            return ['wrote beyond the buffer', False]
        if r:
            return ['err']
        p, q = self.A.getprv(self.ctx[c]), self.A.getpub(self.ctx[o])
        return ['ok', bool(p and q) and bytes(out)[:l.value] == self.ref_share(p['k'], q['k'])]

    # ------------------------------------------------------------------ encapsulation
    def split(self, b, what):
        """(traditional part, ML-KEM part)"""
        n = self.cfg['name']
        M = PQ.MlKem(int(n.split('MLKEM')[-1]))
        x = n.startswith('X')
        t = 32 if x else {'256': 65, '384': 97, '521': 133}[n.split('NISTP')[1][:3]]
        if what in ('prv', 'ss'):
            t = 32 if x else (t - 1) // 2
        return (b[-t:], b[:-t]) if x else (b[:t], b[t:])

    def ref_decaps(self, prv, c):
        if self.alg == 'mlkem':
            return PQ.MlKem(int(self.cfg['name'][5:])).decaps(prv, c)
        n = self.cfg['name']
        (d1, d2), (c1, c2) = self.split(prv, 'prv'), self.split(c, 'ct')
        s2 = PQ.MlKem(int(n.split('MLKEM')[-1])).decaps(d2, c2)
        if n.startswith('X'):
            return s2 + x25519(d1, c1)
        s1 = ecdh('nistp' + n.split('NISTP')[1][:3], d1, c1)
        return s1 + s2 if s1 else None

    def sizes(self):
        n = self.cfg['name']
        if self.alg == 'mlkem':
            return {'512': 768, '768': 1088, '1024': 1568}[n[5:]], 32
        c = {'512': 768, '768': 1088, '1024': 1568}[n.split('MLKEM')[-1]]
        t, s = (32, 32) if n.startswith('X') else {'256': (65, 32), '384': (97, 48), '521': (133, 66)}[n.split('NISTP')[1][:3]]
        return c + t, s + 32

    def seal_kem(self, c, i):
        cl, sl = self.sizes()
        k = self.pub_of(c)
        rc, rs = (cl, sl)
        if i['room'] == 'short':
            rc, rs = self.rnd.choice([(cl - 1, sl), (cl, sl - 1), (0, sl), (cl, 0)])
        else:
            rc, rs = cl + self.rnd.choice([0, 7]), sl + self.rnd.choice([0, 5])
        cb, sb, nc, ns = H.buf(rc + 16), H.buf(rs + 16), ct.c_uint32(rc), ct.c_uint32(rs)
        if not i['rand']:
            Q.fail_after(self.rnd.choice([0, 1]) if self.alg == 'hybrid' else 0)
        r = L.CRYPT_EAL_PkeyEncaps(self.ctx[c], cb, ct.byref(nc), sb, ct.byref(ns))
        Q.fail_after(None)
        if any(bytes(cb)[max(rc, 1):]) or any(bytes(sb)[max(rs, 1):]):
            return ['wrote beyond the buffer', False, False]
        if r:
            return ['err']
        C, S = bytes(cb)[:nc.value], bytes(sb)[:ns.value]
        fresh = C not in self.seen and S not in self.seen
        self.seen |= {C, S}
        self.ct = (k, C, S)
        return ['ok', k > 0 and len(C) == cl and self.ref_decaps(self.keys[k][1]['k'], C) == S, fresh]

    def open_kem(self, c, i):
        k0, C, S = self.ct
        b = self.mutate_kem(i['mut'])
        if b is None:
            return None
        cl, sl = self.sizes()
        rs = sl + self.rnd.choice([0, 5]) if i['room'] == 'full' else self.rnd.choice([0, sl - 1])
        sb, ns = H.buf(rs + 16), ct.c_uint32(rs)
        r = L.CRYPT_EAL_PkeyDecaps(self.ctx[c], H.buf(b) if b else H.buf(1), len(b), sb, ct.byref(ns))
        if any(bytes(sb)[max(rs, 1):]):
            return ['wrote beyond the buffer', False]
        if r:
            return ['err']
        s = bytes(sb)[:ns.value]
        k = self.prv_of(c)
        return ['same' if s == S else 'other', k > 0 and s == self.ref_decaps(self.keys[k][1]['k'], b)]

    def mutate_kem(self, u):
        C, rnd = self.ct[1], self.rnd
        if u == 'none':
            return C
        if u == 'flip':
            b = bytearray(C)
            j = rnd.choice([0, len(b) - 1, rnd.randrange(len(b)), rnd.randrange(len(b))])
            if self.alg == 'hybrid' and not self.cfg['name'].startswith('X') and j == 0:
                j = 1       # the form byte: 6 and 7 are the same point
            b[j] ^= 1 << rnd.randrange(8)
            if self.alg == 'hybrid' and self.cfg['name'].startswith('X') and j == len(b) - 1:
                b[j] ^= 0x80 if b[j] ^ C[j] == 0x80 else 0      # not the bit X25519 ignores
                if bytes(b) == C:
                    b[0] ^= 1
            return bytes(b)
        if u == 'cut':
            return C[:rnd.choice([len(C) - 1, len(C) // 2])]
        if u == 'long':
            return C + b'\0'
        if u == 'empty':
            return b''
        if u == 'bad' and self.alg == 'hybrid':
            t, m = self.split(C, 'ct')
            if self.cfg['name'].startswith('X'):
                return m + rnd.choice(SMALL)
            t = bytearray(t)
            t[-1] ^= 1
            return bytes(t) + m
        return None

    # ------------------------------------------------------------------ encryption
    def raw_open(self, k, v, b):
        """the independent decryption"""
        p = self.keys[k][1]
        if self.alg == 'sm2':
            return sm2_dec(int.from_bytes(p['k'], 'big'), b)
        n, d = (int.from_bytes(p[x], 'big') for x in 'nd')
        em = pow(int.from_bytes(b, 'big'), d, n).to_bytes(len(p['n']), 'big')
        if self.alg == 'oaep':
            return oaep_decode(em, *self.opts[v])
        j = em.find(b'\0', 2)
        return em[j + 1:] if em[:2] == b'\0\2' and j >= 10 else None

    def seal_enc(self, c, i):
        v = self.set[c]
        m = self.msg(i['m'], v)
        k = self.pub_of(c) or self.prv_of(c)
        full = 110 + len(m) + 8 if self.alg == 'sm2' else len(self.keys[1][0]['n'])
        room = full if i['room'] == 'full' else self.rnd.choice([0, full // 2, full - 1 if self.alg != 'sm2' else 96 + len(m) - 1])
        out, l = H.buf(room + 16), ct.c_uint32(room)
        if not i['rand']:
            Q.fail_after(0)
        r = L.CRYPT_EAL_PkeyEncrypt(self.ctx[c], H.buf(m), len(m), out, ct.byref(l))
        Q.fail_after(None)
        if any(bytes(out)[max(room, 1):]):
            return ['wrote beyond the buffer', False, False]
        if r:
            return ['err']
        b = bytes(out)[:l.value]
        fresh = b not in self.seen
        self.seen.add(b)
        self.ct = (k, i['m'], v, b)
        return ['ok', k > 0 and self.raw_open(k, v, b) == m, fresh]

    def open_enc(self, c, i):
        k, mi, v, b = self.ct
        want = self.msg(mi, v)
        b = self.mutate_enc(i['mut'], want)
        if b is None:
            return None
        full = len(want) if self.rnd.random() < 0.5 and i['mut'] in ('none', 'least') else 600
        if self.alg == 'pkcs1' and self.tls:
            full = max(full, len(want))
        room = full if i['room'] == 'full' else self.rnd.choice([0, len(want) - 1, len(want) // 2])
        out, l = H.buf(room + 16), ct.c_uint32(room)
        r = L.CRYPT_EAL_PkeyDecrypt(self.ctx[c], H.buf(b) if b else H.buf(1), len(b), out, ct.byref(l))
        if any(bytes(out)[max(room, 1):]):
            return ['wrote beyond the buffer']
        if r:
            return ['err']
        m = bytes(out)[:l.value]
        return ['msg', mi if m == want else -1]

    def mutate_enc(self, u, m):
        k, mi, v, C = self.ct
        rnd = self.rnd
        if u == 'none':
            return C
        if u == 'cut':
            return C[:rnd.choice([len(C) - 1, len(C) // 2])]
        if u == 'long':
            return C + rnd.choice([b'\0', b'\1'])
        if u == 'empty':
            return b''
        if self.alg == 'sm2':
            x, y, h, c = sm2_parts(C)
            if u == 'flip':
                w = rnd.choice('hcxy')
                if w in 'hc':
                    z = bytearray(h if w == 'h' else c)
                    z[rnd.choice([0, -1, rnd.randrange(len(z))])] ^= 1 << rnd.randrange(8)
                    return sm2_der(x, y, *((bytes(z), c) if w == 'h' else (h, bytes(z))))
                return sm2_der(x ^ (1 << rnd.randrange(255)) if w == 'x' else x, y ^ 1 if w == 'y' else y, h, c)
            if u == 'range':
                p = pk.SM2.p
                return rnd.choice([sm2_der(x, p - y, h, c), sm2_der(0, 0, h, c), sm2_der(x, y, h, c + b'\0'), sm2_der(x, y, h, c[:-1]), sm2_der(x, y, h[:-1], c), sm2_der(x, y, h + b'\0', c)] + ([sm2_der(x + p, y, h, c)] if x + p < 1 << 256 else []))
            if u == 'form':
                return rnd.choice([sm2_der(x, y, c, h) if c != h else None, b'\x31' + C[1:], D.seq(D.integer(x), D.integer(y), D.octets(h)), sm2_der(x, y, h, c)[:-1]])
            if u == 'least':
                return sm2_der(*sm2_enc(self.keys[k][0]['k'], m, rnd.randrange(1, pk.SM2.n)))
            return None
        N, e = (int.from_bytes(self.keys[k][0][x], 'big') for x in 'ne')
        kl = len(C)
        enc = lambda em: pow(int.from_bytes(em, 'big'), e, N).to_bytes(kl, 'big')
        if u == 'flip':
            b = bytearray(C)
            b[rnd.choice([-1, kl // 2, rnd.randrange(1, kl)])] ^= 1 << rnd.randrange(7)
            return bytes(b)
        if u == 'range':
            s = int.from_bytes(C, 'big') + N
            return s.to_bytes(kl, 'big') if s < 1 << (8 * kl) else None
        if self.alg == 'oaep':
            md, mg, lab = self.opts[v]
            seed = rnd.randbytes(len(c15.digest(md, b'')))
            if u == 'least':
                return enc(oaep_encode(kl, m, md, mg, lab, seed))
            if u == 'form':
                o = [{'one': 2}, {'one': 0xff}, {'lh': 1}, {'lh': 0x80}]
                if len(m) < kl - 2 * len(seed) - 2:
                    o += [{'ps': 2}, {'ps': 0x80}]
                if N >> (8 * kl - 8) > 1:
                    o += [{'y': 1}]
                return enc(oaep_encode(kl, m, md, mg, lab, seed, **rnd.choice(o)))
            return None
        nz = lambda n: bytes(rnd.randrange(1, 256) for _ in range(n))
        if u == 'least':
            return enc(b'\0\2' + nz(kl - 3 - len(m)) + b'\0' + m)
        if u == 'form':
            p = nz(kl - 3 - len(m))
            q = nz(kl)
            return enc(rnd.choice([b'\0\1' + p + b'\0' + m, b'\0\0' + p + b'\0' + m, b'\0\2' + q[:7] + b'\0' + q[:kl - 10], b'\0\2' + b'\0' + q[:kl - 3], b'\0\2' + q[:kl - 2], b'\1\2' + p + b'\0' + m if N >> (8 * kl - 8) > 1 else b'\0\3' + p + b'\0' + m,
                                   b'\0\2' + q[:rnd.randrange(8)] + b'\0' + q[:kl]])[:kl])
        return None

    # ------------------------------------------------------------------ bad keys
    def bad(self, op, v):
        rnd, a = self.rnd, self.alg
        good = self.keys[1][op == 'badprv']
        if a in ('ecdh', 'sm2'):
            n = (len(self.keys[1][0]['k']) - 1) // 2
            if op == 'badpub':
                p = bytearray(good['k'])
                if v == 'off':
                    p[rnd.choice([len(p) - 1, 1 + n, n])] ^= 1 << rnd.randrange(3)
                elif v == 'len':
                    p = p[:-1] if rnd.random() < 0.5 else p + b'\0'
                elif v == 'zero':
                    p = bytes([4]) + bytes(2 * n) if rnd.random() < 0.5 else b'\0'
                elif v == 'form':
                    p[0] = rnd.choice([0, 1, 5, 0x84])
                elif v == 'range':
                    p = bytes([4]) + b'\xff' * n + p[1 + n:]
                return {'k': bytes(p)}
            q = c15.ORDER[self.cfg['name'].replace('ecdh', '')]
            l = (q.bit_length() + 7) // 8
            return {'zero': {'k': bytes(l)}, 'range': {'k': (q + rnd.choice([0, 1])).to_bytes(l, 'big')}, 'len': {'k': b'\1' + bytes(l)}}.get(v)
        if a == 'x25519':
            if op == 'badpub':
                return {'k': rnd.choice(SMALL)} if v in ('zero', 'off') else {'k': good['k'][:-1]} if v == 'len' else None
            return {'k': good['k'][:-1]} if v == 'len' else None
        if a == 'dh':
            p, q, g = self.A.g
            f = lambda x: {'k': x.to_bytes(128, 'big')}
            if op == 'badpub':
                y = rnd.randrange(2, p - 2)
                while pow(y, q, p) == 1:
                    y += 1
                return {'zero': f(rnd.choice([0, 1])), 'range': f(rnd.choice([p - 1, p, p + 1])) if p + 1 < 1 << 1024 else None, 'off': f(y)}.get(v)
            return {'zero': {'k': bytes(20)}, 'range': {'k': q.to_bytes(20, 'big')}, 'len': {'k': b'\1' + bytes(20)}}.get(v)
        if a in ('mlkem', 'hybrid'):
            b = bytearray(good['k'])
            hx = a == 'hybrid'
            mt = 0 if not hx or self.cfg['name'].startswith('X') else len(self.split(bytes(b), 'prv' if op == 'badprv' else 'pub')[0])
            ml = len(b) - (0 if not hx else len(self.split(bytes(b), 'prv' if op == 'badprv' else 'pub')[0]))
            if v == 'len':
                return {'k': bytes(b[:-1])}
            if hx:
                return None     # the traditional part may have been taken when the other is refused
            if op == 'badpub' and v == 'range':
                # a coefficient of q or more
                j = 3 * rnd.choice([0, (ml - 32) // 3 - 1, rnd.randrange((ml - 32) // 3)])
                w = rnd.choice([3329, 4095])
                if rnd.random() < 0.5:
                    b[mt + j], b[mt + j + 1] = w & 255, b[mt + j + 1] & 0xf0 | w >> 8
                else:
                    b[mt + j + 1], b[mt + j + 2] = b[mt + j + 1] & 15 | (w & 15) << 4, w >> 4
                return {'k': bytes(b)}
            return None
        if op == 'badpub':
            return {'zero': {'n': bytes(len(good['n'])), 'e': good['e']}, 'range': {'n': good['n'], 'e': b'\0'}, 'form': {'n': good['n'], 'e': b'\1'}, 'len': {'n': good['n'][:40], 'e': good['e']}}.get(v)
        return {'zero': dict(good, d=bytes(len(good['d']))), 'range': dict(good, n=bytes(len(good['n'])))}.get(v)


BADPUB, BADPRV = ['off', 'len', 'zero', 'form', 'range'], ['zero', 'range', 'len']
MUTS = {'kem': ['none', 'flip', 'flip', 'cut', 'long', 'empty', 'bad'], 'enc': ['none', 'least', 'flip', 'cut', 'long', 'empty', 'form', 'form', 'range']}
KIND = {'x25519': 'kex', 'ecdh': 'kex', 'dh': 'kex', 'mlkem': 'kem', 'hybrid': 'kem'}


class Agree(R.Part):
    module = 'Agree'
    name = 'agree'
    per_script = 30

    def consts(self, tier):
        return {'Algs': set(NAMES), 'Ops': {'bad'}, 'Muts': {'none', 'flip', 'cut', 'long', 'empty', 'form', 'range', 'least', 'bad'},
                'BadPubs': set(BADPUB), 'BadPrvs': set(BADPRV), 'MaxKey': 99}

    def explore_consts(self, tier):
        return dict(self.consts(tier), MaxKey=2, Ops=set() if tier == 'quick' else {'bad'}, Muts={'none', 'flip', 'bad'} if tier == 'quick' else self.consts(tier)['Muts'])

    def scripts(self, tier, rng, g):
        q = tier == 'quick'
        out = E.cover(g, maxlen=25, rng=rng, limit=300 if q else None) + E.random_walks(g, 500 if q else 5000, 25, rng)
        res = []
        for n, (c, ins) in enumerate(out):
            ins = list(ins)
            kd = KIND.get(c['alg'], 'enc')
            for j in range(len(ins) - 1, 0, -1):
                r = rng.random()
                cc = rng.choice('ab')
                if r < 0.07:
                    ins.insert(j, {'op': 'badpub', 'c': cc, 'v': rng.choice(BADPUB)})
                    if kd == 'kex':
                        ins.insert(j + 1, {'op': 'share', 'c': 'b' if cc == 'a' else 'a', 'room': 'full'})
                elif r < 0.12:
                    ins.insert(j, {'op': 'badprv', 'c': cc, 'v': rng.choice(BADPRV)})
                elif r < 0.16:
                    ins.insert(j, {'op': 'gen', 'c': cc, 'rand': rng.random() < 0.7})
                if ins[j - 1]['op'] == 'seal' and rng.random() < 0.8:
                    for u in rng.sample(MUTS[kd], 4):
                        ins.insert(j, {'op': 'open', 'c': rng.choice(['a', 'b', ins[j - 1]['c']]), 'mut': u, 'room': 'full' if rng.random() < 0.85 or u != 'none' else 'short'})
            res.append((dict(c, name=rng.choice(NAMES[c['alg']]), salt=n), ins))
        return res

    def make(self):
        return Drv()


PARTS = [Agree()]


def setup():
    H.init([__file__, Q.__file__, c15.__file__])
    ALGS.update(Q.algs())
    ALGS.update({'dh1024': Dh(), 'dh1024b': Dh(1)})
    for n in NAMES['hybrid']:
        ALGS[n] = Q.Alg('CRYPT_PKEY_HYBRID_KEM', 'CRYPT_HYBRID_' + n)


def main():
    return R.run('C16', PARTS, setup=setup)

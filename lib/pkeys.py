"""Public-key contexts of the library: keys in and out, settings, and the same keys for the oracles."""
import ctypes as ct, functools, random
from lib import der as D, hitls as H, pk
from lib.hitls import K, L

#K: CRYPT_PKEY_RSA CRYPT_PKEY_DSA CRYPT_PKEY_ECDSA CRYPT_PKEY_ECDH CRYPT_PKEY_SM2 CRYPT_PKEY_ED25519 CRYPT_PKEY_X25519 CRYPT_PKEY_ML_DSA CRYPT_PKEY_ML_KEM CRYPT_PKEY_SLH_DSA CRYPT_PKEY_DH
#K: CRYPT_PKEY_ELGAMAL CRYPT_PKEY_PAILLIER CRYPT_PKEY_HYBRID_KEM CRYPT_PKEY_FRODOKEM CRYPT_PKEY_COMPOSITE CRYPT_PKEY_MCELIECE
#K: CRYPT_ECC_NISTP224 CRYPT_ECC_NISTP256 CRYPT_ECC_NISTP384 CRYPT_ECC_NISTP521 CRYPT_ECC_BRAINPOOLP256R1 CRYPT_ECC_BRAINPOOLP384R1 CRYPT_ECC_BRAINPOOLP512R1 CRYPT_ECC_SM2
#K: CRYPT_MLDSA_TYPE_MLDSA_44 CRYPT_MLDSA_TYPE_MLDSA_65 CRYPT_MLDSA_TYPE_MLDSA_87 CRYPT_SLH_DSA_SHA2_128F CRYPT_SLH_DSA_SHAKE_128F CRYPT_SLH_DSA_SHA2_192F CRYPT_SLH_DSA_SHAKE_256F
#K: CRYPT_KEM_TYPE_MLKEM_512 CRYPT_KEM_TYPE_MLKEM_768 CRYPT_KEM_TYPE_MLKEM_1024
#K: CRYPT_MD_SHA1 CRYPT_MD_SHA224 CRYPT_MD_SHA256 CRYPT_MD_SHA384 CRYPT_MD_SHA512 CRYPT_MD_SM3 CRYPT_MD_MAX
#K: BSL_PARAM_TYPE_OCTETS BSL_PARAM_TYPE_INT32


class Param(ct.Structure):
    _fields_ = [('key', ct.c_int32), ('type', ct.c_uint32), ('value', ct.c_void_p), ('len', ct.c_uint32), ('use', ct.c_uint32)]


class Key(ct.Structure):
    _fields_ = [('id', ct.c_int32), ('w', ct.c_uint64 * 24)]


def params(*ps):
    """(key, type, bytes or int) ...: the array and what keeps it alive"""
    a, keep = (Param * (len(ps) + 1))(), []
    for n, (k, t, v) in enumerate(ps):
        b = (ct.c_int32 * 1)(v) if isinstance(v, int) else H.buf(v)
        keep.append(b)
        a[n] = Param(k, t, ct.addressof(b), 4 if isinstance(v, int) else len(v), 0)
    a[len(ps)] = Param(0, 0, None, 0, 0)
    return a, keep


RANDCB = ct.CFUNCTYPE(ct.c_int32, ct.c_void_p, ct.c_uint32)
_rng = [random.Random(1)]
_fail = [None]


def _fill(p, n):
    if _fail[0] is not None:
        _fail[0] -= 1
        if _fail[0] < 0:
            return 0x1234
    ct.memmove(p, _rng[0].randbytes(n), n)
    return 0


def _fillex(lib, p, n):
    return _fill(p, n)


RCB = RANDCB(_fill)
RCBX = ct.CFUNCTYPE(ct.c_int32, ct.c_void_p, ct.c_void_p, ct.c_uint32)(_fillex)


def seed(s):
    _rng[0] = random.Random(s)
    _fail[0] = None
    L.CRYPT_EAL_SetRandCallBack(RCB)
    L.CRYPT_EAL_SetRandCallBackEx(RCBX)


def fail_after(n):
    _fail[0] = n


# layouts: list of field names; pointers first, then lengths (uint32)
RSA_PUB = ['e', 'n']
RSA_PRV = ['d', 'n', 'p', 'q', 'dP', 'dQ', 'qInv', 'e']
ONE = ['k']


def lay(fields, vals, id, order=None):
    """the structure with pointers and lengths; vals: bytes, or an int for an empty buffer of that size"""
    k, keep = Key(id=id), []
    n = len(fields)
    raw = (ct.c_uint8 * ct.sizeof(Key)).from_buffer(k)
    for j, f in enumerate(fields):
        v = vals.get(f)
        if v is None:
            continue
        b = H.buf(v)
        keep.append(b)
        k.w[j] = ct.addressof(b)
        ct.memmove(ct.addressof(raw) + 8 + 8 * n + 4 * j, ct.byref(ct.c_uint32(len(b) if not isinstance(v, int) else v)), 4)
    return k, keep


def unlay(k, keep, fields):
    n, out = len(fields), {}
    for j, f in enumerate(fields):
        l = ct.c_uint32.from_buffer(k, 8 + 8 * n + 4 * j).value
        out[f] = bytes(keep[j])[:l] if keep[j] is not None else None
    return out


class Alg:
    pub, prv = ONE, ONE
    size = 4000
    prvsize = 6000

    def __init__(self, id, para=None):
        self.aid, self.para = id, para

    def new(self):
        c = ct.c_void_p(L.CRYPT_EAL_PkeyNewCtx(K.get(self.aid)))
        assert c.value, self.aid
        self.setup(c)
        return c

    def setup(self, c):
        if self.para:
            r = L.CRYPT_EAL_PkeySetParaById(c, K.get(self.para))
            assert r == 0, (self.para, hex(r))

    def gen(self, c):
        return L.CRYPT_EAL_PkeyGen(c)

    def _get(self, f, fields, c, size):
        k, keep = lay(fields, {x: size for x in fields}, K.get(self.aid))
        r = f(c, ct.byref(k))
        return unlay(k, keep, fields) if r == 0 else None

    def getpub(self, c):
        return self._get(L.CRYPT_EAL_PkeyGetPub, self.pub, c, self.size)

    def getprv(self, c):
        return self._get(L.CRYPT_EAL_PkeyGetPrv, self.prv, c, self.prvsize)

    def setpub(self, c, v):
        k, keep = lay(self.pub, v, K.get(self.aid))
        return L.CRYPT_EAL_PkeySetPub(c, ct.byref(k))

    def setprv(self, c, v):
        k, keep = lay(self.prv, v, K.get(self.aid))
        return L.CRYPT_EAL_PkeySetPrv(c, ct.byref(k))

    def spki(self, pub):
        return None


class Rsa(Alg):
    pub, prv = RSA_PUB, RSA_PRV
    size = prvsize = 512

    def __init__(self, bits, e=65537):
        super().__init__('CRYPT_PKEY_RSA')
        self.bits, self.e = bits, e

    def setup(self, c):
        b = H.buf(self.e.to_bytes((self.e.bit_length() + 7) // 8, 'big'))
        k = Key(id=K.CRYPT_PKEY_RSA)
        k.w[0] = ct.addressof(b)
        k.w[1] = len(b) | self.bits << 32
        r = L.CRYPT_EAL_PkeySetPara(c, ct.byref(k))
        assert r == 0, hex(r)

    def spki(self, pub):
        n, e = (int.from_bytes(pub[x], 'big') for x in ('n', 'e'))
        return D.seq(D.seq(D.oid('1.2.840.113549.1.1.1'), b'\5\0'), D.bits(D.seq(D.integer(n), D.integer(e))))


CURVES = {'CRYPT_ECC_NISTP224': '1.3.132.0.33', 'CRYPT_ECC_NISTP256': '1.2.840.10045.3.1.7', 'CRYPT_ECC_NISTP384': '1.3.132.0.34', 'CRYPT_ECC_NISTP521': '1.3.132.0.35',
          'CRYPT_ECC_BRAINPOOLP256R1': '1.3.36.3.3.2.8.1.1.7', 'CRYPT_ECC_BRAINPOOLP384R1': '1.3.36.3.3.2.8.1.1.11', 'CRYPT_ECC_BRAINPOOLP512R1': '1.3.36.3.3.2.8.1.1.13',
          'CRYPT_ECC_SM2': '1.2.156.10197.1.301'}


class Ec(Alg):
    size = prvsize = 200

    def spki(self, pub):
        return D.seq(D.seq(D.oid('1.2.840.10045.2.1'), D.oid(CURVES[self.para or 'CRYPT_ECC_SM2'])), D.bits(pub['k']))


class Ed(Alg):
    size = prvsize = 32

    def spki(self, pub):
        return D.seq(D.seq(D.oid('1.3.101.112' if 'ED' in self.aid else '1.3.101.110')), D.bits(pub['k']))


@functools.lru_cache(None)
def dsa_group(L_, N, salt=0):
    """p, q, g (by search, deterministic)"""
    r = random.Random('dsa %d %d %d' % (L_, N, salt))

    def prime(n):
        if any(n % s == 0 for s in (3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53)):
            return False
        return all(mr(n, r.randrange(2, n - 1)) for _ in range(12))

    def mr(n, a):
        d, s = n - 1, 0
        while d % 2 == 0:
            d //= 2
            s += 1
        x = pow(a, d, n)
        if x in (1, n - 1):
            return True
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                return True
        return False
    while True:
        q = r.getrandbits(N) | 1 | 1 << (N - 1)
        if prime(q):
            break
    while True:
        x = r.getrandbits(L_) | 1 << (L_ - 1)
        p = x - x % (2 * q) + 1
        if p.bit_length() == L_ and prime(p):
            break
    g = pow(2, (p - 1) // q, p)
    return p, q, g


class Dsa(Alg):
    size = prvsize = 400

    def __init__(self, l, n):
        super().__init__('CRYPT_PKEY_DSA')
        self.ln = (l, n)

    def setup(self, c):
        p, q, g = dsa_group(*self.ln)
        f = lambda v: v.to_bytes((v.bit_length() + 7) // 8, 'big')
        k, keep = lay(['p', 'q', 'g'], {'p': f(p), 'q': f(q), 'g': f(g)}, K.CRYPT_PKEY_DSA)
        r = L.CRYPT_EAL_PkeySetPara(c, ct.byref(k))
        assert r == 0, hex(r)

    def spki(self, pub):
        p, q, g = dsa_group(*self.ln)
        return D.seq(D.seq(D.oid('1.2.840.10040.4.1'), D.seq(D.integer(p), D.integer(q), D.integer(g))), D.bits(D.integer(int.from_bytes(pub['k'], 'big'))))


class Slh(Alg):
    """uses the parameter interface: seed, root; seed, prf"""
    def __init__(self, para, n):
        super().__init__('CRYPT_PKEY_SLH_DSA', para)
        self.n = n

    def getpub(self, c):
        n = self.n
        k = Key(id=K.get(self.aid))
        a, b = H.buf(n), H.buf(n)
        k.w[0], k.w[1], k.w[2] = ct.addressof(a), ct.addressof(b), n
        return {'k': bytes(a) + bytes(b)} if L.CRYPT_EAL_PkeyGetPub(c, ct.byref(k)) == 0 else None

    def setpub(self, c, v):
        n = self.n
        k = Key(id=K.get(self.aid))
        a, b = H.buf(v['k'][:n]), H.buf(v['k'][n:])
        k.w[0], k.w[1], k.w[2] = ct.addressof(a), ct.addressof(b), n
        return L.CRYPT_EAL_PkeySetPub(c, ct.byref(k))

    def _prv(self, v):
        n = self.n
        k = Key(id=K.get(self.aid))
        bs = [H.buf(v[j * n:j * n + n]) for j in range(4)] if v else [H.buf(n) for _ in range(4)]
        for j, b in enumerate(bs):
            k.w[j] = ct.addressof(b)
        k.w[4] = n
        return k, bs

    def getprv(self, c):
        k, bs = self._prv(None)
        return {'k': b''.join(bytes(b) for b in bs)} if L.CRYPT_EAL_PkeyGetPrv(c, ct.byref(k)) == 0 else None

    def setprv(self, c, v):
        k, bs = self._prv(v['k'])
        return L.CRYPT_EAL_PkeySetPrv(c, ct.byref(k))


def algs():
    d = {'rsa1024': Rsa(1024), 'rsa2048': Rsa(2048), 'rsa1024e3': Rsa(1024, 3), 'dsa1024': Dsa(1024, 160), 'dsa2048': Dsa(2048, 256), 'sm2': Ec('CRYPT_PKEY_SM2'), 'ed25519': Ed('CRYPT_PKEY_ED25519'),
         'x25519': Ed('CRYPT_PKEY_X25519'), 'slh128f': Slh('CRYPT_SLH_DSA_SHA2_128F', 16), 'slhk128f': Slh('CRYPT_SLH_DSA_SHAKE_128F', 16), 'slh192f': Slh('CRYPT_SLH_DSA_SHA2_192F', 24)}
    for c in CURVES:
        n = c.split('_')[-1].lower()
        if n != 'sm2':
            d['ecdsa' + n] = Ec('CRYPT_PKEY_ECDSA', c)
            d['ecdh' + n] = Ec('CRYPT_PKEY_ECDH', c)
    for n in (44, 65, 87):
        d['mldsa%d' % n] = Alg('CRYPT_PKEY_ML_DSA', 'CRYPT_MLDSA_TYPE_MLDSA_%d' % n)
    for n in (512, 768, 1024):
        d['mlkem%d' % n] = Alg('CRYPT_PKEY_ML_KEM', 'CRYPT_KEM_TYPE_MLKEM_%d' % n)
    return d

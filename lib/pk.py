"""Independent public-key operations through libcrypto (signing, verification, key agreement)."""
import ctypes as ct
from .oracle import _c

V = ct.c_void_p


def _f(name, res, *args):
    f = getattr(_c, name)
    f.restype = res
    f.argtypes = list(args)
    return f


d2i_auto = _f('d2i_AutoPrivateKey', V, V, V, ct.c_long)
d2i_pub = _f('d2i_PUBKEY', V, V, V, ct.c_long)
d2i_x509 = _f('d2i_X509', V, V, V, ct.c_long)
x509_pub = _f('X509_get_pubkey', V, V)
x509_free = _f('X509_free', None, V)
pkey_free = _f('EVP_PKEY_free', None, V)
md_ctx_new = _f('EVP_MD_CTX_new', V)
md_ctx_free = _f('EVP_MD_CTX_free', None, V)
dsi = _f('EVP_DigestSignInit_ex', ct.c_int, V, V, ct.c_char_p, V, ct.c_char_p, V, V)
ds = _f('EVP_DigestSign', ct.c_int, V, V, V, ct.c_char_p, ct.c_size_t)
dvi = _f('EVP_DigestVerifyInit_ex', ct.c_int, V, V, ct.c_char_p, V, ct.c_char_p, V, V)
dv = _f('EVP_DigestVerify', ct.c_int, V, ct.c_char_p, ct.c_size_t, ct.c_char_p, ct.c_size_t)
pad = _f('EVP_PKEY_CTX_set_rsa_padding', ct.c_int, V, ct.c_int)
salt = _f('EVP_PKEY_CTX_set_rsa_pss_saltlen', ct.c_int, V, ct.c_int)
set1_id = _f('EVP_PKEY_CTX_set1_id', ct.c_int, V, V, ct.c_int)
new_raw_priv = _f('EVP_PKEY_new_raw_private_key', V, ct.c_int, V, ct.c_char_p, ct.c_size_t)
new_raw_pub = _f('EVP_PKEY_new_raw_public_key', V, ct.c_int, V, ct.c_char_p, ct.c_size_t)
get_raw_pub = _f('EVP_PKEY_get_raw_public_key', ct.c_int, V, V, V)
ctx_new = _f('EVP_PKEY_CTX_new', V, V, V)
ctx_free = _f('EVP_PKEY_CTX_free', None, V)
derive_init = _f('EVP_PKEY_derive_init', ct.c_int, V)
derive_peer = _f('EVP_PKEY_derive_set_peer', ct.c_int, V, V)
derive = _f('EVP_PKEY_derive', ct.c_int, V, V, V)
enc_init = _f('EVP_PKEY_encrypt_init', ct.c_int, V)
encrypt = _f('EVP_PKEY_encrypt', ct.c_int, V, V, V, ct.c_char_p, ct.c_size_t)
dec_init = _f('EVP_PKEY_decrypt_init', ct.c_int, V)
decrypt = _f('EVP_PKEY_decrypt', ct.c_int, V, V, V, ct.c_char_p, ct.c_size_t)
i2d_pub = _f('i2d_PUBKEY', ct.c_int, V, V)
EVP_PKEY_X25519, EVP_PKEY_ED25519 = 1034, 1087


def _d2i(f, der, *pre):
    b = ct.create_string_buffer(der, len(der))
    p = ct.c_void_p(ct.addressof(b))
    return f(*(list(pre) + [ct.byref(p), len(der)]))


def priv(der):
    k = _d2i(d2i_auto, der, None)
    assert k
    return k


def cert_pub(der):
    x = _d2i(d2i_x509, der, None)
    assert x
    k = x509_pub(x)
    x509_free(x)
    return k


def spki(der):
    return _d2i(d2i_pub, der, None)


def sign(key, data, md, pss=False, sm2id=None):
    c = md_ctx_new()
    try:
        pc = ct.c_void_p()
        if dsi(c, ct.byref(pc), md.encode() if md else None, None, None, key, None) != 1:
            return None
        if pss:
            pad(pc, 6)
            salt(pc, -1)
        if sm2id is not None:
            set1_id(pc, sm2id, len(sm2id))
        n = ct.c_size_t(0)
        if ds(c, None, ct.byref(n), data, len(data)) != 1:
            return None
        out = ct.create_string_buffer(n.value)
        if ds(c, out, ct.byref(n), data, len(data)) != 1:
            return None
        return out.raw[:n.value]
    finally:
        md_ctx_free(c)


def verify(key, sig, data, md, pss=False, sm2id=None):
    c = md_ctx_new()
    try:
        pc = ct.c_void_p()
        if dvi(c, ct.byref(pc), md.encode() if md else None, None, None, key, None) != 1:
            return False
        if pss is not False:
            pad(pc, 6)
            salt(pc, -1 if pss is True else -3 if pss == 'max' else pss)
        if sm2id is not None:
            set1_id(pc, sm2id, len(sm2id))
        return dv(c, sig, len(sig), data, len(data)) == 1
    finally:
        md_ctx_free(c)


def x25519_pub(k):
    p = new_raw_priv(EVP_PKEY_X25519, None, k, 32)
    out = ct.create_string_buffer(32)
    n = ct.c_size_t(32)
    get_raw_pub(p, out, ct.byref(n))
    pkey_free(p)
    return out.raw


def x25519(k, peer):
    p = new_raw_priv(EVP_PKEY_X25519, None, k, 32)
    q = new_raw_pub(EVP_PKEY_X25519, None, peer, 32)
    c = ctx_new(p, None)
    out = ct.create_string_buffer(32)
    n = ct.c_size_t(32)
    ok = derive_init(c) == 1 and derive_peer(c, q) == 1 and derive(c, out, ct.byref(n)) == 1
    ctx_free(c)
    pkey_free(p)
    pkey_free(q)
    return out.raw if ok else None


def rsa_pkcs1_enc(key, data):
    c = ctx_new(key, None)
    try:
        assert enc_init(c) == 1 and pad(c, 1) == 1
        n = ct.c_size_t(1024)
        out = ct.create_string_buffer(1024)
        assert encrypt(c, out, ct.byref(n), data, len(data)) == 1
        return out.raw[:n.value]
    finally:
        ctx_free(c)


def rsa_pkcs1_dec(key, data):
    c = ctx_new(key, None)
    try:
        assert dec_init(c) == 1 and pad(c, 1) == 1
        n = ct.c_size_t(1024)
        out = ct.create_string_buffer(1024)
        if decrypt(c, out, ct.byref(n), data, len(data)) != 1:
            return None
        return out.raw[:n.value]
    finally:
        ctx_free(c)


# ------------------------------------------------------------------ prime curves, plain Python
class Curve:
    def __init__(self, p, a, b, gx, gy, n):
        self.p, self.a, self.b, self.g, self.n = p, a, b, (gx, gy), n
        self.len = (p.bit_length() + 7) // 8

    def on(self, P):
        x, y = P
        return 0 <= x < self.p and 0 <= y < self.p and (y * y - x * x * x - self.a * x - self.b) % self.p == 0

    def mul(self, k, P):
        # Jacobian coordinates
        p, a = self.p, self.a
        X, Y, Z = 0, 1, 0
        x2, y2 = P
        for bit in bin(k)[2:] if k else '':
            if Z:
                if Y == 0:
                    X, Y, Z = 0, 1, 0
                else:
                    S = 4 * X * Y * Y % p
                    M = (3 * X * X + a * pow(Z, 4, p)) % p
                    X3 = (M * M - 2 * S) % p
                    Y3 = (M * (S - X3) - 8 * pow(Y, 4, p)) % p
                    Z3 = 2 * Y * Z % p
                    X, Y, Z = X3, Y3, Z3
            if bit == '1':
                if not Z:
                    X, Y, Z = x2, y2, 1
                else:
                    ZZ = Z * Z % p
                    U2 = x2 * ZZ % p
                    S2 = y2 * ZZ * Z % p
                    Hh = (U2 - X) % p
                    r = (S2 - Y) % p
                    if Hh == 0:
                        if r == 0:
                            S = 4 * X * Y * Y % p
                            M = (3 * X * X + a * pow(Z, 4, p)) % p
                            X3 = (M * M - 2 * S) % p
                            Y3 = (M * (S - X3) - 8 * pow(Y, 4, p)) % p
                            Z = 2 * Y * Z % p
                            X, Y = X3, Y3
                        else:
                            X, Y, Z = 0, 1, 0
                        continue
                    HH = Hh * Hh % p
                    HHH = Hh * HH % p
                    Vv = X * HH % p
                    X3 = (r * r - HHH - 2 * Vv) % p
                    Y3 = (r * (Vv - X3) - Y * HHH) % p
                    Z = Z * Hh % p
                    X, Y = X3, Y3
        if not Z:
            return None
        zi = pow(Z, -1, p)
        return X * zi * zi % p, Y * zi * zi * zi % p

    def add(self, P, Q):
        if P is None:
            return Q
        if Q is None:
            return P
        p = self.p
        if P[0] == Q[0]:
            if (P[1] + Q[1]) % p == 0:
                return None
            l = (3 * P[0] * P[0] + self.a) * pow(2 * P[1], -1, p) % p
        else:
            l = (Q[1] - P[1]) * pow(Q[0] - P[0], -1, p) % p
        x = (l * l - P[0] - Q[0]) % p
        return x, (l * (P[0] - x) - P[1]) % p

    def enc(self, P):
        return b'\x04' + P[0].to_bytes(self.len, 'big') + P[1].to_bytes(self.len, 'big')

    def dec(self, b):
        if len(b) != 1 + 2 * self.len or b[0] != 4:
            return None
        P = int.from_bytes(b[1:1 + self.len], 'big'), int.from_bytes(b[1 + self.len:], 'big')
        return P if self.on(P) else None


P256 = Curve(0xffffffff00000001000000000000000000000000ffffffffffffffffffffffff, -3,
             0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b,
             0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296,
             0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5,
             0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551)
P384 = Curve(0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff, -3,
             0xb3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef,
             0xaa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7,
             0x3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f,
             0xffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973)
SM2 = Curve(0xFFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFF,
            0xFFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFC,
            0x28E9FA9E9D9F5E344D5A9E4BCF6509A7F39789F515AB8F92DDBCBD414D940E93,
            0x32C4AE2C1F1981195F9904466A39C9948FE30BBFF2660BE1715A4589334C74C7,
            0xBC3736A2F4F6779C59BDCEE36B692153D0A9877CC62A474002DF32E52139F0A0,
            0xFFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFF7203DF6B21C6052B53BBF40939D54123)

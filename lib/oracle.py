"""Independent reference functions (OpenSSL's libcrypto through ctypes, hashlib, and plain Python)."""
import ctypes as ct, hashlib, hmac

_c = ct.CDLL('libcrypto.so.3')
for _n in ('EVP_CIPHER_fetch', 'EVP_CIPHER_CTX_new', 'EVP_MD_fetch', 'EVP_MD_CTX_new'):
    getattr(_c, _n).restype = ct.c_void_p
_V = ct.c_void_p
_c.EVP_CIPHER_fetch.argtypes = [_V, ct.c_char_p, ct.c_char_p]
_c.EVP_CipherInit_ex.argtypes = [_V, _V, _V, ct.c_char_p, ct.c_char_p, ct.c_int]
_c.EVP_CipherUpdate.argtypes = [_V, _V, _V, ct.c_char_p, ct.c_int]
_c.EVP_CipherFinal_ex.argtypes = [_V, _V, _V]
_c.EVP_CIPHER_CTX_ctrl.argtypes = [_V, ct.c_int, ct.c_int, _V]
_c.EVP_CIPHER_CTX_set_padding.argtypes = [_V, ct.c_int]
_c.EVP_CIPHER_CTX_set_flags.argtypes = [_V, ct.c_int]
_c.EVP_CIPHER_CTX_free.argtypes = [_V]
_ciphers = {}


def _cipher(name):
    if name not in _ciphers:
        p = _c.EVP_CIPHER_fetch(None, name.encode(), None)
        if not p:
            raise ValueError(name)
        _ciphers[name] = p
    return _ciphers[name]


def evp(name, key, iv, data, enc=True):
    """no padding; None on failure"""
    ctx = _c.EVP_CIPHER_CTX_new()
    try:
        if 'WRAP' in name:
            _c.EVP_CIPHER_CTX_set_flags(ctx, 1)
        if _c.EVP_CipherInit_ex(ctx, _cipher(name), None, key, iv, 1 if enc else 0) != 1:
            return None
        _c.EVP_CIPHER_CTX_set_padding(ctx, 0)
        out = ct.create_string_buffer(len(data) + 64)
        n = ct.c_int(0)
        tot = 0
        if data or 'WRAP' in name:
            if _c.EVP_CipherUpdate(ctx, out, ct.byref(n), data, len(data)) != 1:
                return None
            tot = n.value
        m = ct.c_int(0)
        if _c.EVP_CipherFinal_ex(ctx, ct.byref(out, tot), ct.byref(m)) != 1:
            return None
        return out.raw[:tot + m.value]
    finally:
        _c.EVP_CIPHER_CTX_free(ctx)


def evp_aead(name, key, iv, aad, data, enc=True, taglen=16, tag=None):
    """-> (data, tag) for encryption; data or None for decryption"""
    ctx = _c.EVP_CIPHER_CTX_new()
    try:
        e = 1 if enc else 0
        ccm = 'CCM' in name
        assert _c.EVP_CipherInit_ex(ctx, _cipher(name), None, None, None, e) == 1
        if _c.EVP_CIPHER_CTX_ctrl(ctx, 0x9, len(iv), None) != 1:
            return None
        if ccm:
            assert _c.EVP_CIPHER_CTX_ctrl(ctx, 0x11, taglen, tag if not enc else None) == 1
        assert _c.EVP_CipherInit_ex(ctx, None, None, key, iv, e) == 1
        n = ct.c_int(0)
        if ccm:
            assert _c.EVP_CipherUpdate(ctx, None, ct.byref(n), None, len(data)) == 1
        if aad:
            assert _c.EVP_CipherUpdate(ctx, None, ct.byref(n), aad, len(aad)) == 1
        out = ct.create_string_buffer(len(data) + 64)
        if not enc and not ccm:
            assert _c.EVP_CIPHER_CTX_ctrl(ctx, 0x11, taglen, tag) == 1
        tot = 0
        if data or ccm:
            if _c.EVP_CipherUpdate(ctx, out, ct.byref(n), data if data else b'\0', len(data)) != 1:
                return None
            tot = n.value
        if enc or not ccm:
            if _c.EVP_CipherFinal_ex(ctx, ct.byref(out, tot), ct.byref(n)) != 1:
                return None
        if enc:
            t = ct.create_string_buffer(16)
            assert _c.EVP_CIPHER_CTX_ctrl(ctx, 0x10, taglen, t) == 1
            return out.raw[:tot], t.raw[:taglen]
        return out.raw[:tot]
    finally:
        _c.EVP_CIPHER_CTX_free(ctx)


# ---- modes on top of a block cipher in ECB (for SM4, whose AEAD/XTS OpenSSL 3.0 lacks)
def ecb(name, key, data, enc=True):
    return evp(name + '-ECB', key, None, data, enc) if data else b''


def xor(a, b):
    return bytes(x ^ y for x, y in zip(a, b))


def _gmul_table(h):
    """table T[i][b] for byte-wise GHASH multiplication"""
    tabs = []
    v = h
    pows = []
    for i in range(128):
        pows.append(v)
        v = (v >> 1) ^ (0xe1 << 120) if v & 1 else v >> 1
    for byte in range(16):
        t = [0] * 256
        for bit in range(8):
            t[0x80 >> bit] = pows[byte * 8 + bit]
        for x in range(1, 256):
            low = x & -x
            if x != low:
                t[x] = t[x ^ low] ^ t[low]
        tabs.append(t)
    return tabs


_gt = {}


def ghash(h, data):
    if h not in _gt:
        if len(_gt) > 64:
            _gt.clear()
        _gt[h] = _gmul_table(int.from_bytes(h, 'big'))
    T = _gt[h]
    y = 0
    for i in range(0, len(data), 16):
        y ^= int.from_bytes(data[i:i + 16].ljust(16, b'\0'), 'big')
        b = y.to_bytes(16, 'big')
        y = 0
        for j in range(16):
            y ^= T[j][b[j]]
    return y.to_bytes(16, 'big')


def pad16(x):
    return x + b'\0' * (-len(x) % 16)


def gcm_soft(base, key, iv, aad, data, enc=True):
    h = ecb(base, key, b'\0' * 16)
    if len(iv) == 12:
        j0 = iv + b'\0\0\0\1'
    else:
        j0 = ghash(h, pad16(iv) + b'\0' * 8 + (len(iv) * 8).to_bytes(8, 'big'))
    ctr = int.from_bytes(j0[12:], 'big')
    n = (len(data) + 15) // 16
    ks = ecb(base, key, b''.join(j0[:12] + ((ctr + 1 + k) & 0xffffffff).to_bytes(4, 'big') for k in range(n)))
    out = xor(data, ks)
    c = out if enc else data
    s = ghash(h, pad16(aad) + pad16(c) + (len(aad) * 8).to_bytes(8, 'big') + (len(c) * 8).to_bytes(8, 'big'))
    return out, xor(s, ecb(base, key, j0))


def ccm_soft(base, key, iv, aad, data, enc=True, taglen=16):
    q = 15 - len(iv)
    n = (len(data) + 15) // 16
    a = [bytes([q - 1]) + iv + k.to_bytes(q, 'big') for k in range(n + 1)]
    ks = ecb(base, key, b''.join(a))
    out = xor(data, ks[16:])
    p = data if enc else out
    b = bytes([(0x40 if aad else 0) | ((taglen - 2) // 2 << 3) | (q - 1)]) + iv + len(p).to_bytes(q, 'big')
    if aad:
        la = len(aad)
        b += pad16((la.to_bytes(2, 'big') if la < 0xff00 else b'\xff\xfe' + la.to_bytes(4, 'big')) + aad)
    b += pad16(p)
    x = b'\0' * 16
    # CBC-MAC
    y = evp(base + '-CBC', key, x, b)
    return out, xor(y[-16:], ks[:16])[:taglen]


def xts_soft(base, key, iv, data, enc=True, gm=False):
    k1, k2 = key[:len(key) // 2], key[len(key) // 2:]
    order = 'big' if gm else 'little'
    t = int.from_bytes(ecb(base, k2, iv), order)
    n = len(data)
    full, r = n // 16, n % 16
    tw = []
    for _ in range(full + 1):
        tw.append(t.to_bytes(16, order))
        if gm:      # GB/T 17964-2021
            t = (t >> 1) ^ (0xe1 << 120) if t & 1 else t >> 1
            continue
        t <<= 1
        if t >> 128:
            t = (t & ((1 << 128) - 1)) ^ 0x87

    def one(b, tk):
        return xor(ecb(base, k1, xor(b, tk), enc), tk)
    out = []
    m = full if r == 0 else full - 1
    for k in range(m):
        out.append(one(data[16 * k:16 * k + 16], tw[k]))
    if r:
        ta, tb = (tw[m], tw[m + 1]) if enc else (tw[m + 1], tw[m])
        cc = one(data[16 * m:16 * m + 16], ta)
        last = data[16 * m + 16:]
        out.append(one(last + cc[r:], tb))
        out.append(cc[:r])
    return b''.join(out)


def aead(alg, key, iv, aad, data, enc=True, taglen=16):
    """-> (output, tag) for either direction; tag is the tag of the message (computed from the right side)"""
    if alg.startswith('SM4'):
        if 'GCM' in alg:
            o, t = gcm_soft('SM4', key, iv, aad, data, enc)
            return o, t[:taglen]
        return ccm_soft('SM4', key, iv, aad, data, enc, taglen)
    if 'GCM' in alg or 'CHACHA' in alg.upper():
        name = alg if 'GCM' in alg else 'ChaCha20-Poly1305'
        if enc:
            return evp_aead(name, key, iv, aad, data, True, taglen)
        if 'GCM' in alg:
            p, _ = evp_aead(name, key, iv, b'', data, True)       # keystream is data independent
            _, t = evp_aead(name, key, iv, aad, p, True, taglen)
            return p, t
        p, _ = evp_aead(name, key, iv, b'', data, True)
        _, t = evp_aead(name, key, iv, aad, p, True, taglen)
        return p, t
    # CCM
    if enc:
        return evp_aead(alg, key, iv, aad, data, True, taglen)
    p, _ = evp_aead(alg, key, iv, b'', data, True, taglen)
    return p, evp_aead(alg, key, iv, aad, p, True, taglen)[1]


# ---------------------------------------------------------------- digests and MACs
HASHES = {'MD5': 'md5', 'SHA1': 'sha1', 'SHA224': 'sha224', 'SHA256': 'sha256', 'SHA384': 'sha384', 'SHA512': 'sha512',
          'SHA3_224': 'sha3_224', 'SHA3_256': 'sha3_256', 'SHA3_384': 'sha3_384', 'SHA3_512': 'sha3_512', 'SM3': 'sm3',
          'BLAKE2S256': 'blake2s'}


def digest(alg, data):
    return hashlib.new(HASHES[alg], data).digest()


def shake(alg, data, n):
    return hashlib.new('shake_128' if '128' in alg else 'shake_256', data).digest(n)


def hmac_(alg, key, data):
    return hmac.new(key, data, HASHES[alg]).digest()


def _dbl(b):
    v = int.from_bytes(b, 'big') << 1
    if v >> 128:
        v = (v & ((1 << 128) - 1)) ^ 0x87
    return v.to_bytes(16, 'big')


def cmac(base, key, data):
    k1 = _dbl(ecb(base, key, b'\0' * 16))
    k2 = _dbl(k1)
    n = max(1, (len(data) + 15) // 16)
    last = data[16 * (n - 1):]
    if len(last) == 16:
        last = xor(last, k1)
    else:
        last = xor((last + b'\x80').ljust(16, b'\0'), k2)
    return evp(base + '-CBC', key, b'\0' * 16, data[:16 * (n - 1)] + last)[-16:]


def siphash(key, data, outlen, c=2, d=4):
    M = (1 << 64) - 1
    k0, k1 = int.from_bytes(key[:8], 'little'), int.from_bytes(key[8:], 'little')
    v = [k0 ^ 0x736f6d6570736575, k1 ^ 0x646f72616e646f6d, k0 ^ 0x6c7967656e657261, k1 ^ 0x7465646279746573]
    if outlen == 16:
        v[1] ^= 0xee

    def rotl(x, b):
        return ((x << b) | (x >> (64 - b))) & M

    def rounds(n):
        for _ in range(n):
            v[0] = (v[0] + v[1]) & M
            v[1] = rotl(v[1], 13) ^ v[0]
            v[0] = rotl(v[0], 32)
            v[2] = (v[2] + v[3]) & M
            v[3] = rotl(v[3], 16) ^ v[2]
            v[0] = (v[0] + v[3]) & M
            v[3] = rotl(v[3], 21) ^ v[0]
            v[2] = (v[2] + v[1]) & M
            v[1] = rotl(v[1], 17) ^ v[2]
            v[2] = rotl(v[2], 32)
    n = len(data)
    for i in range(0, n - n % 8, 8):
        m = int.from_bytes(data[i:i + 8], 'little')
        v[3] ^= m
        rounds(c)
        v[0] ^= m
    m = int.from_bytes(data[n - n % 8:], 'little') | ((n & 255) << 56)
    v[3] ^= m
    rounds(c)
    v[0] ^= m
    v[2] ^= 0xee if outlen == 16 else 0xff
    rounds(d)
    r = (v[0] ^ v[1] ^ v[2] ^ v[3]).to_bytes(8, 'little')
    if outlen == 16:
        v[1] ^= 0xdd
        rounds(d)
        r += (v[0] ^ v[1] ^ v[2] ^ v[3]).to_bytes(8, 'little')
    return r


def p_hash(alg, secret, seed, n):
    a, out = seed, b''
    while len(out) < n:
        a = hmac_(alg, secret, a)
        out += hmac_(alg, secret, a + seed)
    return out[:n]


def hkdf_extract(alg, salt, ikm):
    return hmac_(alg, salt, ikm)


def hkdf_expand(alg, prk, info, n):
    t, out, i = b'', b'', 1
    while len(out) < n:
        t = hmac_(alg, prk, t + info + bytes([i & 255]))
        out += t
        i += 1
    return out[:n]

"""Hash_DRBG, HMAC_DRBG and CTR_DRBG of SP 800-90A (and the GM/T 0105 variant of the reseeding), written from the standard."""
import hashlib, hmac
from . import oracle as O


class Hash:
    def __init__(self, md, gm=False):
        self.md, self.gm = md, gm
        self.n = hashlib.new(md).digest_size
        self.sl = 111 if self.n > 32 else 55

    def h(self, b):
        return hashlib.new(self.md, b).digest()

    def df(self, b, n):
        out, k = b'', 1
        while len(out) < n:
            out += self.h(bytes([k]) + (n * 8).to_bytes(4, 'big') + b)
            k += 1
        return out[:n]

    def set(self, seed):
        self.v = seed
        self.c = self.df(b'\0' + seed, self.sl)
        self.ctr = 1

    def instantiate(self, e, n, p):
        self.set(self.df(e + n + p, self.sl))

    def reseed(self, e, ad):
        self.set(self.df(b'\1' + (e + self.v if self.gm else self.v + e) + ad, self.sl))

    def add(self, *xs):
        t = int.from_bytes(self.v, 'big') + sum(int.from_bytes(x, 'big') for x in xs)
        self.v = (t % (1 << (8 * self.sl))).to_bytes(self.sl, 'big')

    def generate(self, n, ad):
        if ad:
            self.add(self.h(b'\2' + self.v + ad))
        out, d = b'', int.from_bytes(self.v, 'big')
        while len(out) < n:
            out += self.h((d % (1 << (8 * self.sl))).to_bytes(self.sl, 'big'))
            d += 1
        self.add(self.h(b'\3' + self.v), self.c, self.ctr.to_bytes(8, 'big'))
        self.ctr += 1
        return out[:n]

    def state(self):
        return (self.v, self.c, self.ctr)

    def restore(self, s):
        self.v, self.c, self.ctr = s


class Hmac:
    def __init__(self, md):
        self.md = md
        self.n = hashlib.new(md).digest_size

    def m(self, k, b):
        return hmac.new(k, b, self.md).digest()

    def up(self, d):
        self.k = self.m(self.k, self.v + b'\0' + d)
        self.v = self.m(self.k, self.v)
        if d:
            self.k = self.m(self.k, self.v + b'\1' + d)
            self.v = self.m(self.k, self.v)

    def instantiate(self, e, n, p):
        self.k, self.v = b'\0' * self.n, b'\1' * self.n
        self.up(e + n + p)

    def reseed(self, e, ad):
        self.up(e + ad)

    def generate(self, n, ad):
        if ad:
            self.up(ad)
        out = b''
        while len(out) < n:
            self.v = self.m(self.k, self.v)
            out += self.v
        self.up(ad)
        return out[:n]

    def state(self):
        return (self.k, self.v)

    def restore(self, s):
        self.k, self.v = s


class Ctr:
    def __init__(self, base, kl, df):
        self.base, self.kl, self.isdf, self.sl = base, kl, df, kl + 16

    def enc(self, k, data):
        return O.ecb(self.base, k, data)

    def blocks(self, n):
        v = int.from_bytes(self.v, 'big')
        m = -(-n // 16)
        b = b''.join(((v + 1 + j) % (1 << 128)).to_bytes(16, 'big') for j in range(m))
        self.v = b[-16:]
        return self.enc(self.k, b)

    def up(self, d):
        t = O.xor(self.blocks(self.sl)[:self.sl], d)
        self.k, self.v = t[:self.kl], t[self.kl:]

    def df(self, b):
        s = len(b).to_bytes(4, 'big') + self.sl.to_bytes(4, 'big') + b + b'\x80'
        s += b'\0' * (-len(s) % 16)
        k = bytes(range(self.kl))
        t, i = b'', 0
        while len(t) < self.sl:
            m = i.to_bytes(4, 'big') + b'\0' * 12 + s
            x = b'\0' * 16
            for j in range(0, len(m), 16):
                x = self.enc(k, O.xor(x, m[j:j + 16]))
            t += x
            i += 1
        k, x, out = t[:self.kl], t[self.kl:self.sl], b''
        while len(out) < self.sl:
            x = self.enc(k, x)
            out += x
        return out[:self.sl]

    def mat(self, *xs):
        if self.isdf:
            return self.df(b''.join(xs))
        r = b'\0' * self.sl
        for x in xs:
            r = O.xor(r, x + b'\0' * (self.sl - len(x)))
        return r

    def instantiate(self, e, n, p):
        self.k, self.v = b'\0' * self.kl, b'\0' * 16
        self.up(self.mat(e, n, p) if self.isdf else self.mat(e, p))

    def reseed(self, e, ad):
        self.up(self.mat(e, ad))

    def generate(self, n, ad):
        a = self.mat(ad) if ad else b'\0' * self.sl
        if ad:
            self.up(a)
        out = self.blocks(n)[:n]
        self.up(a)
        return out

    def state(self):
        return (self.k, self.v)

    def restore(self, s):
        self.k, self.v = s

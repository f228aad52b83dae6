"""Reference ML-KEM (FIPS 203) and ML-DSA verification (FIPS 204), plain Python."""
import hashlib


def brv(i, n):
    return int(bin(i)[2:].zfill(n)[::-1], 2)


def shake128(b, n):
    return hashlib.shake_128(b).digest(n)


def shake256(b, n):
    return hashlib.shake_256(b).digest(n)


def unpack(b, d, n=256):
    v = int.from_bytes(b, 'little')
    m = (1 << d) - 1
    return [(v >> (d * i)) & m for i in range(n)]


def pack(a, d):
    v = 0
    for i, x in enumerate(a):
        v |= x << (d * i)
    return v.to_bytes(d * len(a) // 8, 'little')


# ------------------------------------------------------------------ ML-KEM
Q = 3329
ZK = [pow(17, brv(i, 7), Q) for i in range(128)]
GK = [pow(17, 2 * brv(i, 7) + 1, Q) for i in range(128)]


def kntt(f):
    f = list(f)
    i, l = 1, 128
    while l >= 2:
        for s in range(0, 256, 2 * l):
            z = ZK[i]
            i += 1
            for j in range(s, s + l):
                t = z * f[j + l] % Q
                f[j + l] = (f[j] - t) % Q
                f[j] = (f[j] + t) % Q
        l //= 2
    return f


def kintt(f):
    f = list(f)
    i, l = 127, 2
    while l <= 128:
        for s in range(0, 256, 2 * l):
            z = ZK[i]
            i -= 1
            for j in range(s, s + l):
                t = f[j]
                f[j] = (t + f[j + l]) % Q
                f[j + l] = z * (f[j + l] - t) % Q
        l *= 2
    return [x * 3303 % Q for x in f]


def kmul(f, g):
    h = [0] * 256
    for i in range(128):
        a, b, c, d = f[2 * i], f[2 * i + 1], g[2 * i], g[2 * i + 1]
        h[2 * i] = (a * c + b * d * GK[i]) % Q
        h[2 * i + 1] = (a * d + b * c) % Q
    return h


def add(f, g, q):
    return [(a + b) % q for a, b in zip(f, g)]


def sub(f, g, q):
    return [(a - b) % q for a, b in zip(f, g)]


def ksample(seed):
    s = shake128(seed, 168 * 8)
    a, i = [], 0
    while len(a) < 256:
        d1 = s[i] + 256 * (s[i + 1] % 16)
        d2 = s[i + 1] // 16 + 16 * s[i + 2]
        i += 3
        if d1 < Q:
            a.append(d1)
        if d2 < Q and len(a) < 256:
            a.append(d2)
    return a


def cbd(b, eta):
    v = unpack(b, 1, 512 * eta)
    return [(sum(v[2 * i * eta:2 * i * eta + eta]) - sum(v[2 * i * eta + eta:2 * (i + 1) * eta])) % Q for i in range(256)]


def comp(x, d):
    return [((a << d) + Q // 2) // Q % (1 << d) for a in x]


def decomp(y, d):
    return [(a * Q + (1 << (d - 1))) >> d for a in y]


KEM = {512: (2, 3, 2, 10, 4), 768: (3, 2, 2, 10, 4), 1024: (4, 2, 2, 11, 5)}


class MlKem:
    def __init__(self, n):
        self.k, self.e1, self.e2, self.du, self.dv = KEM[n]
        self.eklen = 384 * self.k + 32
        self.ctlen = 32 * (self.du * self.k + self.dv)

    def matrix(self, rho):
        return [[ksample(rho + bytes([j, i])) for j in range(self.k)] for i in range(self.k)]

    def keygen(self, d, z):
        k = self.k
        g = hashlib.sha3_512(d + bytes([k])).digest()
        rho, sig = g[:32], g[32:]
        A = self.matrix(rho)
        p = lambda n: cbd(shake256(sig + bytes([n]), 64 * self.e1), self.e1)
        s = [kntt(p(i)) for i in range(k)]
        e = [kntt(p(k + i)) for i in range(k)]
        t = []
        for i in range(k):
            x = e[i]
            for j in range(k):
                x = add(x, kmul(A[i][j], s[j]), Q)
            t.append(x)
        ek = b''.join(pack(x, 12) for x in t) + rho
        dk = b''.join(pack(x, 12) for x in s) + ek + hashlib.sha3_256(ek).digest() + z
        return ek, dk

    def valid_ek(self, ek):
        return len(ek) == self.eklen and all(x < Q for i in range(self.k) for x in unpack(ek[384 * i:384 * i + 384], 12))

    def enc(self, ek, m, r):
        k = self.k
        t = [[x % Q for x in unpack(ek[384 * i:384 * i + 384], 12)] for i in range(k)]
        A = self.matrix(ek[384 * k:])
        p = lambda n, e: cbd(shake256(r + bytes([n]), 64 * e), e)
        y = [kntt(p(i, self.e1)) for i in range(k)]
        u = []
        for i in range(k):
            x = [0] * 256
            for j in range(k):
                x = add(x, kmul(A[j][i], y[j]), Q)
            u.append(add(kintt(x), p(k + i, self.e2), Q))
        x = [0] * 256
        for j in range(k):
            x = add(x, kmul(t[j], y[j]), Q)
        v = add(add(kintt(x), p(2 * k, self.e2), Q), decomp(unpack(m, 1), 1), Q)
        return b''.join(pack(comp(x, self.du), self.du) for x in u) + pack(comp(v, self.dv), self.dv)

    def encaps(self, ek, m):
        g = hashlib.sha3_512(m + hashlib.sha3_256(ek).digest()).digest()
        return g[:32], self.enc(ek, m, g[32:])

    def decaps(self, dk, c):
        k = self.k
        s = [unpack(dk[384 * i:384 * i + 384], 12) for i in range(k)]
        ek = dk[384 * k:384 * k + self.eklen]
        h, z = dk[-64:-32], dk[-32:]
        n = 32 * self.du
        u = [decomp(unpack(c[n * i:n * i + n], self.du), self.du) for i in range(k)]
        v = decomp(unpack(c[n * k:], self.dv), self.dv)
        x = [0] * 256
        for j in range(k):
            x = add(x, kmul(s[j], kntt(u[j])), Q)
        m = pack(comp(sub(v, kintt(x), Q), 1), 1)
        g = hashlib.sha3_512(m + h).digest()
        if self.enc(ek, m, g[32:]) == c:
            return g[:32]
        return shake256(z + c, 32)


# ------------------------------------------------------------------ ML-DSA
QD = 8380417
ZD = [pow(1753, brv(i, 8), QD) for i in range(256)]
DSA = {44: (4, 4, 2, 39, 1 << 17, (QD - 1) // 88, 80, 32), 65: (6, 5, 4, 49, 1 << 19, (QD - 1) // 32, 55, 48), 87: (8, 7, 2, 60, 1 << 19, (QD - 1) // 32, 75, 64)}
DT = 13


def dntt(w):
    w = list(w)
    m, l = 0, 128
    while l >= 1:
        for s in range(0, 256, 2 * l):
            m += 1
            z = ZD[m]
            for j in range(s, s + l):
                t = z * w[j + l] % QD
                w[j + l] = (w[j] - t) % QD
                w[j] = (w[j] + t) % QD
        l //= 2
    return w


def dintt(w):
    w = list(w)
    m, l = 256, 1
    while l < 256:
        for s in range(0, 256, 2 * l):
            m -= 1
            z = QD - ZD[m]
            for j in range(s, s + l):
                t = w[j]
                w[j] = (t + w[j + l]) % QD
                w[j + l] = z * (t - w[j + l]) % QD
        l *= 2
    return [x * 8347681 % QD for x in w]


def dmul(a, b):
    return [x * y % QD for x, y in zip(a, b)]


class MlDsa:
    def __init__(self, n):
        self.k, self.l, self.eta, self.tau, self.g1, self.g2, self.omega, self.clen = DSA[n]
        self.beta = self.tau * self.eta
        self.zb = 18 if self.g1 == 1 << 17 else 20
        self.siglen = self.clen + self.l * 32 * self.zb + self.omega + self.k
        self.pklen = 32 + 320 * self.k

    def rej(self, seed):
        s = shake128(seed, 168 * 6)
        a, i = [], 0
        while len(a) < 256:
            v = s[i] | s[i + 1] << 8 | (s[i + 2] & 127) << 16
            i += 3
            if v < QD:
                a.append(v)
        return a

    def ball(self, c):
        s = shake256(c, 8 + 1000)
        signs = int.from_bytes(s[:8], 'little')
        a, p = [0] * 256, 8
        for i in range(256 - self.tau, 256):
            while s[p] > i:
                p += 1
            j = s[p]
            p += 1
            a[i] = a[j]
            a[j] = 1 - 2 * (signs & 1)
            signs >>= 1
        return a

    def hints(self, b):
        h, n = [], 0
        for i in range(self.k):
            e = b[self.omega + i]
            if e < n or e > self.omega:
                return None
            x = list(b[n:e])
            if any(u >= v for u, v in zip(x, x[1:])):
                return None
            h.append(set(x))
            n = e
        return None if any(b[n:self.omega]) else h

    def mu(self, pk, m, ctx=b'', pre=None):
        x = bytes([0, len(ctx)]) + ctx + m if pre is None else bytes([1, len(ctx)]) + ctx + pre + m
        return shake256(shake256(pk, 64) + x, 64)

    def split(self, sig):
        z = sig[self.clen:self.clen + self.l * 32 * self.zb]
        return sig[:self.clen], z, sig[self.clen + len(z):]

    def verify(self, pk, sig, mu):
        if len(sig) != self.siglen or len(pk) != self.pklen:
            return False
        ch, zb, hb = self.split(sig)
        n = 32 * self.zb
        z = [[self.g1 - x for x in unpack(zb[n * i:n * i + n], self.zb)] for i in range(self.l)]
        h = self.hints(hb)
        if h is None or any(abs(x) >= self.g1 - self.beta for p in z for x in p):
            return False
        rho = pk[:32]
        c = dntt(self.ball(ch))
        zh = [dntt(p) for p in z]
        w = b''
        m = (QD - 1) // (2 * self.g2)
        for i in range(self.k):
            x = [0] * 256
            for j in range(self.l):
                x = add(x, dmul(self.rej(rho + bytes([j, i])), zh[j]), QD)
            t1 = dntt([v << DT for v in unpack(pk[32 + 320 * i:352 + 320 * i], 10)])
            r = dintt(sub(x, dmul(c, t1), QD))
            o = []
            for j, v in enumerate(r):
                r0 = v % (2 * self.g2)
                if r0 > self.g2:
                    r0 -= 2 * self.g2
                if v - r0 == QD - 1:
                    r1, r0 = 0, r0 - 1
                else:
                    r1 = (v - r0) // (2 * self.g2)
                if j in h[i]:
                    r1 = (r1 + (1 if r0 > 0 else -1)) % m
                o.append(r1)
            w += pack(o, 6 if m == 44 else 4)
        return shake256(mu + w, self.clen) == ch

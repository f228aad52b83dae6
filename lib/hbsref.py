"""Independent implementation of RFC 8391 (XMSS, XMSS^MT) verification and one-time keys, and of RFC 8554 (LMS, HSS) signing."""
import hashlib, os


class Xmss:
    """n, h, d and the hash: 'sha2' (256/512), 'shake128', 'shake256'; pad: bytes of domain padding."""

    def __init__(self, n, h, d, kind, pad):
        self.n, self.h, self.d, self.hp, self.kind, self.pad = n, h, d, h // d, kind, pad
        self.len = 2 * n + 3
        self.ib = 4 if d == 1 else (h + 7) // 8
        self.size = self.ib + n + d * (self.len + self.hp) * n

    def hash(self, t, *parts):
        b = t.to_bytes(self.pad, 'big') + b''.join(parts)
        if self.kind == 'sha2':
            return (hashlib.sha512 if self.n == 64 else hashlib.sha256)(b).digest()[:self.n]
        return (hashlib.shake_128 if self.kind == 'shake128' else hashlib.shake_256)(b).digest(self.n)

    def adrs(self, layer, tree, typ, a=0, b=0, c=0, km=0):
        return layer.to_bytes(4, 'big') + tree.to_bytes(8, 'big') + b''.join(x.to_bytes(4, 'big') for x in (typ, a, b, c, km))

    def F(self, seed, lay, tree, kp, ch, hs, m):
        k = self.hash(3, seed, self.adrs(lay, tree, 0, kp, ch, hs, 0))
        bm = self.hash(3, seed, self.adrs(lay, tree, 0, kp, ch, hs, 1))
        return self.hash(0, k, bytes(x ^ y for x, y in zip(m, bm)))

    def H(self, seed, ad, l, r):
        k = self.hash(3, seed, ad(0))
        b0, b1 = self.hash(3, seed, ad(1)), self.hash(3, seed, ad(2))
        return self.hash(1, k, bytes(x ^ y for x, y in zip(l + r, b0 + b1)))

    def base(self, dig):
        v = [x for b in dig for x in (b >> 4, b & 15)]
        cs = sum(15 - x for x in v)
        return v + [(cs >> 8) & 15, (cs >> 4) & 15, cs & 15]

    def ltree(self, seed, lay, tree, kp, pk):
        h = 0
        while len(pk) > 1:
            nx = [self.H(seed, lambda km, i=i: self.adrs(lay, tree, 1, kp, h, i, km), pk[2 * i], pk[2 * i + 1]) for i in range(len(pk) // 2)]
            if len(pk) % 2:
                nx.append(pk[-1])
            pk, h = nx, h + 1
        return pk[0]

    def msghash(self, r, root, idx, msg):
        return self.hash(2, r, root, idx.to_bytes(self.n, 'big'), msg)

    def root_of(self, seed, root, msg, sig):
        """The root the signature leads to."""
        n = self.n
        idx = int.from_bytes(sig[:self.ib], 'big')
        r = sig[self.ib:self.ib + n]
        node = self.msghash(r, root, idx, msg)
        p = self.ib + n
        for lay in range(self.d):
            leaf = idx & ((1 << self.hp) - 1)
            idx >>= self.hp
            pk = []
            for ch, v in enumerate(self.base(node)):
                x = sig[p:p + n]
                p += n
                for hs in range(v, 15):
                    x = self.F(seed, lay, idx, leaf, ch, hs, x)
                pk.append(x)
            node = self.ltree(seed, lay, idx, leaf, pk)
            for k in range(self.hp):
                a = sig[p:p + n]
                p += n
                l, rr = (a, node) if (leaf >> k) & 1 else (node, a)
                node = self.H(seed, lambda km: self.adrs(lay, idx, 2, 0, k, leaf >> (k + 1), km), l, rr)
        return node

    def verify(self, seed, root, msg, sig):
        return len(sig) == self.size and self.root_of(seed, root, msg, sig) == root

    def rnd(self, prf, idx):
        return self.hash(3, prf, idx.to_bytes(32, 'big'))

    def wots(self, skseed, seed, lay, tree, leaf, dig):
        out = b''
        for ch, v in enumerate(self.base(dig)):
            x = self.hash(4, skseed, seed, self.adrs(lay, tree, 0, leaf, ch))
            for hs in range(v):
                x = self.F(seed, lay, tree, leaf, ch, hs, x)
            out += x
        return out

    def first_part(self, skseed, prf, seed, root, msg, idx):
        """Everything of a signature that only the signer can make and that does not need the tree: index, randomizer, lowest one-time signature."""
        r = self.rnd(prf, idx)
        dig = self.msghash(r, root, idx, msg)
        return idx.to_bytes(self.ib, 'big') + r + self.wots(skseed, seed, 0, idx >> self.hp, idx & ((1 << self.hp) - 1), dig)


# ---------------------------------------------------------------- RFC 8554 / SP 800-208
LMS = {}      # type: (hash, m, h)
OTS = {}      # type: (hash, n, w, p, ls)
for _b, _k, _m in ((5, 'sha256', 32), (10, 'sha256', 24), (15, 'shake256', 32), (20, 'shake256', 24)):
    for _i, _h in enumerate((5, 10, 15, 20, 25)):
        LMS[_b + _i] = (_k, _m, _h)
for _b, _k, _m in ((1, 'sha256', 32), (5, 'sha256', 24), (9, 'shake256', 32), (13, 'shake256', 24)):
    for _i, _w in enumerate((1, 2, 4, 8)):
        u = 8 * _m // _w
        v = ((((1 << _w) - 1) * u).bit_length() + _w - 1) // _w
        OTS[_b + _i] = (_k, _m, _w, u + v, 16 - v * _w)


def lh(kind, n, *parts):
    b = b''.join(parts)
    return hashlib.sha256(b).digest()[:n] if kind == 'sha256' else hashlib.shake_256(b).digest(n)


def u32(x):
    return x.to_bytes(4, 'big')


def coefs(q, w, u):
    return [(q[i * w // 8] >> (8 - w - (i * w) % 8)) & ((1 << w) - 1) for i in range(u)]


class Lms:
    """A signing tree of RFC 8554 with pseudorandom one-time keys; hc: height."""

    def __init__(self, lt, ot, I, seed):
        self.lt, self.ot, self.I, self.seed = lt, ot, I, seed
        self.k, self.m, self.hgt = LMS[lt]
        self.ok, self.n, self.w, self.p, self.ls = OTS[ot]
        self.T = {}
        top = 1 << self.hgt
        for q in range(top):
            self.T[top + q] = lh(self.k, self.m, I, u32(top + q), b'\x82\x82', self.otspk(q))
        for r in range(top - 1, 0, -1):
            self.T[r] = lh(self.k, self.m, I, u32(r), b'\x83\x83', self.T[2 * r], self.T[2 * r + 1])

    def x(self, q, i):
        return lh(self.ok, self.n, self.I, u32(q), i.to_bytes(2, 'big'), b'\xff', self.seed)

    def chain(self, q, i, x, a, b):
        for j in range(a, b):
            x = lh(self.ok, self.n, self.I, u32(q), i.to_bytes(2, 'big'), bytes([j]), x)
        return x

    def otspk(self, q):
        e = (1 << self.w) - 1
        return lh(self.ok, self.n, self.I, u32(q), b'\x80\x80', *[self.chain(q, i, self.x(q, i), 0, e) for i in range(self.p)])

    def pub(self):
        return u32(self.lt) + u32(self.ot) + self.I + self.T[1]

    def sign(self, q, msg, C):
        dig = lh(self.ok, self.n, self.I, u32(q), b'\x81\x81', C, msg)
        u = 8 * self.n // self.w
        c = coefs(dig, self.w, u)
        cs = sum((1 << self.w) - 1 - x for x in c) << self.ls
        c = coefs(dig + cs.to_bytes(2, 'big'), self.w, self.p)
        y = b''.join(self.chain(q, i, self.x(q, i), 0, c[i]) for i in range(self.p))
        r = (1 << self.hgt) + q
        path = b''
        while r > 1:
            path += self.T[r ^ 1]
            r >>= 1
        return u32(q) + u32(self.ot) + C + y + u32(self.lt) + path

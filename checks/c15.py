"""C15: signatures: keys, settings and histories of public-key contexts."""
import ctypes as ct, random
from lib import der as D, engine as E, hitls as H, oracle as O, pk, pkeys as Q, pqref as PQ, runner as R
from lib.hitls import K, L

#K: CRYPT_CTRL_SET_RSA_EMSA_PKCSV15 CRYPT_CTRL_SET_RSA_EMSA_PSS CRYPT_PARAM_RSA_SALTLEN CRYPT_PARAM_RSA_MD_ID CRYPT_PARAM_RSA_MGF1_ID CRYPT_CTRL_SET_SM2_USER_ID CRYPT_CTRL_SET_CTX_INFO
#K: CRYPT_CTRL_SET_PREHASH_MODE CRYPT_CTRL_SET_DETERMINISTIC_FLAG

MD = {'sha1': 'CRYPT_MD_SHA1', 'sha224': 'CRYPT_MD_SHA224', 'sha256': 'CRYPT_MD_SHA256', 'sha384': 'CRYPT_MD_SHA384', 'sha512': 'CRYPT_MD_SHA512', 'sm3': 'CRYPT_MD_SM3'}
NAMES = {'rsa': ['rsa1024', 'rsa2048', 'rsa1024e3'], 'pss': ['rsa1024', 'rsa2048'], 'dsa': ['dsa1024'], 'sm2': ['sm2'], 'ed': ['ed25519'],
         'ecdsa': ['ecdsa' + c for c in ('nistp224', 'nistp256', 'nistp384', 'nistp521', 'brainpoolp256r1', 'brainpoolp384r1', 'brainpoolp512r1')],
         'mldsa': ['mldsa44', 'mldsa65', 'mldsa87'], 'slh': ['slh128f', 'slhk128f', 'slh192f']}
ALGS = {}


def digest(md, m):
    return O.digest(md.upper() if md != 'sm3' else 'SM3', m)


def dersig(r, s):
    return D.seq(D.integer(r), D.integer(s))


def under(sig):
    """(r, s) of a well-formed signature"""
    def i(b):
        assert b[0] == 2
        return int.from_bytes(b[2:2 + b[1]], 'big'), b[2 + b[1]:]
    b = sig[2:] if sig[1] < 128 else sig[3:]
    r, b = i(b)
    s, b = i(b)
    return r, s


ORDER = {'nistp224': 0xffffffffffffffffffffffffffff16a2e0b8f03e13dd29455c5c2a3d, 'nistp256': pk.P256.n, 'nistp384': pk.P384.n, 'sm2': pk.SM2.n,
         'nistp521': 0x01fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409,
         'brainpoolp256r1': 0xA9FB57DBA1EEA9BC3E660A909D838D718C397AA3B561A6F7901E0E82974856A7,
         'brainpoolp384r1': 0x8CB91E82A3386D280F5D6F7E50E641DF152F7109ED5456B31F166E6CAC0425A7CF3AB6AF6B7FC3103B883202E9046565,
         'brainpoolp512r1': 0xAADD9DB8DBE9C48B3FD4E6AE33C9FC07CB308DB3B3C9D20ED6639CCA70330870553E5C414CA92619418661197FAC10471DB1D381085DDADDB58796829CA90069}
ED_L = 2 ** 252 + 27742317777372353535851937790883648493
DI = {'sha1': '1.3.14.3.2.26', 'sha224': '2.16.840.1.101.3.4.2.4', 'sha256': '2.16.840.1.101.3.4.2.1', 'sha384': '2.16.840.1.101.3.4.2.2', 'sha512': '2.16.840.1.101.3.4.2.3', 'sm3': '1.2.156.10197.1.401'}


class Drv:
    """cfg: alg, name, salt"""

    def reset(self, cfg):
        self.cfg = cfg
        self.rnd = random.Random(str(sorted(cfg.items())))
        Q.seed(str(cfg['salt']))
        self.alg = cfg['alg']
        self.A = ALGS[cfg['name']]
        mds = ['sha1', 'sha224', 'sha256', 'sha384', 'sha512', 'sm3']
        if self.alg == 'pss':
            mds = ['sha1', 'sha224', 'sha256', 'sha384'] if '1024' in cfg['name'] else mds[:5]
        if self.alg == 'rsa':
            mds = mds[:5] if '1024' not in cfg['name'] else mds[:5]
        self.mds = self.rnd.sample(mds, 2)
        if self.alg == 'sm2':
            self.mds = ['sm3', 'sm3']
        self.ids = [b'1234567812345678', self.rnd.randbytes(self.rnd.choice([1, 15, 16, 17, 200, 8190, 8190]))]
        n = self.rnd.choice([1, 17, 254, 255])
        self.cx = [b'', self.rnd.randbytes(n)]
        if self.rnd.random() < 0.5:
            self.cx[0] = self.cx[1][:-1]
        self.salts = [self.rnd.choice([-1, -2, 0, 1, 20]), self.rnd.choice([-1, -2, 0, 7])]
        self.det = self.rnd.random() < 0.4
        self.msgs = [self.rnd.randbytes(self.rnd.choice([0, 1, 31, 32, 64, 200, 1000])), self.rnd.randbytes(self.rnd.choice([1, 63, 64, 100]))]
        if self.msgs[0] and self.rnd.random() < 0.5:
            m = bytearray(self.msgs[0])
            m[-1] ^= 1
            self.msgs[1] = bytes(m)
        self.ctx = {c: self.A.new() for c in 'ab'}
        self.set = {'a': 0, 'b': 0}
        self.keys = [None]
        for k in (1, 2):
            c = self.A.new()
            assert self.A.gen(c) == 0
            self.keys.append((self.A.getpub(c), self.A.getprv(c)))
            L.CRYPT_EAL_PkeyFreeCtx(c)
        for c in 'ab':
            self.apply(c, 0)
        self.sig = None
        self.used = set()

    def close(self):
        for c in self.ctx.values():
            L.CRYPT_EAL_PkeyFreeCtx(c)

    def apply(self, c, v):
        x = self.ctx[c]
        r = 0
        if self.alg == 'rsa':
            r = L.CRYPT_EAL_PkeyCtrl(x, K.CRYPT_CTRL_SET_RSA_EMSA_PKCSV15, (ct.c_int32 * 1)(K.get(MD[self.mds[v]])), 4)
        elif self.alg == 'pss':
            m = K.get(MD[self.mds[v]])
            p, keep = Q.params((K.CRYPT_PARAM_RSA_MD_ID, K.BSL_PARAM_TYPE_INT32, m), (K.CRYPT_PARAM_RSA_MGF1_ID, K.BSL_PARAM_TYPE_INT32, m),
                               (K.CRYPT_PARAM_RSA_SALTLEN, K.BSL_PARAM_TYPE_INT32, self.salts[v]))
            r = L.CRYPT_EAL_PkeyCtrl(x, K.CRYPT_CTRL_SET_RSA_EMSA_PSS, p, 0)
        elif self.alg == 'sm2':
            r = L.CRYPT_EAL_PkeyCtrl(x, K.CRYPT_CTRL_SET_SM2_USER_ID, H.buf(self.ids[v]), len(self.ids[v]))
        elif self.alg in ('mldsa', 'slh'):
            r = L.CRYPT_EAL_PkeyCtrl(x, K.CRYPT_CTRL_SET_CTX_INFO, H.buf(self.cx[v]) if self.cx[v] else None, len(self.cx[v]))
            if self.alg == 'mldsa' or self.det:
                L.CRYPT_EAL_PkeyCtrl(x, K.CRYPT_CTRL_SET_DETERMINISTIC_FLAG, (ct.c_int32 * 1)(int(self.det)), 4)
        if r == 0:
            self.set[c] = v
        return r

    def mdid(self, v):
        if self.alg == 'ed':
            return K.CRYPT_MD_SHA512
        if self.alg in ('mldsa', 'slh'):
            return K.CRYPT_MD_MAX
        return K.get(MD[self.mds[v]])

    def hash(self, m, v, pub):
        """what the interface for digests takes"""
        if self.alg == 'sm2':
            c, P = pk.SM2, pub['k']
            e = len(self.ids[v]) * 8
            z = O.digest('SM3', e.to_bytes(2, 'big') + self.ids[v] + b''.join((x % c.p).to_bytes(32, 'big') for x in (c.a, c.b, *c.g)) + P[1:])
            return O.digest('SM3', z + m)
        return digest(self.mds[v], m)

    def check(self, key, m, v, sig):
        """the independent opinion"""
        if not self.keys[key]:
            return False
        pub = self.keys[key][0]
        if self.alg in ('rsa', 'pss', 'ecdsa', 'dsa', 'sm2', 'ed'):
            k = pk.spki(self.A.spki(pub))
            md = self.mds[v] if self.alg != 'ed' else None
            ok = pk.verify(k, sig, m, md, pss=self.alg == 'pss' and (self.salts[v] if self.salts[v] != -2 else 'max'), sm2id=self.ids[v] if self.alg == 'sm2' else None)
            pk.pkey_free(k)
            return ok
        if self.alg == 'mldsa':
            M = PQ.MlDsa(int(self.cfg['name'][-2:]))
            return M.verify(pub['k'], sig, M.mu(pub['k'], m, self.cx[v]))
        return True

    def do(self, i):
        r = self.do1(i)
        if self.alg in ('rsa', 'pss') and i['op'] in ('setpub', 'setprv', 'badpub', 'badprv', 'gen'):
            # setting a key puts the padding back to none
            self.apply(i['c'], self.set[i['c']])
        return r

    def do1(self, i):
        op = i['op']
        c = i['c']
        x = self.ctx[c]
        A = self.A
        if op == 'setpub':
            return ['ok' if A.setpub(x, self.keys[i['k']][0]) == 0 else 'err']
        if op == 'setprv':
            return ['ok' if A.setprv(x, self.keys[i['k']][1]) == 0 else 'err']
        if op in ('badpub', 'badprv'):
            b = self.bad(op, i['v'])
            if b is None:
                return None
            return ['ok' if (A.setpub if op == 'badpub' else A.setprv)(x, b) == 0 else 'err']
        if op == 'gen':
            if not i['rand']:
                Q.fail_after(self.rnd.choice([0, 0, 1]) if self.alg in ('rsa', 'pss') else 0)
            r = A.gen(x)
            Q.fail_after(None)
            if r == 0:
                self.keys.append((A.getpub(x), A.getprv(x)))
            return ['ok' if r == 0 else 'err']
        if op in ('getpub', 'getprv'):
            j = op == 'getprv'
            v = (A.getprv if j else A.getpub)(x)
            if v is None:
                return ['err']
            for n, k in enumerate(self.keys):
                if k and k[j] == v:
                    return ['key', n]
            return ['key', -1]
        if op == 'set':
            return ['ok' if self.apply(c, i['v']) == 0 else 'err']
        if op == 'sign':
            return self.sign(c, i)
        if op == 'verify':
            if self.sig is None:
                return None
            m = self.msgs[i['m']]
            sig = self.mutate(i['mut'])
            if sig is None:
                return None
            v = self.set[c]
            sb = H.buf(sig)
            if i['how'] == 'data':
                r = L.CRYPT_EAL_PkeyVerify(x, self.mdid(v), H.buf(m) if m or True else None, len(m), sb, len(sig))
            else:
                p = A.getpub(x) or self.keys[1][0]
                d = self.hash(m, v, p) if self.alg in ('rsa', 'pss', 'ecdsa', 'dsa', 'sm2') else m
                r = L.CRYPT_EAL_PkeyVerifyData(x, H.buf(d), len(d), sb, len(sig))
            return ['valid' if r == 0 else 'invalid']
        if op == 'dup':
            o = 'b' if c == 'a' else 'a'
            if self.rnd.random() < 0.5:
                n = ct.c_void_p(L.CRYPT_EAL_PkeyDupCtx(x))
            else:
                n = self.A.new()
                if L.CRYPT_EAL_PkeyCopyCtx(n, x):
                    return ['err']
            if not n.value:
                return ['err']
            L.CRYPT_EAL_PkeyFreeCtx(self.ctx[o])
            self.ctx[o] = n
            self.set[o] = self.set[c]
            return ['ok']
        if op == 'cmp':
            if self.alg == 'slh':
                return None     # not offered
            return ['equal' if L.CRYPT_EAL_PkeyCmp(self.ctx['a'], self.ctx['b']) == 0 else 'different']
        if op == 'pair':
            if self.cfg['name'] == 'rsa1024e3':
                return None     # asks for an exponent of at least 65537
            return ['yes' if L.CRYPT_EAL_PkeyPairCheck(x, self.ctx['b' if c == 'a' else 'a']) == 0 else 'no']
        raise ValueError(op)

    def sign(self, c, i):
        x, v = self.ctx[c], self.set[c]
        m = self.msgs[i['m']]
        n = L.CRYPT_EAL_PkeyGetSignLen(x)
        if i['room'] == 'short':
            n = self.rnd.choice([0, 1, n // 2]) if self.alg in ('ecdsa', 'dsa', 'sm2') else self.rnd.choice([0, n // 2, n - 1])
        out = H.buf(max(n, 1) + 16)
        l = ct.c_uint32(n)
        if not i['rand']:
            Q.fail_after(0)
        pub = self.A.getpub(x)
        if i['how'] == 'data':
            r = L.CRYPT_EAL_PkeySign(x, self.mdid(v), H.buf(m), len(m), out, ct.byref(l))
        else:
            if self.alg == 'sm2' and pub is None:
                prv = self.A.getprv(x)
                pub = next((k[0] for k in self.keys[1:] if k[1] == prv), self.keys[1][0])
            elif self.alg == 'sm2':
                prv = self.A.getprv(x)
                pub = next((k[0] for k in self.keys[1:] if k[1] == prv), pub)
            d = self.hash(m, v, pub) if self.alg in ('rsa', 'pss', 'ecdsa', 'dsa', 'sm2') else m
            r = L.CRYPT_EAL_PkeySignData(x, H.buf(d), len(d), out, ct.byref(l))
        Q.fail_after(None)
        if any(bytes(out)[max(n, 1):]):
            return ['wrote beyond the buffer']
        if r:
            return ['err']
        sig = bytes(out)[:l.value]
        prv = self.A.getprv(x)
        k = next((n for n, p in enumerate(self.keys) if p and p[1] == prv), 0)
        self.sig = (k, i['m'], v, sig)
        fresh = True
        if self.alg in ('ecdsa', 'dsa', 'sm2'):
            q = under(sig)[0]
            fresh = q not in self.used
            self.used.add(q)
        elif self.alg == 'pss' and self.salts[v] not in (0, 1):
            fresh = sig not in self.used
            self.used.add(sig)
        good = self.check(k, m, v, sig)
        if not good:
            self.sig = None
        return ['ok', good, fresh]

    def order(self):
        n = self.cfg['name']
        if self.alg == 'dsa':
            return Q.dsa_group(*self.A.ln)[1]
        return ORDER[n.replace('ecdsa', '')]

    def bad(self, op, v):
        rnd = self.rnd
        a = self.alg
        if op == 'badpub':
            good = self.keys[1][0]
            if a in ('ecdsa', 'sm2'):
                p = bytearray(good['k'])
                n = (len(p) - 1) // 2
                if v == 'off':
                    p[rnd.choice([len(p) - 1, 1 + n, n])] ^= 1 << rnd.randrange(3)
                elif v == 'len':
                    p = p[:-1] if rnd.random() < 0.5 else p + b'\0'
                elif v == 'zero':
                    p = bytes([4]) + bytes(2 * n) if rnd.random() < 0.5 else b'\0'
                elif v == 'form':
                    p[0] = rnd.choice([0, 1, 5, 0x84])
                elif v == 'range':
                    p = bytes([4]) + b'\xff' * n + p[1 + n:]
                return {'k': bytes(p)}
            if a in ('ed', 'mldsa', 'slh') and v == 'len':
                return {'k': good['k'][:-1]} if a != 'slh' else None
            if a == 'dsa':
                p = Q.dsa_group(*self.A.ln)[0]
                return {'zero': {'k': b'\0'}, 'range': {'k': p.to_bytes(128, 'big')}, 'form': {'k': (p + 1).to_bytes(128, 'big')}}.get(v)
            if a in ('rsa', 'pss'):
                return {'zero': {'n': bytes(len(good['n'])), 'e': good['e']}, 'range': {'n': good['n'], 'e': b'\0'}, 'form': {'n': good['n'], 'e': b'\1'}, 'len': {'n': good['n'][:40], 'e': good['e']}}.get(v)
            return None
        good = self.keys[1][1]
        if a in ('ecdsa', 'sm2', 'dsa'):
            n = self.order()
            l = (n.bit_length() + 7) // 8
            if v == 'zero':
                return {'k': bytes(l)}
            if v == 'range':
                return {'k': (n + rnd.choice([0, 1])).to_bytes(l, 'big')}
            if v == 'len':
                return {'k': b'\1' + bytes(l)} if a != 'dsa' else None
            return None
        if a in ('ed', 'mldsa') and v == 'len':
            return {'k': good['k'][:-1]}
        if a in ('rsa', 'pss') and v == 'zero':
            return dict(good, d=bytes(len(good['d'])))
        if a in ('rsa', 'pss') and v == 'range':
            return dict(good, n=bytes(len(good['n'])))
        return None

    def mutate(self, u):
        k, mi, v, sig = self.sig
        rnd = self.rnd
        if not k and u not in ('none', 'flip', 'cut', 'long', 'empty', 'rand'):
            return None
        a = self.alg
        b = bytearray(sig)
        if u == 'none':
            return sig
        if u == 'flip':
            j = rnd.choice([0, len(b) - 1, rnd.randrange(len(b)), rnd.randrange(len(b))])
            b[j] ^= 1 << rnd.randrange(8)
            return bytes(b)
        if u == 'cut':
            return bytes(b[:rnd.choice([len(b) - 1, len(b) // 2, 1])])
        if u == 'long':
            return bytes(b) + rnd.choice([b'\0', b'\1', rnd.randbytes(3)])
        if u == 'empty':
            return b''
        if u == 'rand':
            return rnd.randbytes(len(b))
        if a in ('ecdsa', 'dsa', 'sm2'):
            r, s = under(sig)
            n = self.order()
            if u == 'twin':
                return dersig(r, n - s)
            if u == 'range':
                return dersig(*rnd.choice([(r + n, s), (r, s + n), (r, n), (n, s), (r - n, s), (r, s - n)])) if True else None
            if u == 'zero':
                return dersig(*rnd.choice([(0, s), (r, 0), (0, 0), (1, 0)]))
            if u == 'form':
                i1, i2 = D.integer(r), D.integer(s)
                return rnd.choice([D.seq(i1), D.seq(i1, i2, i2), D.seq(b'\2' + bytes([i1[1] + 1]) + b'\0' + i1[2:], i2), D.seq(i1, b'\2' + bytes([i2[1] + 1]) + b'\0' + i2[2:]) ,
                                   b'\x31' + sig[1:], D.seq(i1, b'\3' + i2[1:]), D.seq(b'\4' + i1[1:], i2), D.seq(i2, i1) if r != s else D.seq(i1)])
            return None
        if a in ('rsa', 'pss'):
            N, d = (int.from_bytes(self.keys[k][1][x], 'big') for x in ('n', 'd'))
            kl = len(sig)
            s = int.from_bytes(sig, 'big')
            if u == 'range':
                return (s + N).to_bytes(kl, 'big') if s + N < 1 << (8 * kl) else (N - s).to_bytes(kl, 'big')
            if u == 'zero':
                return rnd.choice([0, 1, N - 1]).to_bytes(kl, 'big')
            if u == 'twin':
                return (N - s).to_bytes(kl, 'big')
            if u == 'form':
                em = self.forge_em(kl, N, v, self.msgs[mi])
                return pow(int.from_bytes(em, 'big'), d, N).to_bytes(kl, 'big')
            return None
        if a == 'ed':
            s = int.from_bytes(sig[32:], 'little')
            if u in ('range', 'twin'):
                return sig[:32] + (s + ED_L).to_bytes(32, 'little')
            if u == 'zero':
                return rnd.choice([bytes(64), sig[:32] + bytes(32), b'\1' + bytes(63), sig[:32] + b'\xff' * 32])
            return None
        if a == 'mldsa':
            M = PQ.MlDsa(int(self.cfg['name'][-2:]))
            ch, z, h = M.split(sig)
            hb = bytearray(h)
            cnt = hb[M.omega + M.k - 1]
            if u == 'form':
                w = rnd.choice(['pad', 'swap', 'dup', 'dec', 'over'])
                if w == 'pad' and cnt < M.omega:
                    hb[M.omega - 1] = rnd.choice([1, 255])
                elif w == 'swap':
                    st = 0
                    for j in range(M.k):
                        e = hb[M.omega + j]
                        if e - st >= 2:
                            hb[st], hb[st + 1] = hb[st + 1], hb[st]
                            break
                        st = e
                    else:
                        return None
                elif w == 'dup':
                    # a repeated position at the end
                    if cnt == 0 or cnt >= M.omega:
                        return None
                    hb[cnt] = hb[cnt - 1]
                    hb[M.omega + M.k - 1] = cnt + 1
                    if M.k > 1 and hb[M.omega + M.k - 2] == cnt:
                        return None
                elif w == 'dec':
                    hb[M.omega + M.k - 2] = min(255, cnt + 1)
                elif w == 'over':
                    hb[M.omega + M.k - 1] = M.omega + 1
                else:
                    return None
                r = ch + z + bytes(hb)
                return r if r != sig else None
            if u == 'range':
                zz = bytearray(z)
                zz[:3] = b'\0\0\0'
                r = ch + bytes(zz) + h
                return r if r != sig else None
            return None
        return None

    def forge_em(self, k, N, v, m):
        rnd, md = self.rnd, self.mds[v]
        h = digest(md, m)
        if self.alg == 'rsa':
            di = D.seq(D.seq(D.oid(DI[md]), b'\5\0'), D.octets(h))
            T = lambda t, ps=None, bt=b'\1', lead=b'\0', sep=b'\0': lead + bt + (b'\xff' * (k - 3 - len(t)) if ps is None else ps) + sep + t
            other = rnd.choice([x for x in DI if x != md])
            c = [T(di, bt=b'\2'), T(di, bt=b'\0'), T(di, lead=b'\0', sep=b'\1'), T(di + b'\0'), T(D.seq(D.seq(D.oid(DI[other]), b'\5\0'), D.octets(h))), T(h),
                 T(di, ps=b'\xff' * (k - 4 - len(di)) + b'\xfe'), T(di, ps=b'\0' + b'\xff' * (k - 4 - len(di))),
                 b'\0\1' + b'\xff' * 8 + b'\0' + di + b'\0' * (k - 11 - len(di)), b'\0\1' + b'\xff' * 8 + b'\0' + di + b'\xff' * (k - 11 - len(di)),
                 T(D.seq(D.seq(D.oid(DI[md]), b'\5\0'), D.octets(h[:-1]))), T(D.seq(D.seq(D.oid(DI[md]), b'\5\1\0'), D.octets(h))), T(D.seq(D.seq(D.oid(DI[md]), b'\5\0'), D.octets(h), b'\5\0'))]
            return rnd.choice(c)
        bits = N.bit_length() - 1
        n = (bits + 7) // 8
        hl = len(h)
        want = self.salts[v]
        sl = hl if want == -1 else n - hl - 2 if want == -2 else want

        def mk(sl, tr=0xbc, one=1, pad=0, top=0, hx=0, mgf=md):
            salt = rnd.randbytes(sl)
            H_ = bytearray(digest(md, bytes(8) + h + salt))
            db = bytearray(bytes(n - sl - hl - 2) + bytes([one]) + salt)
            if pad and n - sl - hl - 2 > 1:
                db[rnd.randrange(1, n - sl - hl - 2)] = 1
            elif pad:
                one2 = n - sl - hl - 2
                db[one2] = 2
            mask = b''
            j = 0
            while len(mask) < len(db):
                mask += digest(mgf, bytes(H_) + j.to_bytes(4, 'big'))
                j += 1
            db = bytearray(x ^ y for x, y in zip(db, mask))
            db[0] &= 0xff >> (8 * n - bits)
            if top and 8 * n > bits:
                db[0] |= 0x80
                if int.from_bytes(bytes(db), 'big') << (8 * (hl + 1)) >= N:
                    db[0] &= 0x7f
                    tr = 0xcc
            elif top:
                tr = 0xcc
            H_[0] ^= hx
            return bytes(k - n) + bytes(db) + bytes(H_) + bytes([tr])
        o = [x for x in (0, 1, sl - 1, sl + 1) if 0 <= x <= n - hl - 2 and x != sl]
        w = rnd.choice(['tr', 'one', 'pad', 'top', 'hx', 'mgf', 'salt'])
        if w == 'salt' and o:
            return mk(rnd.choice(o))
        return mk(sl, **{'tr': {'tr': 0xbb}, 'one': {'one': 2}, 'pad': {'pad': 1}, 'top': {'top': 1}, 'hx': {'hx': 1}, 'mgf': {'mgf': 'sha1' if md != 'sha1' else 'sha256'}, 'salt': {'tr': 0xcc}}[w])


class Sig(R.Part):
    module = 'Sign'
    name = 'sign'
    per_script = 40

    def consts(self, tier):
        return {'Algs': set(NAMES), 'Ops': {'get', 'bad', 'pair'}, 'Muts': {'flip', 'cut', 'long', 'empty', 'rand', 'twin', 'range', 'zero', 'form'},
                'BadPubs': {'off', 'len', 'zero', 'form', 'range'}, 'BadPrvs': {'zero', 'range', 'len'}, 'MaxKey': 99}

    def explore_consts(self, tier):
        return dict(self.consts(tier), MaxKey=2, Ops={'get', 'pair'} if tier == 'quick' else {'get', 'bad', 'pair', 'all'}, Muts={'flip'} if tier == 'quick' else self.consts(tier)['Muts'])

    def scripts(self, tier, rng, g):
        q = tier == 'quick'
        out = E.cover(g, maxlen=25, rng=rng, limit=300 if q else None) + E.random_walks(g, 600 if q else 6000, 25, rng)
        res = []
        for n, (c, ins) in enumerate(out):
            ins = list(ins)
            # operations the exploration leaves out
            for j in range(len(ins) - 1, 0, -1):
                r = rng.random()
                cc = rng.choice('ab')
                if r < 0.06:
                    ins.insert(j, {'op': 'badpub', 'c': cc, 'v': rng.choice(['off', 'len', 'zero', 'form', 'range'])})
                elif r < 0.12:
                    ins.insert(j, {'op': 'badprv', 'c': cc, 'v': rng.choice(['zero', 'range', 'len'])})
                elif r < 0.15:
                    ins.insert(j, {'op': 'gen', 'c': cc, 'rand': rng.random() < 0.7})
                if ins[j - 1]['op'] == 'sign' and rng.random() < 0.7:
                    for u in rng.sample(['flip', 'cut', 'long', 'empty', 'rand', 'twin', 'range', 'zero', 'form', 'form', 'none'], 4):
                        ins.insert(j, {'op': 'verify', 'c': rng.choice(['a', 'b', ins[j - 1]['c']]), 'm': ins[j - 1]['m'], 'how': rng.choice(['data', 'hash']), 'mut': u})
            res.append((dict(c, name=rng.choice(NAMES[c['alg']]), salt=n), ins))
        return res

    def make(self):
        return Drv()


PARTS = [Sig()]


def setup():
    H.init([__file__, Q.__file__])
    ALGS.update(Q.algs())


def main():
    return R.run('C15', PARTS, setup=setup)

"""C12: digests, XOFs and MACs."""
import ctypes as ct, random
from lib import engine as E, hitls as H, oracle as O, runner as R
from lib.hitls import K, L
#K: CRYPT_MD_MD5 CRYPT_MD_SHA1 CRYPT_MD_SHA224 CRYPT_MD_SHA256 CRYPT_MD_SHA384 CRYPT_MD_SHA512 CRYPT_MD_SHA3_224 CRYPT_MD_SHA3_256
#K: CRYPT_MD_SHA3_384 CRYPT_MD_SHA3_512 CRYPT_MD_SHAKE128 CRYPT_MD_SHAKE256 CRYPT_MD_BLAKE2S256 CRYPT_MD_SM3
#K: CRYPT_MAC_HMAC_MD5 CRYPT_MAC_HMAC_SHA1 CRYPT_MAC_HMAC_SHA224 CRYPT_MAC_HMAC_SHA256 CRYPT_MAC_HMAC_SHA384 CRYPT_MAC_HMAC_SHA512
#K: CRYPT_MAC_HMAC_SHA3_224 CRYPT_MAC_HMAC_SHA3_256 CRYPT_MAC_HMAC_SHA3_384 CRYPT_MAC_HMAC_SHA3_512 CRYPT_MAC_HMAC_SM3
#K: CRYPT_MAC_CMAC_AES128 CRYPT_MAC_CMAC_AES192 CRYPT_MAC_CMAC_AES256 CRYPT_MAC_CMAC_SM4 CRYPT_MAC_CBC_MAC_SM4 CRYPT_MAC_GMAC_AES128
#K: CRYPT_MAC_GMAC_AES192 CRYPT_MAC_GMAC_AES256 CRYPT_MAC_SIPHASH64 CRYPT_MAC_SIPHASH128

BLOCK = {'MD5': 64, 'SHA1': 64, 'SHA224': 64, 'SHA256': 64, 'SHA384': 128, 'SHA512': 128, 'SHA3_224': 144, 'SHA3_256': 136,
         'SHA3_384': 104, 'SHA3_512': 72, 'SM3': 64, 'BLAKE2S256': 64, 'SHAKE128': 168, 'SHAKE256': 136}
BASE = {'AES128': ('AES-128', 16), 'AES192': ('AES-192', 24), 'AES256': ('AES-256', 32), 'SM4': ('SM4', 16)}
ALGS = {'md': list(O.HASHES), 'xof': ['SHAKE128', 'SHAKE256'],
        'mac': ['HMAC_' + h for h in O.HASHES if h != 'BLAKE2S256'] + ['CMAC_AES128', 'CMAC_AES192', 'CMAC_AES256', 'CMAC_SM4', 'SIPHASH64',
                                                                      'SIPHASH128'],
        'cbcmac': ['CBC_MAC_SM4'], 'gmac': ['GMAC_AES128', 'GMAC_AES192', 'GMAC_AES256']}


def block(a):
    for p in ('HMAC_',):
        if a.startswith(p):
            return BLOCK[a[len(p):]]
    return BLOCK.get(a, 8 if a.startswith('SIP') else 16)


class Drv:
    def reset(self, cfg):
        self.kind, self.alg = cfg['kind'], cfg['alg']
        self.rnd = random.Random(str(cfg))
        self.mac = self.kind in ('mac', 'cbcmac', 'gmac')
        self.pre = 'Mac' if self.mac else 'Md'
        self.id = K.get(('CRYPT_MAC_' if self.mac else 'CRYPT_MD_') + self.alg)
        if cfg.get('prov'):
            p = (L.CRYPT_EAL_ProviderMacNewCtx if self.mac else L.CRYPT_EAL_ProviderMdNewCtx)(None, self.id, None)
        else:
            p = (L.CRYPT_EAL_MacNewCtx if self.mac else L.CRYPT_EAL_MdNewCtx)(self.id)
        assert p, self.alg
        self.ctx = {'a': p}
        self.sh = {'a': [None, b'', 0]}         # key, data, squeezed
        b = block(self.alg)
        if self.alg.startswith('HMAC'):
            kl = cfg.get('kl', [20, b])
        elif self.alg.startswith('SIP'):
            kl = [16, 16]
        else:
            kl = [BASE[self.alg.split('_')[-1]][1]] * 2 if self.mac else [0, 0]
        self.keys = [self.rnd.randbytes(n) for n in kl]
        self.iv = self.rnd.randbytes(cfg.get('ivl', 12))

    def close(self):
        for p in self.ctx.values():
            (L.CRYPT_EAL_MacFreeCtx if self.mac else L.CRYPT_EAL_MdFreeCtx)(p)
        self.ctx = {}

    def size(self):
        a = self.alg
        if a.startswith('HMAC_'):
            return len(O.digest(a[5:], b''))
        if a == 'SIPHASH64':
            return 8
        if self.mac:
            return 16
        if self.kind == 'xof':
            return 16 if '128' in a else 32
        return len(O.digest(a, b''))

    def ref(self, key, data):
        a = self.alg
        if a.startswith('HMAC_'):
            return O.hmac_(a[5:], key, data)
        if a.startswith('CMAC_'):
            return O.cmac(BASE[a[5:]][0], key, data)
        if a.startswith('GMAC_'):
            return O.evp_aead('AES-%s-GCM' % a[-3:], key, self.iv, data, b'')[1]
        if a.startswith('SIP'):
            return O.siphash(key, data, 8 if a.endswith('64') else 16)
        if a == 'CBC_MAC_SM4':
            d = O.pad16(data) if data else b'\0' * 16
            return O.evp('SM4-CBC', key, b'\0' * 16, d)[-16:] if d else b'\0' * 16
        if self.kind == 'xof':
            return O.shake(a, data, self.size())
        return O.digest(a, data)

    def do(self, i):
        op = i['op']
        m = self.mac
        if op == 'dup':
            p = (L.CRYPT_EAL_MacDupCtx if m else L.CRYPT_EAL_MdDupCtx)(self.ctx['a'])
            if not p:
                return ['err']
            if self.ctx.get('b'):
                (L.CRYPT_EAL_MacFreeCtx if m else L.CRYPT_EAL_MdFreeCtx)(self.ctx['b'])
            self.ctx['b'] = p
            self.sh['b'] = list(self.sh['a'])
            return ['ok']
        if op == 'copy':
            if 'b' not in self.ctx:
                return None
            r = (L.CRYPT_EAL_MacCopyCtx if m else L.CRYPT_EAL_MdCopyCtx)(self.ctx['b'], self.ctx['a'])
            self.sh['b'] = list(self.sh['a'])
            return ['ok'] if r == 0 else ['err']
        c = i['c']
        if c not in self.ctx:
            return None
        x, s = self.ctx[c], self.sh[c]
        if op == 'init':
            if m:
                key = self.keys[i['key']]
                r = L.CRYPT_EAL_MacInit(x, H.buf(key), len(key))
                if r == 0 and self.kind == 'gmac':
                    r = L.CRYPT_EAL_MacCtrl(x, K.CRYPT_CTRL_SET_IV, H.buf(self.iv), len(self.iv))
                    v = ct.c_uint32(16)
                    r = r or L.CRYPT_EAL_MacCtrl(x, K.CRYPT_CTRL_SET_TAGLEN, ct.byref(v), 4)
                if r == 0 and self.kind == 'cbcmac':
                    v = ct.c_int32(K.CRYPT_PADDING_ZEROS)
                    r = L.CRYPT_EAL_MacCtrl(x, K.CRYPT_CTRL_SET_CBC_MAC_PADDING, ct.byref(v), 4)
            else:
                key = b''
                r = L.CRYPT_EAL_MdInit(x)
            if r == 0:
                s[:] = [key, b'', 0]
            return ['ok'] if r == 0 else ['err']
        if op == 'reinit':
            r = L.CRYPT_EAL_MacReinit(x)
            if r == 0:
                s[1] = b''
            return ['ok'] if r == 0 else ['err']
        if op == 'deinit':
            if m:
                L.CRYPT_EAL_MacDeinit(x)
                return ['ok']
            r = L.CRYPT_EAL_MdDeinit(x)
            return ['ok'] if r == 0 else ['err']
        if op == 'upd':
            d = self.rnd.randbytes(i['n'])
            r = (L.CRYPT_EAL_MacUpdate if m else L.CRYPT_EAL_MdUpdate)(x, H.buf(d), len(d))
            if r == 0:
                s[1] += d
            return ['ok'] if r == 0 else ['err']
        if op == 'fin':
            n0 = self.size() - (1 if i['room'] == 'short' else 0) + (7 if i['room'] == 'big' and self.kind != 'gmac' else 0)
            n = ct.c_uint32(n0)
            b = H.buf(128)
            ct.memset(b, 0xA5, 128)
            r = (L.CRYPT_EAL_MacFinal if m else L.CRYPT_EAL_MdFinal)(x, b, ct.byref(n))
            if r != 0:
                return ['err']
            want = O.shake(self.alg, s[1], n0) if self.kind == 'xof' else self.ref(s[0], s[1])
            return ['ok', bool(n.value == len(want) and bytes(b)[:n.value] == want and bytes(b)[n.value:] == b'\xa5' * (128 - n.value))]
        if op == 'squeeze':
            n = i['n']
            b = H.buf(n + 16)
            ct.memset(b, 0xA5, n + 16)
            r = L.CRYPT_EAL_MdSqueeze(x, b, n)
            if r != 0:
                return ['err']
            want = O.shake(self.alg, s[1], s[2] + n)[s[2]:]
            s[2] += n
            return ['ok', bytes(b) == want + b'\xa5' * 16]
        raise ValueError(op)


class Part(R.Part):
    module = 'Digest'

    def __init__(self, kind):
        self.kind = self.name = kind

    def consts(self, tier):
        if self.kind == 'xof':
            return {'Kinds': {self.kind}, 'Sizes': {0, 16}, 'MaxTot': 16, 'Keys': {0}, 'SqSizes': {0, 17}}
        return {'Kinds': {self.kind}, 'Sizes': {0, 1, 15, 16, 17}, 'MaxTot': 17 if tier == 'quick' or self.kind != 'md' else 33,
                'Keys': {0} if self.kind == 'md' else {0, 1}, 'SqSizes': {0}}

    def scripts(self, tier, rng, g):
        quick = tier == 'quick'
        base = E.cover(g, maxlen=60, rng=rng)
        if quick and len(base) > 9000:
            base = rng.sample(base, 9000)
        out = []
        al = ALGS[self.kind]
        for k, a in enumerate(al):
            share = [x for j, x in enumerate(base) if j % len(al) == k]
            rest = base if len(base) > 2000 else [x for x in base if x not in share]
            share += rng.sample(rest, min(len(rest), (120 if quick else 2000)))
            for j, (cfg, ins) in enumerate(share):
                b = block(a)
                # scale the abstract 16 of the model to the block size of the algorithm
                sc = {0: 0, 1: 1, 15: b - 1, 16: b, 17: b + 1, 32: 2 * b, 33: 2 * b + 1}
                ii = [dict(i, n=sc.get(i['n'], i['n'])) if i['op'] in ('upd', 'squeeze') and j % 2 else i for i in ins]
                out.append((dict(cfg, alg=a, n=j, prov=j % 3 == 0), ii))
            for j in range(60 if quick else 1200):
                out.append(self.rand(a, rng, j))
        return out

    def rand(self, a, rng, j):
        b = block(a)
        cfg = {'kind': self.kind, 'alg': a, 'n': 100000 + j, 'prov': rng.random() < .5}
        if a.startswith('HMAC'):
            ds = len(O.digest(a[5:], b''))
            cfg['kl'] = [rng.choice((1, ds - 1, ds, ds + 1, b - 1, b, b + 1, 2 * b + 3, 300)) for _ in range(2)]
        if self.kind == 'gmac':
            cfg['ivl'] = rng.choice((1, 8, 12, 13, 16, 17, 60))
        B = [0, 1, 2, 7, 8, 9, b // 2, b - 9, b - 8, b - 1, b, b + 1, 2 * b - 1, 2 * b, 2 * b + 1, 3 * b, 4 * b - 1, 4 * b, 4 * b + 1, 8 * b, 8 * b + 3,
             b - 17, b - 16, 55, 56, 57, 63, 64, 65, 111, 112, 113]
        B = [x for x in B if x >= 0]
        ins, live = [], ['a']
        for _ in range(rng.randrange(1, 4)):
            c = rng.choice(live)
            ins.append({'op': 'init', 'c': c, 'key': rng.randrange(2)} if rng.random() < .7 or not ins or self.kind in ('md', 'xof')
                       else {'op': 'reinit', 'c': c})
            for _ in range(rng.randrange(0, 7)):
                cc = c if rng.random() < .8 else rng.choice(live)
                ins.append({'op': 'upd', 'c': cc, 'n': rng.choice(B)})
                if rng.random() < .12:
                    if 'b' in live:
                        ins.append({'op': 'copy'})
                    else:
                        live.append('b')
                        ins.append({'op': 'dup'})
            if rng.random() < .15:
                ins.append({'op': 'fin', 'c': c, 'room': 'short'})
            if self.kind == 'xof' and rng.random() < .7:
                for _ in range(rng.randrange(1, 5)):
                    ins.append({'op': 'squeeze', 'c': c, 'n': rng.choice(B)})
            else:
                ins.append({'op': 'fin', 'c': c, 'room': rng.choice(('exact', 'big'))})
            if rng.random() < .3:
                ins.append({'op': rng.choice(('upd',)), 'c': c, 'n': 3})
        for c in live:
            ins.append({'op': 'fin', 'c': c, 'room': 'big'})
        return (cfg, ins)

    def make(self):
        return Drv()


PARTS = [Part(k) for k in ('md', 'xof', 'mac', 'cbcmac', 'gmac')]


def setup():
    H.init([__file__])


def main():
    return R.run('C12', PARTS, setup=setup,
                 assumptions=['hashlib / OpenSSL and plain Python implementations are the reference functions'])

"""C11: symmetric ciphers."""
import ctypes as ct, os, random
from lib import engine as E, hitls as H, oracle as O, runner as R
from lib.hitls import K, L

FAM = {}
for ks, n in ((128, 16), (192, 24), (256, 32)):
    FAM['AES%d' % ks] = ('AES-%d' % ks, n)
FAM['SM4'] = ('SM4', 16)


def algs():
    a = {}
    for f, (ref, kl) in FAM.items():
        for m, kind, ivl in (('CBC', 'block', 16), ('ECB', 'block', 0), ('CTR', 'stream', 16), ('CFB', 'stream', 16),
                             ('OFB', 'stream', 16), ('GCM', 'gcm', 12), ('CCM', 'ccm', 12)):
            a['%s_%s' % (f, m)] = (kind, '%s-%s' % (ref, m), kl, ivl)
    for f in ('AES128', 'AES256', 'SM4'):
        a[f + '_XTS'] = ('xts', FAM[f][0] + '-XTS', FAM[f][1] * 2, 16)
    a['CHACHA20'] = ('stream', 'ChaCha20', 32, 12)
    a['CHACHA20_POLY1305'] = ('poly', 'CHACHA20_POLY1305', 32, 12)
    return a


ALGS = algs()
KINDS = {}
for _a, _v in ALGS.items():
    KINDS.setdefault(_v[0], []).append(_a)
#K: CRYPT_CIPHER_AES128_CBC CRYPT_CIPHER_AES192_CBC CRYPT_CIPHER_AES256_CBC CRYPT_CIPHER_AES128_CTR CRYPT_CIPHER_AES192_CTR CRYPT_CIPHER_AES256_CTR
#K: CRYPT_CIPHER_AES128_ECB CRYPT_CIPHER_AES192_ECB CRYPT_CIPHER_AES256_ECB CRYPT_CIPHER_AES128_XTS CRYPT_CIPHER_AES256_XTS
#K: CRYPT_CIPHER_AES128_CCM CRYPT_CIPHER_AES192_CCM CRYPT_CIPHER_AES256_CCM CRYPT_CIPHER_AES128_GCM CRYPT_CIPHER_AES192_GCM CRYPT_CIPHER_AES256_GCM
#K: CRYPT_CIPHER_CHACHA20 CRYPT_CIPHER_CHACHA20_POLY1305 CRYPT_CIPHER_SM4_XTS CRYPT_CIPHER_SM4_CBC CRYPT_CIPHER_SM4_ECB CRYPT_CIPHER_SM4_CTR
#K: CRYPT_CIPHER_SM4_GCM CRYPT_CIPHER_SM4_CFB CRYPT_CIPHER_SM4_OFB CRYPT_CIPHER_SM4_CCM CRYPT_CIPHER_AES128_CFB CRYPT_CIPHER_AES192_CFB
#K: CRYPT_CIPHER_AES256_CFB CRYPT_CIPHER_AES128_OFB CRYPT_CIPHER_AES192_OFB CRYPT_CIPHER_AES256_OFB CRYPT_CIPHER_SM4_HCTR
#K: CRYPT_CIPHER_AES128_WRAP_NOPAD CRYPT_CIPHER_AES192_WRAP_NOPAD CRYPT_CIPHER_AES256_WRAP_NOPAD
#K: CRYPT_CIPHER_AES128_WRAP_PAD CRYPT_CIPHER_AES192_WRAP_PAD CRYPT_CIPHER_AES256_WRAP_PAD


def pads():
    return {'none': K.CRYPT_PADDING_NONE, 'zeros': K.CRYPT_PADDING_ZEROS, 'iso7816': K.CRYPT_PADDING_ISO7816,
            'x923': K.CRYPT_PADDING_X923, 'pkcs7': K.CRYPT_PADDING_PKCS7}


def padblock(pad, tail, rnd):
    """a 16-byte last block whose padding is `tail` under `pad`"""
    if tail == 'bad':
        if pad == 'pkcs7':
            k = rnd.randrange(6)
            if k == 0:
                return rnd.randbytes(15) + b'\0'
            if k == 1:
                return rnd.randbytes(15) + b'\x11'
            if k == 2:
                return b'\x10' * 0 + b'\x0f' + b'\x10' * 15      # first byte of a full block wrong
            if k == 3:
                return rnd.randbytes(12) + b'\x04\x05\x04\x04'
            if k == 4:
                return rnd.randbytes(14) + b'\x01\x02'
            return rnd.randbytes(15) + b'\xff'
        if pad == 'x923':
            k = rnd.randrange(4)
            if k == 0:
                return rnd.randbytes(15) + b'\0'
            if k == 1:
                return rnd.randbytes(15) + b'\x11'
            if k == 2:
                return rnd.randbytes(11) + b'\x01\0\0\0\x05'
            return b'\1' + b'\0' * 14 + b'\x10'
        k = rnd.randrange(3)
        if k == 0:
            return b'\0' * 16
        if k == 1:
            return rnd.randbytes(15) + b'\x81'
        return rnd.randbytes(8) + b'\x40' + b'\0' * 7
    n = {'p1': 1, 'p7': 7, 'pfull': 16}[tail]
    body = rnd.randbytes(16 - n)
    if pad == 'pkcs7':
        return body + bytes([n]) * n
    if pad == 'x923':
        return body + b'\0' * (n - 1) + bytes([n])
    if pad == 'iso7816':
        return body + b'\x80' + b'\0' * (n - 1)
    return rnd.randbytes(16)


class Shadow:
    """what has been fed to a context, to compute the reference result"""

    def __init__(self, d=None):
        if d:
            self.__dict__.update(d)

    def copy(self):
        return Shadow(dict(self.__dict__))


class Drv:
    def __init__(self):
        self.ctx = {}

    def reset(self, cfg):
        self.alg = cfg['alg']
        self.kind, self.ref, self.kl, self.ivl = ALGS[self.alg]
        self.ivl = cfg.get('ivl', self.ivl)
        self.rnd = random.Random(str(cfg))
        self.keys = {k: self.rnd.randbytes(self.kl) for k in (0, 1)}
        self.ivs = {k: self.rnd.randbytes(self.ivl) for k in (0, 1)}
        if cfg.get('ctrwrap'):
            self.ivs = {0: self.rnd.randbytes(self.ivl - 4) + b'\xff\xff\xff\xfe', 1: b'\xff' * self.ivl}
        self.id = K.get('CRYPT_CIPHER_' + self.alg)
        self.inplace = cfg.get('inplace', False)
        self.ctx = {'a': L.CRYPT_EAL_ProviderCipherNewCtx(None, self.id, None) if cfg.get('prov') else L.CRYPT_EAL_CipherNewCtx(self.id)}
        if not self.ctx['a']:
            raise RuntimeError('no cipher ' + self.alg)
        self.sh = {'a': Shadow()}
        self.fresh('a')

    def fresh(self, c):
        s = self.sh[c]
        s.data, s.ptx, s.out, s.aad, s.tl, s.pad, s.enc, s.ml, s.pending = b'', b'', b'', b'', 16, 'none', True, 0, b''

    def close(self):
        for p in self.ctx.values():
            L.CRYPT_EAL_CipherFreeCtx(p)
        self.ctx = {}

    def counter_iv(self, s):
        return s.iv

    # reference output for everything fed so far
    def ref_out(self, s, data, enc):
        if self.kind == 'block':
            n = len(data) // 16 * 16
            return O.evp(self.ref, s.key, s.iv if self.ivl else None, data[:n], enc)
        if self.kind == 'stream':
            if self.alg == 'CHACHA20':
                iv = self.chacha_ctr + s.iv
                return O.evp('ChaCha20', s.key, iv, data, enc)
            return O.evp(self.ref, s.key, s.iv, data, enc)
        if self.kind == 'xts':
            if len(data) < 16:
                return b''
            return O.xts_soft(self.ref[:-4], s.key, s.iv, data, enc, gm=self.alg.startswith('SM4'))
        return O.aead(self.ref, s.key, s.iv, s.aad, data, enc, s.tl)[0]

    chacha_ctr = (0).to_bytes(4, 'little')

    def nextdata(self, s, n, tail):
        """n more input bytes; in padded decryption whole blocks are made to decrypt to a chosen last block"""
        if self.kind != 'block' or s.enc or s.pad == 'none':
            return self.rnd.randbytes(n)
        out = s.pending[:n]
        s.pending = s.pending[n:]
        while len(out) < n:
            pb = padblock(s.pad, tail, self.rnd)
            prev = s.lastc
            if self.ivl:
                cb = O.evp(self.ref, s.key, prev, pb, True)
            else:
                cb = O.evp(self.ref, s.key, None, pb, True)
            s.lastc = cb
            s.ptx += pb
            take = n - len(out)
            out += cb[:take]
            s.pending = cb[take:]
        return out

    def do(self, i):
        op = i['op']
        if op == 'dup':
            p = L.CRYPT_EAL_CipherDupCtx(self.ctx['a'])
            if not p:
                return ['err']
            self.ctx['b'] = p
            self.sh['b'] = self.sh['a'].copy()
            return ['ok']
        c = i['c']
        if c not in self.ctx:
            return None
        x, s = self.ctx[c], self.sh[c]
        if op == 'init':
            key, iv = self.keys[i['key']], self.ivs[i['iv']]
            r = L.CRYPT_EAL_CipherInit(x, H.buf(key), len(key), H.buf(iv) if iv else None, len(iv), i['enc'])
            if r == 0:
                self.fresh(c)
                s.key, s.iv, s.enc = key, iv, i['enc']
                s.lastc = iv
            return ['ok'] if r == 0 else ['err']
        if op == 'badinit':
            r = L.CRYPT_EAL_CipherInit(x, H.buf(b'k' * (self.kl - 1)), self.kl - 1, H.buf(self.ivs[0]), self.ivl, True)
            self.fresh(c)
            return ['ok'] if r == 0 else ['err']
        if op == 'reinit':
            iv = self.ivs[i['iv']]
            r = L.CRYPT_EAL_CipherReinit(x, H.buf(iv) if iv else None, len(iv))
            if r == 0:
                s.iv = iv
                s.lastc = iv
                s.data, s.ptx, s.out, s.aad, s.pending, s.ml = b'', b'', b'', b'', b'', 0
                s.pad = 'none'
            return ['ok'] if r == 0 else ['err']
        if op == 'deinit':
            L.CRYPT_EAL_CipherDeinit(x)
            self.fresh(c)
            return ['ok']
        if op == 'pad':
            r = L.CRYPT_EAL_CipherSetPadding(x, pads()[i['pad']])
            if r == 0:
                s.pad = i['pad']
            return ['ok'] if r == 0 else ['err']
        if op == 'aad':
            a = self.rnd.randbytes(i['n'])
            r = L.CRYPT_EAL_CipherCtrl(x, K.CRYPT_CTRL_SET_AAD, H.buf(a), len(a))
            if r == 0:
                s.aad = a
            return ['ok'] if r == 0 else ['err']
        if op == 'msglen':
            v = ct.c_uint64(i['n'])
            r = L.CRYPT_EAL_CipherCtrl(x, K.CRYPT_CTRL_SET_MSGLEN, ct.byref(v), 8)
            if r == 0:
                s.ml = i['n']
            return ['ok'] if r == 0 else ['err']
        if op == 'taglen':
            v = ct.c_uint32(i['n'])
            r = L.CRYPT_EAL_CipherCtrl(x, K.CRYPT_CTRL_SET_TAGLEN, ct.byref(v), 4)
            if r == 0:
                s.tl = i['n']
            return ['ok'] if r == 0 else ['err']
        if op == 'upd':
            d = self.nextdata(s, i['n'], i['tail']) if hasattr(s, 'key') else b'z' * i['n']
            n = ct.c_uint32(len(d) + 32)
            b = H.buf(len(d) + 64)
            ct.memset(b, 0xA5, len(d) + 64)
            if self.inplace and self.kind in ('stream', 'gcm', 'ccm', 'poly'):
                ct.memmove(b, d, len(d))
                r = L.CRYPT_EAL_CipherUpdate(x, b, len(d), b, ct.byref(n))
            else:
                r = L.CRYPT_EAL_CipherUpdate(x, H.buf(d), len(d), b, ct.byref(n))
            if r != 0:
                return ['err']
            s.data += d
            return self.emit(s, b, n.value, len(d) + 64)
        if op == 'fin':
            n = ct.c_uint32(64)
            b = H.buf(128)
            ct.memset(b, 0xA5, 128)
            r = L.CRYPT_EAL_CipherFinal(x, b, ct.byref(n))
            if r != 0:
                return ['err']
            if self.kind == 'block' and s.enc and s.pad != 'none':
                m = -len(s.data) % 16 or 16
                pad = {'pkcs7': bytes([m]) * m, 'x923': b'\0' * (m - 1) + bytes([m]), 'iso7816': b'\x80' + b'\0' * (m - 1),
                       'zeros': b'\0' * m}[s.pad]
                s.data += pad
            return self.emit(s, b, n.value, 128)
        if op == 'settag':
            tag = self.rnd.randbytes(s.tl)
            if i['v'] == 'good' and hasattr(s, 'key') and not s.enc and not (self.kind == 'ccm' and len(s.data) != s.ml):
                tag = O.aead(self.ref, s.key, s.iv, s.aad, s.data, False, s.tl)[1]
            elif i['v'] == 'bad' and hasattr(s, 'key') and not (self.kind == 'ccm' and len(s.data) != s.ml):
                tag = bytearray(O.aead(self.ref, s.key, s.iv, s.aad, s.data, s.enc, s.tl)[1])
                k = self.rnd.choice((0, len(tag) - 1, self.rnd.randrange(len(tag))))
                tag[k] ^= 1 << self.rnd.randrange(8)
                tag = bytes(tag)
            r = L.CRYPT_EAL_CipherCtrl(x, K.CRYPT_CTRL_SET_TAG, H.buf(tag), len(tag))
            return ['ok'] if r == 0 else ['err']
        if op == 'gettag':
            b = H.buf(64)
            ct.memset(b, 0xA5, 64)
            r = L.CRYPT_EAL_CipherCtrl(x, K.CRYPT_CTRL_GET_TAG, b, i['n'])
            if r != 0:
                return ['err']
            want = O.aead(self.ref, s.key, s.iv, s.aad, s.data, s.enc, s.tl)[1]
            ok = bytes(b)[:i['n']] == want and bytes(b)[i['n']:] == b'\xa5' * (64 - i['n'])
            return ['ok'] if ok else ['ok', 'WRONG-TAG']
        raise ValueError(op)

    def emit(self, s, b, n, size):
        got = bytes(b)[:n]
        s.out += got
        if self.kind == 'xts':
            good = s.out == self.ref_out(s, s.data, s.enc)[:len(s.out)] and len(s.out) == len(s.data)
        elif self.kind == 'block' and not s.enc and s.pad != 'none':
            good = s.out == s.ptx[:len(s.out)]
        else:
            good = s.out == (self.ref_out(s, s.data, s.enc) or b'')[:len(s.out)] if s.data else not s.out
        return ['ok', n, bool(good)]


class Part(R.Part):
    module = 'Cipher'

    def __init__(self, kind):
        self.kind = kind
        self.name = kind

    def consts(self, tier):
        t = tier == 'thorough'
        return {'Kinds': {self.kind}, 'Sizes': {0, 1, 15, 16, 17} if not t else {0, 1, 15, 16, 17, 33}, 'MaxTot': 33 if not t else 50,
                'Aads': {0, 5}, 'Keys': {0}, 'Ivs': {0, 1}, 'Dups': False}

    def scripts(self, tier, rng, g):
        out = []
        quick = tier != 'thorough'
        base = E.cover(g, maxlen=60, rng=rng)
        al = KINDS[self.kind]
        budget = 300 if quick else 6000        # scripts of the covering set replayed per algorithm
        for a in al:
            sc = base
            if len(al) > 1:
                # every algorithm of the kind gets its share; together they get the whole cover
                sc = [x for k, x in enumerate(base) if k % len(al) == al.index(a)]
                rest = [x for x in base if x not in sc] if len(base) < 3000 else base
                sc = sc + rng.sample(rest, min(len(rest), max(0, budget - len(sc))))
            for k, (cfg, ins) in enumerate(sc):
                out.append((dict(cfg, alg=a, n=k), ins))
            for k in range(60 if quick else 800):
                out.append(self.random_script(a, rng, k))
        return out

    BOUND = [0, 1, 2, 7, 8, 15, 16, 17, 31, 32, 33, 47, 48, 49, 63, 64, 65, 79, 80, 95, 96, 97, 111, 112, 113, 127, 128, 129, 143, 144, 159, 160,
             191, 192, 193, 255, 256, 257, 300, 383, 384, 385, 511, 512, 513, 1023, 1024, 1025]

    def random_script(self, a, rng, k):
        kind = self.kind
        cfg = {'kind': kind, 'alg': a, 'n': 100000 + k, 'inplace': rng.random() < .3, 'prov': rng.random() < .5}
        if kind == 'gcm' and rng.random() < .4:
            cfg['ivl'] = rng.choice((1, 8, 11, 13, 15, 16, 17, 32, 60))
        if kind == 'ccm' and rng.random() < .4:
            cfg['ivl'] = rng.choice((7, 8, 11, 13))
        if a.endswith('_CTR') and rng.random() < .4:
            cfg['ctrwrap'] = True
        ins = []
        live = ['a']
        for _ in range(rng.randrange(1, 4)):
            c = rng.choice(live)
            enc = rng.random() < .5
            key = rng.randrange(2)
            if rng.random() < .7 or not ins:
                ins.append({'op': 'init', 'c': c, 'enc': enc, 'key': key, 'iv': rng.randrange(2)})
            else:
                ins.append({'op': 'reinit', 'c': c, 'iv': rng.randrange(2)})
            if kind == 'block' and rng.random() < .8:
                ins.append({'op': 'pad', 'c': c, 'pad': rng.choice(('none', 'pkcs7', 'x923', 'iso7816', 'zeros'))})
            if kind in ('gcm', 'ccm') and rng.random() < .4:
                ins.append({'op': 'taglen', 'c': c, 'n': rng.choice((4, 6, 8, 10, 12, 13, 14, 15, 16, 17, 0))})
            parts = [rng.choice(self.BOUND) for _ in range(rng.randrange(0, 6))]
            if rng.random() < .1:
                parts.append(rng.choice((2048, 4096, 8192 + 5)))
            if kind == 'xts' and rng.random() < .8:
                parts = [p // 16 * 16 for p in parts] + [rng.choice([x for x in self.BOUND if x >= 16])]
            if kind == 'block' and rng.random() < .7:
                fix = -sum(parts) % 16
                parts.append(fix)
            if kind == 'ccm':
                ins.append({'op': 'msglen', 'c': c, 'n': sum(parts)})
            if kind in ('gcm', 'ccm', 'poly') and rng.random() < .7:
                ins.append({'op': 'aad', 'c': c, 'n': rng.choice(self.BOUND + [65279, 65280, 65281])})
            tail = lambda: rng.choice(('p1', 'p7', 'pfull', 'bad'))
            for n, p in enumerate(parts):
                ins.append({'op': 'upd', 'c': c, 'n': p, 'tail': tail()})
                if rng.random() < .1 and 'b' not in live:
                    ins.append({'op': 'dup'})
                    live.append('b')
                if 'b' in live and rng.random() < .2:
                    ins.append({'op': 'upd', 'c': rng.choice(live), 'n': rng.choice(self.BOUND[:12]), 'tail': tail()})
            if kind in ('gcm', 'ccm', 'poly'):
                r = rng.random()
                if r < .5:
                    ins.append({'op': 'settag', 'c': c, 'v': 'good'})
                elif r < .8:
                    ins.append({'op': 'settag', 'c': c, 'v': 'bad'})
                if rng.random() < .4:
                    ins.append({'op': 'gettag', 'c': c, 'n': rng.choice((16, 16, 16, 12, 4))})
            if rng.random() < .9:
                ins.append({'op': 'fin', 'c': c})
            if kind in ('gcm', 'ccm', 'poly') and rng.random() < .5:
                ins.append({'op': 'gettag', 'c': c, 'n': rng.choice((16, 16, 16, 12, 4))})
            if rng.random() < .3:
                ins.append({'op': 'upd', 'c': c, 'n': 5, 'tail': 'p1'})
        return (cfg, ins)

    def make(self):
        return Drv()


PARTS = [Part(k) for k in ('block', 'stream', 'gcm', 'ccm', 'poly', 'xts')]


def setup():
    H.init([__file__])


def main():
    return R.run('C11', PARTS, setup=setup,
                 assumptions=['OpenSSL libcrypto 3.0 (and Python modes built on its ECB for SM4) is the reference for the cipher functions'])

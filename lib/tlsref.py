"""An independent TLS 1.2/1.3/TLCP record layer and key schedule (RFC 5246, 7627, 7366, 8446, GB/T 38636), in Python."""
from . import oracle as O

# suite -> (kx, cipher, key length, mac/None, prf hash)
SUITE = {
    0xC02B: ('ecdhe', 'AES-128-GCM', 16, None, 'SHA256'), 0xC02C: ('ecdhe', 'AES-256-GCM', 32, None, 'SHA384'),
    0xC02F: ('ecdhe', 'AES-128-GCM', 16, None, 'SHA256'), 0xC030: ('ecdhe', 'AES-256-GCM', 32, None, 'SHA384'),
    0xCCA9: ('ecdhe', 'ChaCha20', 32, None, 'SHA256'), 0xCCA8: ('ecdhe', 'ChaCha20', 32, None, 'SHA256'),
    0xC0AC: ('ecdhe', 'AES-128-CCM', 16, None, 'SHA256'), 0xC0AD: ('ecdhe', 'AES-256-CCM', 32, None, 'SHA256'),
    0xC023: ('ecdhe', 'AES-128-CBC', 16, 'SHA256', 'SHA256'), 0xC024: ('ecdhe', 'AES-256-CBC', 32, 'SHA384', 'SHA384'),
    0xC009: ('ecdhe', 'AES-128-CBC', 16, 'SHA1', 'SHA256'), 0xC00A: ('ecdhe', 'AES-256-CBC', 32, 'SHA1', 'SHA256'),
    0xC027: ('ecdhe', 'AES-128-CBC', 16, 'SHA256', 'SHA256'), 0xC013: ('ecdhe', 'AES-128-CBC', 16, 'SHA1', 'SHA256'),
    0x009C: ('rsa', 'AES-128-GCM', 16, None, 'SHA256'), 0x009D: ('rsa', 'AES-256-GCM', 32, None, 'SHA384'),
    0x002F: ('rsa', 'AES-128-CBC', 16, 'SHA1', 'SHA256'), 0x003D: ('rsa', 'AES-256-CBC', 32, 'SHA256', 'SHA256'),
    0xC09C: ('rsa', 'AES-128-CCM', 16, None, 'SHA256'), 0x009E: ('dhe', 'AES-128-GCM', 16, None, 'SHA256'),
    0x1301: ('13', 'AES-128-GCM', 16, None, 'SHA256'), 0x1302: ('13', 'AES-256-GCM', 32, None, 'SHA384'),
    0x1303: ('13', 'ChaCha20', 32, None, 'SHA256'), 0x1304: ('13', 'AES-128-CCM', 16, None, 'SHA256'),
    0x00C6: ('13', 'SM4-GCM', 16, None, 'SM3'), 0x00C7: ('13', 'SM4-CCM', 16, None, 'SM3'),
    0xE013: ('ecc', 'SM4-CBC', 16, 'SM3', 'SM3'), 0xE011: ('sm2e', 'SM4-CBC', 16, 'SM3', 'SM3'),
    0xE053: ('ecc', 'SM4-GCM', 16, None, 'SM3'), 0xE051: ('sm2e', 'SM4-GCM', 16, None, 'SM3'),
}
HLEN = {'SHA1': 20, 'SHA256': 32, 'SHA384': 48, 'SM3': 32}


def prf(h, secret, label, seed, n):
    return O.p_hash(h, secret, label + seed, n)


def expand_label(h, secret, label, ctx, n, prefix=b'tls13 '):
    l = prefix + label
    return O.hkdf_expand(h, secret, n.to_bytes(2, 'big') + bytes([len(l)]) + l + bytes([len(ctx)]) + ctx, n)


def master(h, pms, ems_hash=None, cr=b'', sr=b''):
    if ems_hash is not None:
        return prf(h, pms, b'extended master secret', ems_hash, 48)
    return prf(h, pms, b'master secret', cr + sr, 48)


def _seal(cipher, key, nonce, aad, data):
    o, t = O.aead(cipher if cipher != 'ChaCha20' else 'CHACHA20', key, nonce, aad, data)
    return o + t


def _open(cipher, key, nonce, aad, data):
    if len(data) < 16:
        return None
    o, t = O.aead(cipher if cipher != 'ChaCha20' else 'CHACHA20', key, nonce, aad, data[:-16], False)
    return o if t == data[-16:] else None


class Keys12:
    """one direction of a TLS 1.2 / TLCP connection"""

    def __init__(self, suite, key, mac, iv, etm=False, ver=b'\x03\x03'):
        _, self.cipher, self.klen, self.mac, self.h = SUITE[suite]
        self.key, self.mkey, self.iv, self.etm, self.ver = key, mac, iv, etm, ver
        self.seq = 0
        self.rnd = 0

    def _hdr(self, typ, n, seq=None):
        return (self.seq if seq is None else seq).to_bytes(8, 'big') + bytes([typ]) + self.ver + n.to_bytes(2, 'big')

    def seal(self, typ, data, seq=None, explicit=None):
        s = self.seq if seq is None else seq
        if self.cipher == 'ChaCha20':
            nonce = O.xor(self.iv, b'\0\0\0\0' + s.to_bytes(8, 'big'))
            body = _seal(self.cipher, self.key, nonce, self._hdr(typ, len(data), s), data)
        elif self.mac is None:
            ex = explicit if explicit is not None else s.to_bytes(8, 'big')
            body = ex + _seal(self.cipher, self.key, self.iv + ex, self._hdr(typ, len(data), s), data)
        else:
            self.rnd += 1
            iv = O.digest('SHA256', self.key + self.rnd.to_bytes(4, 'big'))[:16]
            if self.etm:
                p = 16 - len(data) % 16
                c = iv + O.evp(self.cipher, self.key, iv, data + bytes([p - 1]) * p)
                body = c + O.hmac_(self.mac, self.mkey, self._hdr(typ, len(c), s) + c)
            else:
                m = O.hmac_(self.mac, self.mkey, self._hdr(typ, len(data), s) + data)
                x = data + m
                p = 16 - len(x) % 16
                body = iv + O.evp(self.cipher, self.key, iv, x + bytes([p - 1]) * p)
        if seq is None:
            self.seq += 1
        return bytes([typ]) + self.ver + len(body).to_bytes(2, 'big') + body

    def open(self, rec):
        """(type, plaintext) or None"""
        typ, b = rec[0], rec[5:]
        s = self.seq
        if self.cipher == 'ChaCha20':
            nonce = O.xor(self.iv, b'\0\0\0\0' + s.to_bytes(8, 'big'))
            p = _open(self.cipher, self.key, nonce, self._hdr(typ, len(b) - 16), b)
        elif self.mac is None:
            if len(b) < 24:
                return None
            p = _open(self.cipher, self.key, self.iv + b[:8], self._hdr(typ, len(b) - 24), b[8:])
        else:
            ml = HLEN[self.mac]
            if self.etm:
                c, m = b[:-ml], b[-ml:]
                if m != O.hmac_(self.mac, self.mkey, self._hdr(typ, len(c)) + c):
                    return None
                x = O.evp(self.cipher, self.key, c[:16], c[16:], False)
                if x[-x[-1] - 1:] != bytes([x[-1]]) * (x[-1] + 1):
                    return None
                p = x[:-x[-1] - 1]
            else:
                x = O.evp(self.cipher, self.key, b[:16], b[16:], False)
                if x[-x[-1] - 1:] != bytes([x[-1]]) * (x[-1] + 1):
                    return None
                x = x[:-x[-1] - 1]
                p, m = x[:-ml], x[-ml:]
                if m != O.hmac_(self.mac, self.mkey, self._hdr(typ, len(p)) + p):
                    return None
        if p is None:
            return None
        self.seq += 1
        return typ, p


def keys12(suite, ms, cr, sr, etm=False, ver=b'\x03\x03'):
    """(client write, server write)"""
    _, cipher, kl, mac, h = SUITE[suite]
    ml = HLEN[mac] if mac else 0
    il = 12 if cipher == 'ChaCha20' else 4 if mac is None else 0
    kb = prf(h, ms, b'key expansion', sr + cr, 2 * (ml + kl + il))
    o = [0]

    def take(n):
        o[0] += n
        return kb[o[0] - n:o[0]]
    cm, sm, ck, sk, ci, si = take(ml), take(ml), take(kl), take(kl), take(il), take(il)
    return Keys12(suite, ck, cm, ci, etm, ver), Keys12(suite, sk, sm, si, etm, ver)


class Keys13:
    def __init__(self, suite, secret):
        _, self.cipher, self.klen, _, self.h = SUITE[suite]
        self.suite = suite
        self.set(secret)

    def set(self, secret):
        self.secret = secret
        self.key = expand_label(self.h, secret, b'key', b'', self.klen)
        self.iv = expand_label(self.h, secret, b'iv', b'', 12)
        self.seq = 0

    def update(self):
        self.set(expand_label(self.h, self.secret, b'traffic upd', b'', HLEN[self.h]))

    def seal(self, typ, data, pad=0, inner=None):
        x = (data + bytes([typ]) + b'\0' * pad) if inner is None else inner
        hdr = b'\x17\x03\x03' + (len(x) + 16).to_bytes(2, 'big')
        nonce = O.xor(self.iv, b'\0\0\0\0' + self.seq.to_bytes(8, 'big'))
        self.seq += 1
        return hdr + _seal(self.cipher, self.key, nonce, hdr, x)

    def open(self, rec):
        nonce = O.xor(self.iv, b'\0\0\0\0' + self.seq.to_bytes(8, 'big'))
        x = _open(self.cipher, self.key, nonce, rec[:5], rec[5:])
        if x is None:
            return None
        self.seq += 1
        x = x.rstrip(b'\0')
        return (x[-1], x[:-1]) if x else (0, b'')


class Sched13:
    def __init__(self, suite, psk=None):
        self.suite = suite
        self.h = SUITE[suite][4]
        self.n = HLEN[self.h]
        self.early = O.hkdf_extract(self.h, b'\0' * self.n, psk if psk is not None else b'\0' * self.n)

    def derive(self, s, label, hash_):
        return expand_label(self.h, s, label, hash_, self.n)

    def empty(self):
        return O.digest(self.h, b'')

    def handshake(self, shared, th):
        d = self.derive(self.early, b'derived', self.empty())
        self.hs = O.hkdf_extract(self.h, d, shared if shared is not None else b'\0' * self.n)
        self.chs = self.derive(self.hs, b'c hs traffic', th)
        self.shs = self.derive(self.hs, b's hs traffic', th)
        d = self.derive(self.hs, b'derived', self.empty())
        self.ms = O.hkdf_extract(self.h, d, b'\0' * self.n)

    def application(self, th):
        self.cap = self.derive(self.ms, b'c ap traffic', th)
        self.sap = self.derive(self.ms, b's ap traffic', th)
        self.exp = self.derive(self.ms, b'exp master', th)

    def resumption(self, th):
        self.res = self.derive(self.ms, b'res master', th)

    def finished(self, base, th):
        return O.hmac_(self.h, expand_label(self.h, base, b'finished', b'', self.n), th)

    def binder(self, th, ext=False):
        b = self.derive(self.early, b'ext binder' if ext else b'res binder', self.empty())
        return self.finished(b, th)

    def exporter(self, label, ctx, n):
        s = self.derive(self.exp, label, self.empty())
        return expand_label(self.h, s, b'exporter', O.digest(self.h, ctx), n)


def records(b):
    """split into whole TLS records and a rest"""
    out = []
    while len(b) >= 5:
        n = 5 + int.from_bytes(b[3:5], 'big')
        if len(b) < n:
            break
        out.append(bytes(b[:n]))
        b = b[n:]
    return out, bytes(b)


def messages(b):
    out = []
    while len(b) >= 4:
        n = 4 + int.from_bytes(b[1:4], 'big')
        if len(b) < n:
            break
        out.append(bytes(b[:n]))
        b = b[n:]
    return out, bytes(b)


class Tap:
    """Passive independent decryption of what one endpoint writes; keys come from the endpoint's key log."""

    def __init__(self, kind, end, peer, client, etm=None):
        self.kind, self.end, self.peer, self.client = kind, end, peer, client
        self.buf = b''
        self.k = None            # current keys
        self.hs = b''            # handshake bytes not yet split into messages
        self.out = []            # (record type, plaintext | None)
        self.epoch = 0
        self.etm = etm

    def _hello(self, t):
        for e in (self.end, self.peer):
            for w, ty, m in e.msgs:
                if ty == 22 and m[:1] == bytes([t]):
                    return m
        return None

    def _negotiated(self):
        # the last ClientHello/ServerHello pair counts (renegotiation)
        ch = [m for w, ty, m in self.end.msgs if ty == 22 and m[:1] == b'\x01']
        sh = [m for w, ty, m in self.end.msgs if ty == 22 and m[:1] == b'\x02']
        return ch[-1], sh[-1]

    def _keys12(self):
        ch, sh = self._negotiated()
        ver = b'\x01\x01' if self.kind == 'tlcp' else b'\x03\x03'
        sid = sh[38]
        suite = int.from_bytes(sh[39 + sid:41 + sid], 'big')
        etm = False
        x = sh[44 + sid:]
        while len(x) >= 4:
            if x[:2] == b'\x00\x16':
                etm = True
            x = x[4 + int.from_bytes(x[2:4], 'big'):]
        ms = self.end.keylog['CLIENT_RANDOM'][-1]
        return keys12(suite, ms, ch[6:38], sh[6:38], etm, ver)[0 if self.client else 1]

    def _suite13(self):
        ch, sh = self._negotiated()
        sid = sh[38]
        return int.from_bytes(sh[39 + sid:41 + sid], 'big')

    def _secret(self, name):
        return self.end.keylog[name][-1]

    def feed(self, b):
        rs, self.buf = records(self.buf + bytes(b))
        new = []
        for r in rs:
            new.append(self._one(r))
        self.out += new
        return new

    def _one(self, r):
        typ = r[0]
        side = 'CLIENT' if self.client else 'SERVER'
        if self.kind == 'tls13':
            if typ == 20:
                return 20, r[5:]
            if typ != 23:
                self._hs(r[5:]) if typ == 22 else None
                return typ, r[5:]
            if self.k is None:
                self.k = Keys13(self._suite13(), self._secret(side + '_HANDSHAKE_TRAFFIC_SECRET'))
            x = self.k.open(r)
            if x is None:
                return 23, None
            if x[0] == 22:
                for m in self._hs(x[1]):
                    if m[0] == 20 and self.epoch == 0:
                        self.epoch = 1
                        self.k = Keys13(self.k.suite, self._secret(side + '_TRAFFIC_SECRET_0'))
                    elif m[0] == 24:
                        self.k.update()
            return x
        if typ == 20 and self.k is None:
            self.k = self._keys12()
            return 20, r[5:]
        if self.k is None:
            return typ, r[5:]
        x = self.k.open(r)
        if x is None:
            return typ, None
        if typ == 20:
            self.k = self._keys12()
        return x

    def _hs(self, b):
        ms, self.hs = messages(self.hs + b)
        return ms

"""A scripted TLS 1.2 / TLS 1.3 / TLCP peer, independent of the library: it can send any handshake message at any time,
well formed or not, and checks everything the library sends."""
import copy, random
from . import oracle as O, pk, tls as T, tlsref as X

NAMES = {0: 'HR', 1: 'CH', 2: 'SH', 4: 'NST', 8: 'EE', 11: 'CERT', 12: 'SKE', 13: 'CR', 14: 'SHD', 15: 'CV', 16: 'CKE', 20: 'FIN', 24: 'KU', 5: 'EOED'}
CODE = {v: k for k, v in NAMES.items()}
HRR_RANDOM = bytes.fromhex('CF21AD74E59A6111BE1D8C021E65B891C2A211167ABB8C5E079E09E2C8A8339C')
SM2ID = b'1234567812345678'


def v8(b):
    return bytes([len(b)]) + b


def v16(b):
    return len(b).to_bytes(2, 'big') + b


def v24(b):
    return len(b).to_bytes(3, 'big') + b


def u16(*xs):
    return b''.join(x.to_bytes(2, 'big') for x in xs)


class Bad(Exception):
    """the library sent something that is not what the protocol defines"""


class Rd:
    def __init__(self, b):
        self.b, self.o = b, 0

    def take(self, n):
        if self.o + n > len(self.b):
            raise Bad('short')
        self.o += n
        return self.b[self.o - n:self.o]

    def u8(self):
        return self.take(1)[0]

    def u16(self):
        return int.from_bytes(self.take(2), 'big')

    def v8(self):
        return self.take(self.u8())

    def v16(self):
        return self.take(self.u16())

    def v24(self):
        return self.take(int.from_bytes(self.take(3), 'big'))

    def end(self):
        if self.o != len(self.b):
            raise Bad('trailing bytes')

    def more(self):
        return self.o < len(self.b)


def exts(b):
    r, d = Rd(b), {}
    while r.more():
        t = r.u16()
        if t in d:
            raise Bad('duplicate extension')
        d[t] = r.v16()
    return d


def pext(l):
    return b''.join(u16(t) + v16(b) for t, b in l)


# signature scheme -> (alg of the credential, digest, pss)
SCHEME = {0x0403: ('ec', 'SHA256', False), 0x0503: ('ec', 'SHA384', False), 0x0603: ('ec', 'SHA512', False), 0x0804: ('rsa', 'SHA256', True), 0x0805: ('rsa', 'SHA384', True),
          0x0806: ('rsa', 'SHA512', True), 0x0401: ('rsa', 'SHA256', False), 0x0501: ('rsa', 'SHA384', False), 0x0601: ('rsa', 'SHA512', False), 0x0807: ('ed', None, False), 0x0201: ('rsa', 'SHA1', False),
          0x0203: ('ec', 'SHA1', False), 0x0707: ('sm2', 'SM3', False), 0x0708: ('sm2', 'SM3', False)}
DEF_SCHEME = {'ec': 0x0403, 'rsa': 0x0804, 'ed': 0x0807, 'sm2': 0x0707}
X25519, SECP256, SECP384 = 29, 23, 24
SIGALGS = [0x0403, 0x0804, 0x0503, 0x0807, 0x0805, 0x0806, 0x0401, 0x0501, 0x0601]

_keys = {}


def key(name):
    if name not in _keys:
        _keys[name] = pk.priv(T.data(name + '.key'))
    return _keys[name]


def do_sign(name, scheme, data):
    alg, md, pss = SCHEME[scheme]
    return pk.sign(key(name), data, md, pss, SM2ID if alg == 'sm2' else None)


def do_verify(cert, scheme, sig, data):
    if scheme not in SCHEME:
        return False
    alg, md, pss = SCHEME[scheme]
    k = pk.cert_pub(cert)
    try:
        return pk.verify(k, sig, data, md, pss, SM2ID if alg == 'sm2' else None)
    finally:
        pk.pkey_free(k)


class Share:
    """an ephemeral key of a named group"""

    def __init__(self, group, rnd):
        self.group = group
        if group == X25519:
            self.k = rnd.randbytes(32)
            self.pub = pk.x25519_pub(self.k)
        else:
            self.c = {SECP256: pk.P256, SECP384: pk.P384, 41: pk.SM2}[group]
            self.k = rnd.randrange(1, self.c.n)
            self.pub = self.c.enc(self.c.mul(self.k, self.c.g))

    def shared(self, peer):
        if self.group == X25519:
            return pk.x25519(self.k, peer) if len(peer) == 32 else None
        P = self.c.dec(peer)
        if P is None:
            return None
        return self.c.mul(self.k, P)[0].to_bytes(self.c.len, 'big')


ALT13 = {0x1301: 0x1303, 0x1303: 0x1304, 0x1304: 0x1301, 0x1302: 0x1303}


class Peer:
    """opt: kind, suite, alg (server credentials), auth, group, ticket, hrr, ems, etm, cert (client credential name)"""

    def __init__(self, server, opt, seed=0, resume=None):
        self.server = server
        self.o = dict(group=X25519, ems=True, etm=False, ticket=False, auth='none', scheme=None, cauth='ec_cli', scert=None, hrr=False, sid=None)
        self.o.update(opt)
        self.rnd = random.Random('%s' % seed)
        self.kind = self.o['kind']
        self.v13 = self.kind == 'tls13'
        self.suite = self.o['suite']
        self.kx = X.SUITE[self.suite][0]
        self.h = X.SUITE[self.suite][4]
        self.ver = b'\x01\x01' if self.kind == 'tlcp' else b'\x03\x03'
        self.frame, self.heldb = ['whole'], []
        self.tr = []             # transcript messages
        self.ri, self.scsv = b'', False      # renegotiation_info of the hello, and the suite that stands for it
        self.fins = {}           # verify_data of the latest handshake
        self.wk = self.rk = None
        self.inb = self.hsb = b''
        self.cr = self.sr = b'\0' * 32
        self.ms = b'\0' * 48
        self.pms = None
        self.sid = b''
        self.alert = None
        self.names = []
        self.err = []
        self.appdata = b''
        self.peer_certs = []
        self.peer_share = None
        self.share = None
        self.sch = None
        self.creq = None          # CertificateRequest context seen / sent
        self.resume = resume      # session to resume: dict
        self.resumed = False
        self.session = {}
        self.ch_ext = {}
        self.sh_ext = {}
        self.my_groups, self.my_sigs, self.sent_ext = [X25519, SECP256], list(SIGALGS), set()
        self.ch_sid = self.ch_sid_sent = b''
        self.ch_suites, self.ch_ver, self.ch_comp = [], self.o['kind'] == 'tlcp' and b'\x01\x01' or b'\x03\x03', b'\0'
        self.sid13 = self.rnd.randbytes(32)
        self.ccs_seen = 0
        self.my_ccs = False
        self.fin_seen = False
        self.ch1 = None
        self.tickets = []
        self.log = []
        self.post = False
        self.ku_in = 0
        self.cookie = b'cookie-' + self.rnd.randbytes(8)
        self.cred = self.o['scert'] or self.o['alg'] + '_srv'
        if not server:
            self.cred = self.o['cauth']
        self.scheme = self.o['scheme'] or DEF_SCHEME[self.cred.split('_')[0] if self.cred.split('_')[0] in DEF_SCHEME else 'ec']

    # ------------------------------------------------------------------ basics
    def hash(self, upto=None):
        return O.digest(self.h, b''.join(self.tr if upto is None else self.tr[:upto]))

    def msg(self, name, body):
        m = bytes([CODE[name]]) + v24(body)
        return m

    def record(self, typ, data, plain=False):
        """protect as one or more records under the current keys"""
        out = b''
        if typ == 22 and not plain:
            if self.frame[0] == 'hold':
                self.heldb.append(data)
                return b''
            data = b''.join(self.heldb) + data
            self.heldb.clear()
            if self.frame[0] == 'frag' and len(data) > 1:
                for _ in range(self.rnd.choice([1, 1, 2, 3])):
                    k = self.rnd.choice([1, 2, 3, 4, 5, len(data) // 2, len(data) - 1])
                    if 0 < k < len(data):
                        out += self.record1(typ, data[:k])
                        data = data[k:]
        return out + self.record1(typ, data, plain)

    def record1(self, typ, data, plain=False):
        out = b''
        while True:
            f, data = data[:16384], data[16384:]
            if plain or self.wk is None:
                v = self.ver
                out += bytes([typ]) + v + v16(f)
            else:
                out += self.wk.seal(typ, f)
            if not data:
                return out

    # ------------------------------------------------------------------ what the library sends
    def feed(self, data):
        """process the library's bytes: list of message names, '?' suffix where something is wrong"""
        self.names = []
        rs, self.inb = X.records(self.inb + bytes(data))
        for r in rs:
            try:
                self._rec(r)
            except Bad as ex:
                self.names.append('?' + str(ex))
        return self.names

    def _rec(self, r):
        typ, body = r[0], r[5:]
        if r[1] != self.ver[0] and r[1] != 3 and typ != 21:
            raise Bad('record version')
        if self.rk is not None and not (self.v13 and (typ == 20 or typ == 21 and len(body) == 2)):
            x = self.rk.open(r)
            if x is None:
                raise Bad('undecryptable record')
            typ, body = x
        if typ == 22:
            if not body:
                raise Bad('empty handshake record')
            ms, self.hsb = X.messages(self.hsb + body)
            for m in ms:
                self._msg(m)
            return
        if self.hsb:
            raise Bad('interleaved record')
        if typ == 20:
            if body != b'\x01':
                raise Bad('CCS body')
            self.names.append('CCS')
            self.ccs_seen += 1
            if not self.v13:
                self.rk = self._read_keys12()
        elif typ == 21:
            if len(body) != 2:
                raise Bad('alert length')
            self.alert = (body[0], body[1])
            self.names.append('A%d:%d' % self.alert)
        elif typ == 23:
            self.appdata += body
            self.names.append('DATA')
        else:
            raise Bad('record type')

    def _read_keys12(self):
        a, b = X.keys12(self.suite, self.ms, self.cr, self.sr, self.o['etm'] and X.SUITE[self.suite][3] is not None and 0x16 in self.sh_ext, self.ver)
        return a if self.server else b

    def _write_keys12(self):
        a, b = X.keys12(self.suite, self.ms, self.cr, self.sr, self.o['etm'] and X.SUITE[self.suite][3] is not None and 0x16 in self.sh_ext, self.ver)
        return b if self.server else a

    def _msg(self, m):
        t, b = m[0], m[4:]
        n = NAMES.get(t, 'T%d' % t)
        if n == 'SH' and b[2:34] == HRR_RANDOM:
            n = 'HRR'
        self.names.append(n)
        self.log.append((n, m))
        before = len(self.tr)
        f = getattr(self, ('r13_' if self.v13 else 'r12_') + n.lower(), None)
        if f is None:
            self.names[-1] += '?'
            self.tr.append(m)
            return
        if n == 'HRR':
            f(b, m)
            return
        if n not in ('HR',) and not (self.v13 and n in ('NST', 'KU')):
            self.tr.append(m)
        try:
            f(b, m)
        except Bad as ex:
            self.names[-1] += '?' + str(ex)

    def renew(self):
        """another handshake on the connection"""
        self.tr, self.first_cr = [], None
        self.my_ccs = self.fin_seen = False
        self.ch_ext, self.sh_ext, self.peer_certs = {}, {}, []

    # ---- hello messages
    def _parse_ch(self, b):
        r = Rd(b)
        self.ch_ver = r.take(2)
        self.cr = r.take(32)
        self.ch_sid = r.v8()
        ss = r.v16()
        self.ch_suites = [int.from_bytes(ss[i:i + 2], 'big') for i in range(0, len(ss), 2)]
        self.ch_comp = r.v8()
        self.ch_ext = exts(r.v16()) if r.more() else {}
        r.end()
        if 0 not in self.ch_comp:
            raise Bad('null compression not offered')
        if self.suite not in self.ch_suites:
            raise Bad('suite not offered')

    def r12_ch(self, b, m):
        self._parse_ch(b)
        if self.resume is not None:
            tk = self.ch_ext.get(35, b'')
            self.offered = (tk and tk == self.resume.get('ticket')) or (self.ch_sid and self.ch_sid == self.resume.get('sid'))

    def r13_ch(self, b, m):
        self._parse_ch(b)
        if 43 not in self.ch_ext or b'\x03\x04' not in [self.ch_ext[43][i:i + 2] for i in range(1, len(self.ch_ext[43]), 2)]:
            raise Bad('supported_versions')
        ks = Rd(Rd(self.ch_ext[51]).v16())
        self.ch_shares = {}
        while ks.more():
            g = ks.u16()
            self.ch_shares[g] = ks.v16()
        if self.ch1 is not None:
            # second ClientHello
            if list(self.ch_shares) != [self.o['group']]:
                raise Bad('key_share after retry')
            if self.o.get('usecookie') and self.ch_ext.get(44) != v16(self.cookie):
                raise Bad('cookie')
        if self.resume is not None and 41 in self.ch_ext:
            r = Rd(self.ch_ext[41])
            ids = r.v16()
            binders = r.v16()
            r.end()
            if list(self.ch_ext)[-1] != 41:
                raise Bad('pre_shared_key is not last')
            i = Rd(ids)
            ident = i.v16()
            i.take(4)
            if ident == self.resume['ticket']:
                sch = X.Sched13(self.suite, self.resume['psk'])
                trunc = m[:len(m) - len(binders) - 2]
                # truncated to before the binders list
                th = O.digest(self.h, b''.join(self.tr[:-1]) + trunc)
                if Rd(binders).v8() != sch.binder(th):
                    raise Bad('binder')
                self.offered = True

    def _parse_sh(self, b):
        r = Rd(b)
        ver = r.take(2)
        sr = r.take(32)
        sid = r.v8()
        suite = r.u16()
        comp = r.u8()
        x = exts(r.v16()) if r.more() else {}
        r.end()
        if suite != self.suite or comp or ver != self.ver:
            raise Bad('parameters')
        return sr, sid, x

    def r12_sh(self, b, m):
        self.sr, self.sid, self.sh_ext = self._parse_sh(b)
        if set(self.sh_ext) - self.sent_ext - {0xff01}:
            raise Bad('unsolicited extension')
        if (0x17 in self.sh_ext) != (0x17 in self.sent_ext and self.o['ems']):
            raise Bad('extended_master_secret')
        self.resumed = bool(self.resume) and ((self.sid != b'' and self.sid == self.ch_sid_sent))
        if self.resumed:
            self.ms = self.resume['ms']

    def _start13(self, shared):
        psk = self.resume['psk'] if self.resumed else None
        self.sch = X.Sched13(self.suite, psk)
        self.sch.handshake(shared, self.hash())
        self.hs_wk = X.Keys13(self.suite, self.sch.shs if self.server else self.sch.chs)
        self.rk = X.Keys13(self.suite, self.sch.chs if self.server else self.sch.shs)
        if self.server:
            self.wk = self.hs_wk

    def r13_sh(self, b, m):
        self.sr, sid, x = self._parse_sh(b)
        if sid != self.ch_sid_sent:
            raise Bad('session id echo')
        if x.get(43) != b'\x03\x04':
            raise Bad('version')
        self.sh_ext = x
        if set(x) - {43, 51, 41}:
            raise Bad('extension in ServerHello')
        self.resumed = 41 in x
        if self.resumed and (not self.resume or x[41] != b'\0\0'):
            raise Bad('psk index')
        if 51 in x:
            r = Rd(x[51])
            g, k = r.u16(), r.v16()
            if g != self.share.group:
                raise Bad('group')
            z = self.share.shared(k)
            if z is None:
                raise Bad('share')
        else:
            z = None
            if not self.resumed:
                raise Bad('no share')
        self._start13(z)
        self.wk = self.hs_wk

    def r13_hrr(self, b, m):
        sr, sid, x = self._parse_sh(b)
        if self.ch1 is not None:
            self.names[-1] += '?second'
        h = O.digest(self.h, b''.join(self.tr))
        self.ch1 = self.tr[:]
        self.tr = [b'\xfe' + v24(h), m]
        self.hrr_ext = x
        g = int.from_bytes(x.get(51, b'\0\0'), 'big')
        if sid != self.ch_sid_sent or set(x) - {43, 51, 44} or x.get(43) != b'\x03\x04':
            self.names[-1] += '?ext'
        if 51 in x:
            if g == self.share.group or g not in self.my_groups:
                self.names[-1] += '?group'
            else:
                self.o['group'] = g

    def r13_ee(self, b, m):
        r = Rd(b)
        x = exts(r.v16())
        r.end()
        if set(x) & {51, 43, 41, 13, 35} or set(x) - self.sent_ext:
            raise Bad('extension')
        self.ee = x

    # ---- certificates
    def r12_cert(self, b, m):
        r = Rd(b)
        l = Rd(r.v24())
        r.end()
        self.peer_certs = []
        while l.more():
            self.peer_certs.append(l.v24())
        self._chk_cert()

    def r13_cert(self, b, m):
        r = Rd(b)
        c = r.v8()
        l = Rd(r.v24())
        r.end()
        if self.server and c != (self.creq or b''):
            raise Bad('context')
        if not self.server and c:
            raise Bad('context')
        self.peer_certs = []
        while l.more():
            self.peer_certs.append(l.v24())
            exts(l.v16())
        self._chk_cert()

    def _chk_cert(self):
        want = self.o.get('sut_cert')
        if not self.peer_certs:
            if not self.server or want:
                raise Bad('empty')
            self.names[-1] += '0'
        elif want and self.peer_certs[0] != T.data(want + '.crt'):
            raise Bad('certificate')

    def r12_ske(self, b, m):
        r = Rd(b)
        if self.kx == 'ecc':
            sig = r.v16()
            r.end()
            if not do_verify(self.peer_certs[0], 0x0707, sig, self.cr + self.sr + v24(self.peer_certs[1])):
                raise Bad('signature')
            return
        if r.u8() != 3:
            raise Bad('curve type')
        g = r.u16()
        self.peer_share = r.v8()
        n = r.o
        self.o['group'] = g
        scheme = r.u16()
        sig = r.v16()
        r.end()
        if g not in self.my_groups or scheme not in self.my_sigs:
            raise Bad('not offered')
        if not do_verify(self.peer_certs[0], scheme, sig, self.cr + self.sr + b[:n]):
            raise Bad('signature')

    def r12_cr(self, b, m):
        r = Rd(b)
        self.cr_types = r.v8()
        if self.kind != 'tlcp':
            s = r.v16()
            self.cr_sigs = [int.from_bytes(s[i:i + 2], 'big') for i in range(0, len(s), 2)]
        r.v16()
        r.end()
        self.creq = b''

    def r13_cr(self, b, m):
        r = Rd(b)
        self.creq = r.v8()
        x = exts(r.v16())
        r.end()
        if 13 not in x:
            raise Bad('signature_algorithms')

    def r12_shd(self, b, m):
        if b:
            raise Bad('length')

    def r12_cke(self, b, m):
        r = Rd(b)
        if self.kx in ('ecdhe',):
            p = r.v8()
            r.end()
            self.pms = self.share.shared(p)
            if self.pms is None:
                raise Bad('share')
        elif self.kx == 'rsa':
            c = r.v16()
            r.end()
            self.pms = pk.rsa_pkcs1_dec(key(self.cred), c)
            if self.pms is None or len(self.pms) != 48 or self.pms[:2] != self.ch_ver:
                raise Bad('premaster')
        elif self.kx == 'ecc':
            c = r.v16()
            r.end()
            self.pms = sm2_dec(key('sm2_srv_enc'), c)
            if self.pms is None or len(self.pms) != 48 or self.pms[:2] != b'\x01\x01':
                raise Bad('premaster')
        self._master()

    def _master(self):
        pms = self.pms if self.pms is not None else b''
        ems = 0x17 in self.sh_ext
        self.ms = X.master(self.h, pms, self.hash() if ems else None, self.cr, self.sr)

    def r12_cv(self, b, m):
        r = Rd(b)
        scheme = 0x0707 if self.kind == 'tlcp' else r.u16()
        sig = r.v16()
        r.end()
        d = b''.join(self.tr[:-1])
        if self.kind == 'tlcp':
            d = O.digest('SM3', d)
        if not do_verify(self.peer_certs[0], scheme, sig, d):
            raise Bad('signature')

    def r13_cv(self, b, m):
        r = Rd(b)
        scheme = r.u16()
        sig = r.v16()
        r.end()
        d = b' ' * 64 + (b'TLS 1.3, client CertificateVerify' if self.server else b'TLS 1.3, server CertificateVerify') + b'\0' + self.hash(len(self.tr) - 1)
        if not do_verify(self.peer_certs[0], scheme, sig, d):
            raise Bad('signature')

    def r12_nst(self, b, m):
        r = Rd(b)
        r.take(4)
        self.session['ticket'] = r.v16()
        r.end()

    def r12_fin(self, b, m):
        label = b'client finished' if self.server else b'server finished'
        if b != X.prf(self.h, self.ms, label, self.hash(len(self.tr) - 1), 12):
            raise Bad('verify_data')
        if self.rk is None:
            raise Bad('not encrypted')
        self.fin_seen = True
        self.fins['c' if self.server else 's'] = b
        self.session.update(ms=self.ms, sid=self.sid, suite=self.suite)

    def r13_fin(self, b, m):
        base = self.sch.chs if self.server else self.sch.shs
        if b != self.sch.finished(base, self.hash(len(self.tr) - 1)):
            raise Bad('verify_data')
        self.fin_seen = True
        if self.server:
            self.sch.resumption(self.hash())
            self.rk = X.Keys13(self.suite, self.sch.cap)
        else:
            self.sch.application(self.hash())
            self.rk = X.Keys13(self.suite, self.sch.sap)

    def r13_nst(self, b, m):
        r = Rd(b)
        life = int.from_bytes(r.take(4), 'big')
        add = r.take(4)
        nonce = r.v8()
        t = r.v16()
        exts(r.v16())
        r.end()
        if life > 604800:
            raise Bad('lifetime')
        psk = X.expand_label(self.h, self.sch.res, b'resumption', nonce, self.sch.n)
        self.tickets.append(dict(ticket=t, psk=psk, add=add, suite=self.suite, life=life))

    def r13_ku(self, b, m):
        if len(b) != 1 or b[0] > 1:
            raise Bad('key update')
        self.rk.update()
        self.ku_in += 1
        self.names[-1] += str(b[0])

    def r12_hr(self, b, m):
        pass

    def r12_unk(self, b, m):
        raise Bad('unknown')

    # ------------------------------------------------------------------ what the peer sends
    def build(self, name, v='ok', aside=False):
        """bytes for the wire (records); updates the transcript and the keys as a peer that means it would"""
        if aside:
            # a message out of order: it does not change what this peer knows
            q = copy.copy(self)
            q.__dict__ = dict(self.__dict__)
            return q.build(name, v)
        f = getattr(self, ('s13_' if self.v13 else 's12_') + name.lower(), None)
        if f is None:
            f = getattr(self, 's_' + name.lower())
        return f(v)

    def hs(self, name, body, v='ok', add=True, plain=False):
        """one handshake message, with the generic deformations applied"""
        m = bytearray(bytes([CODE[name] if isinstance(name, str) else name]) + v24(body))
        if v == 'short':           # last byte missing, length consistent
            m = m[:-1]
            m[1:4] = (len(m) - 4).to_bytes(3, 'big')
        elif v == 'long':          # a trailing byte
            m += b'\0'
            m[1:4] = (len(m) - 4).to_bytes(3, 'big')
        elif v == 'empty':
            m = bytearray(bytes([m[0]]) + b'\0\0\0')
        elif v == 'huge':          # announces far more than allowed
            m[1:4] = b'\xff\xff\xff'
        m = bytes(m)
        if add:
            self.tr.append(m)
        return self.record(22, m, plain or v == 'plain')

    def s_ccs(self, v):
        if v == 'body2':
            b = b'\x02'
        elif v == 'len2':
            b = b'\x01\x01'
        elif v == 'empty':
            b = b''
        else:
            b = b'\x01'
        if self.v13:
            return b'\x14\x03\x03' + v16(b)
        r = self.record(20, b)
        if v == 'ok':
            self.wk = self._write_keys12()
            self.my_ccs = True
        return r

    def s_data(self, v):
        if v == 'plain':
            return self.record(23, b'hello', True)
        return self.record(23, b'hello')

    def s_alert(self, v):
        return self.record(21, {'close': b'\x01\x00', 'warn': b'\x01\x5a' if v == 'warn' else b'', 'fatal': b'\x02\x28', 'short': b'\x01', 'long': b'\x01\x00\x00', 'level': b'\x03\x00', 'empty': b''}[v])

    def s_rec(self, v):
        """odd records"""
        if v == 'type':
            return self.record(99 if self.wk is None or not self.v13 else 99, b'x')
        if v == 'emptyhs':
            return self.record(22, b'')
        if v == 'unk':
            return self.hs(99, b'abcd')
        if v == 'huge':
            return b'\x16' + self.ver + u16(16384 + 2049) + b'\0' * (16384 + 2049)
        if v == 'garbage':
            return b'GET / HTTP/1.0\r\n\r\n' + b'\0' * 32
        raise ValueError(v)

    def s_hr(self, v):
        return self.hs('HR', b'', v, add=False)

    def s_shd(self, v):
        return self.hs('SHD', b'', v)

    # ---- ClientHello
    def groups_ext(self):
        return v16(u16(*self.my_groups))

    def s12_ch(self, v):
        self.my_groups = [self.o['group']] + [g for g in (X25519, SECP256) if g != self.o['group']]
        self.my_sigs = list(SIGALGS)
        if not getattr(self, 'first_cr', None):
            self.first_cr = self.rnd.randbytes(32)
        self.cr = self.first_cr
        e = []
        if self.kind != 'tlcp':
            e = [(10, self.groups_ext()), (11, b'\x01\x00'), (13, v16(u16(*self.my_sigs)))]
            if self.o['ems']:
                e.append((0x17, b''))
            if self.o['etm']:
                e.append((0x16, b''))
            if self.o['ticket']:
                e.append((35, self.resume.get('ticket', b'') if self.resume else b''))
            if self.ri is not None:
                e.append((0xff01, v8(self.ri)))
        sid = self.resume.get('sid', b'') if self.resume else b''
        if self.resume and self.resume.get('ticket') and not sid:
            sid = self.rnd.randbytes(32)
        ver, suites, comp = self.ver, [self.suite] + [0xff] * self.scsv, b'\0'
        if v == 'oldver':
            ver = b'\x03\x00' if self.kind != 'tlcp' else b'\x00\x01'
        elif v == 'hiver':
            ver = b'\x03\x09' if self.kind != 'tlcp' else b'\x01\x09'
        elif v == 'nosuite':
            suites = [0x0001, 0x1399]
        elif v == 'nocomp':
            comp = b'\x01'
        elif v == 'emptycomp':
            comp = b''
        elif v == 'nosuites':
            suites = []
        elif v == 'dupext':
            e.append(e[0])
        elif v == 'sid33':
            sid = self.rnd.randbytes(33)
        elif v == 'reneg':
            e = [x for x in e if x[0] != 0xff01] + [(0xff01, v8(b'\x11' * 12))]
        elif v == 'badgroups':
            e = [(t, u16(3) + b'\0\x1d\0') if t == 10 else (t, b) for t, b in e]
        elif v == 'nogroups':
            e = [(t, v16(u16(0x7777))) if t == 10 else (t, b) for t, b in e]
        elif v == 'nosig':
            e = [(t, v16(u16(0x7777))) if t == 13 else (t, b) for t, b in e]
        elif v == 'emptysig':
            e = [(t, v16(b'')) if t == 13 else (t, b) for t, b in e]
        elif v == 'emsbody':
            e = [x for x in e if x[0] != 0x17] + [(0x17, b'\0')]
        elif v == 'points':
            e = [(t, b'\x01\x01') if t == 11 else (t, b) for t, b in e]
        elif v == 'fallback':
            suites = suites + [0x5600]
        elif v == 'unkext':
            e.append((0x7a7a, b'xyz'))
        self.ch_sid_sent = sid
        self.sent_ext = {t for t, _ in e}
        eb = pext(e)
        b = ver + self.cr + v8(sid) + v16(u16(*suites)) + v8(comp) + (v16(eb) if e else b'')
        if v == 'extlen':
            b = ver + self.cr + v8(sid) + v16(u16(*suites)) + v8(comp) + (len(eb) + 1).to_bytes(2, 'big') + eb
        if v == 'oddsuites':
            b = ver + self.cr + v8(sid) + v16(u16(*suites) + b'\0') + v8(comp) + v16(eb)
        self.ch_ver = ver
        return self.hs('CH', b, v)

    def s13_ch(self, v):
        second = self.ch1 is not None
        if not second:
            self.cr = self.rnd.randbytes(32)
            self.sid13 = self.rnd.randbytes(32)
        g = self.o['group']
        if not second:
            self.my_groups = [X25519, SECP256, SECP384]
            if g in self.my_groups:
                self.my_groups = [g] + [x for x in self.my_groups if x != g]
            self.my_sigs = list(SIGALGS)
            if self.o['hrr']:
                self.my_groups = [SECP384, X25519, SECP256]
                g = SECP384
        if self.share is None or self.share.group != g:
            self.share = Share(g, self.rnd)
        pub = self.share.pub
        groups = list(self.my_groups)
        vers = [0x0304]
        suites = [self.suite]
        comp = b'\0'
        leg = b'\x03\x03'
        if v == 'badshare':
            pub = b'\x04' + b'\x01' * (len(pub) - 1) if g != X25519 else b'\0' * 32
        elif v == 'shortshare':
            pub = pub[:-1]
        elif v == 'emptyshare':
            pub = b''
        if not second:
            self.first_share = (g, pub)
        ks = v16(u16(g) + v16(pub))
        if v == 'noshares':
            ks = v16(b'')
        if v == 'sharetwice':
            ks = v16((u16(g) + v16(pub)) * 2)
        if v == 'shareunoffered':
            groups = [x for x in groups if x != g]
        if v == 'nover':
            vers = [0x0305]
        if v == 'nosuite':
            suites = [0x13aa]
        if v == 'comp':
            comp = b'\x01\x00'
        if v == 'comp1':
            comp = b'\x01'
        if v == 'legacy':
            leg = b'\x03\x00'
        sigs = self.my_sigs
        if v == 'nosig':
            sigs = [0x7777]
        if v == 'nogroup':
            groups = [0x7777]
            ks = v16(u16(0x7777) + v16(b'x'))
        sid = self.sid13
        if v == 'sid33':
            sid = sid + b'\0'
        self.ch_sid_sent = sid
        if second and v == 'newsuite':
            suites = [ALT13[self.suite]]
        if second and v == 'samegroup':
            ks = v16(u16(self.first_share[0]) + v16(self.first_share[1]))
        if second and v == 'newrandom':
            self.cr = self.rnd.randbytes(32)
        e = [(10, v16(u16(*groups))), (13, v16(u16(*sigs))), (43, v8(u16(*vers))), (51, ks)]
        if second and 44 in getattr(self, 'hrr_ext', {}):
            ck = self.hrr_ext[44]
            if v == 'badcookie':
                ck = ck[:-1] + bytes([ck[-1] ^ 1])
            if v != 'nocookie':
                e.append((44, ck))
        if v == 'dupext':
            e.append(e[0])
        if v == 'nokeyshareext':
            e = [x for x in e if x[0] != 51]
        if v == 'nogroupsext':
            e = [x for x in e if x[0] != 10]
        if v == 'nosigext':
            e = [x for x in e if x[0] != 13]
        if v == 'unkext':
            e.append((0x7a7a, b'xyz'))
        if v == 'emptysig':
            e = [(t, v16(b'')) if t == 13 else (t, b) for t, b in e]
        psk = self.resume
        binder = None
        if psk or v in ('pskfirst', 'nomodes'):
            psk = psk or dict(ticket=b'unknown ticket', psk=b'\1' * X.HLEN[self.h], add=b'\0' * 4)
            if v != 'nomodes':
                e.append((45, b'\x01\x01'))
            ident = v16(v16(psk['ticket']) + (psk.get('age', 0) + int.from_bytes(psk['add'], 'big') & 0xffffffff).to_bytes(4, 'big'))
            blen = X.HLEN[self.h]
            px = (41, ident + v16(v8(b'\0' * blen)))
            if v == 'pskfirst':
                e.insert(0, px)
            else:
                e.append(px)
                binder = blen
        self.sent_ext = {t for t, _ in e}
        b = leg + self.cr + v8(sid) + v16(u16(*suites)) + v8(comp) + v16(pext(e))
        if binder and v != 'nobinderfix':
            m = self.msg('CH', b)
            tr = m[:len(m) - binder - 3]
            sch = X.Sched13(self.suite, psk['psk'])
            bd = sch.binder(O.digest(self.h, b''.join(self.tr) + tr))
            if v == 'badbinder':
                bd = bytes([bd[0] ^ 1]) + bd[1:]
            b = b[:-binder] + bd
        return self.hs('CH', b, v, plain=True if self.wk is None else False)

    # ---- ServerHello
    def s12_sh(self, v):
        self.sr = self.rnd.randbytes(32)
        e = []
        off = self.ch_ext
        if (0xff01 in off or 0x00ff in getattr(self, 'ch_suites', [])) and self.ri is not None:
            e.append((0xff01, v8(self.ri)))
        if 0x17 in off and self.o['ems']:
            e.append((0x17, b''))
        if 0x16 in off and self.o['etm'] and X.SUITE[self.suite][3]:
            e.append((0x16, b''))
        if self.o['ticket'] and 35 in off:
            e.append((35, b''))
        if 11 in off and self.kx == 'ecdhe':
            e.append((11, b'\x01\x00'))
        sid = self.rnd.randbytes(32)
        self.resumed = False
        if self.resume is not None and getattr(self, 'offered', False):
            sid = self.ch_sid
            self.resumed = True
            self.ms = self.resume['ms']
        self.sid = sid
        ver, suite, comp = self.ver, self.suite, 0
        if v == 'oldver':
            ver = b'\x03\x01' if self.kind != 'tlcp' else b'\x00\x01'
        elif v == 'hiver':
            ver = b'\x03\x07' if self.kind != 'tlcp' else b'\x01\x07'
        elif v == 'suite':
            suite = 0xC0FF
        elif v == 'suiteunoffered':
            suite = 0xC030 if self.suite != 0xC030 else 0xC02F
        elif v == 'comp':
            comp = 1
        elif v == 'sid33':
            sid = sid + b'\0'
        elif v == 'unsolicited':
            e.append((0x7a7a, b''))
        elif v == 'unsolalpn':
            e.append((16, v16(v8(b'h2'))))
        elif v == 'dupext':
            e = e + [e[0]] if e else [(0xff01, b'\0')] * 2
        elif v == 'reneg':
            e = [x for x in e if x[0] != 0xff01] + [(0xff01, v8(b'\x11' * 24))]
        elif v == 'down12':
            self.sr = self.sr[:24] + b'DOWNGRD\x01'
        elif v == 'down11':
            self.sr = self.sr[:24] + b'DOWNGRD\x00'
        elif v == 'tls13suite':
            suite = 0x1301
        self.sh_ext = dict(e)
        eb = pext(e)
        b = ver + self.sr + v8(sid) + u16(suite) + bytes([comp]) + (v16(eb) if e else b'')
        if v == 'extlen':
            b = ver + self.sr + v8(sid) + u16(suite) + bytes([comp]) + (len(eb) + 1).to_bytes(2, 'big') + eb
        return self.hs('SH', b, v)

    def s13_sh(self, v):
        self.sr = self.rnd.randbytes(32)
        g = self.o['group']
        shares = getattr(self, 'ch_shares', {})
        if g not in shares and shares and not (self.o['hrr'] and self.ch1 is None):
            g = list(shares)[0]
        if self.share is None or self.share.group != g:
            self.share = Share(g, self.rnd)
        pub = self.share.pub
        ver, suite, comp, sid = b'\x03\x03', self.suite, 0, getattr(self, 'ch_sid', b'')
        xg = g
        if v == 'badshare':
            pub = b'\0' * len(pub)
        elif v == 'shortshare':
            pub = pub[:-1]
        elif v == 'groupunoffered':
            xg = 30
            pub = b'\x05' * 56
        elif v == 'suite':
            suite = 0x13aa
        elif v == 'suite12':
            suite = 0xC02B
        elif v == 'newsuite':         # another suite the client offered
            suite = ALT13[suite]
        elif v == 'firstgroup':       # a group other than the one of the HelloRetryRequest
            xg = self.first_group
        elif v == 'comp':
            comp = 1
        elif v == 'sid':
            sid = bytes([sid[0] ^ 1]) + sid[1:] if sid else b'\1'
        elif v == 'ver':
            ver = b'\x03\x02'
        e = [(43, b'\x03\x04'), (51, u16(xg) + v16(pub))]
        self.resumed = False
        if self.resume is not None and getattr(self, 'offered', False):
            e.append((41, b'\0\0'))
            self.resumed = True
        if v == 'selver':
            e[0] = (43, b'\x03\x05')
        elif v == 'selver12':
            e[0] = (43, b'\x03\x03')
        elif v == 'nover':
            e = e[1:]
        elif v == 'noshare':
            e = [x for x in e if x[0] != 51]
        elif v == 'unsolicited':
            e.append((0x7a7a, b''))
        elif v == 'wrongext':
            e.append((10, v16(u16(29))))
        elif v == 'pskunoffered':
            e.append((41, b'\0\0'))
        elif v == 'pskindex':
            e = [(t, b'\0\x05') if t == 41 else (t, b) for t, b in e]
        elif v == 'dupext':
            e.append(e[0])
        elif v == 'cookie':
            e.append((44, v16(b'abc')))
        self.sh_ext = dict(e)
        rs = self._sh_flush = self.hs('SH', ver + self.sr + v8(sid) + u16(suite) + bytes([comp]) + v16(pext(e)), v, plain=True)
        z = None
        if shares:
            z = self.share.shared(shares.get(g, b'')) if g in shares else None
        if v == 'joined':
            # what follows the ServerHello in the same plaintext record crosses a key change
            ee = bytes([8]) + v24(v16(b''))
            m = self.tr[-1]
            rs = self.record(22, m + ee, True)
        self._start13(z)
        return rs

    def s13_hrr(self, v):
        g = self.o['group']
        if 10 in self.ch_ext and self.ch1 is None:
            gs = Rd(self.ch_ext[10]).v16()
            gs = [int.from_bytes(gs[i:i + 2], 'big') for i in range(0, len(gs), 2)]
            g = ([x for x in gs if x not in self.ch_shares and x in (X25519, SECP256, SECP384)] + [g])[0]
            self.o['group'] = g
        sid, suite, comp = getattr(self, 'ch_sid', b''), self.suite, 0
        xg = g
        self.first_group = (list(getattr(self, 'ch_shares', {})) + [X25519])[0]
        if v == 'groupoffered':
            xg = list(getattr(self, 'ch_shares', {X25519: 0}))[0]
        elif v == 'groupunoffered':
            xg = 30
        elif v == 'suite':
            suite = 0x13aa
        e = [(43, b'\x03\x04'), (51, u16(xg))]
        if self.o.get('usecookie') or v == 'cookieonly':
            e.append((44, v16(self.cookie)))
        if v == 'cookieonly':
            e = [x for x in e if x[0] != 51]
        elif v == 'nochange':
            e = [x for x in e if x[0] == 43]
        elif v == 'unsolicited':
            e.append((0x7a7a, b''))
        elif v == 'nover':
            e = e[1:]
        elif v == 'sid':
            sid = bytes([sid[0] ^ 1]) + sid[1:] if sid else b'\1'
        elif v == 'dupext':
            e.append(e[0])
        h = self.hash()
        if self.ch1 is None:
            self.ch1 = self.tr[:]
            self.tr = [b'\xfe' + v24(h)]
        return self.hs('SH', b'\x03\x03' + HRR_RANDOM + v8(sid) + u16(suite) + bytes([comp]) + v16(pext(e)), v, plain=self.wk is None)

    def s13_ee(self, v):
        e = []
        if v == 'keyshare':
            e.append((51, u16(29) + v16(b'x' * 32)))
        elif v == 'unsolicited':
            e.append((0x7a7a, b''))
        elif v == 'sigalgs':
            e.append((13, v16(u16(0x0403))))
        elif v == 'groups':
            e.append((10, v16(u16(29))))
        elif v == 'alpn':
            e.append((16, v16(v8(b'h2'))))
        elif v == 'dupext':
            e = [(10, v16(u16(29)))] * 2
        elif v == 'early':
            e.append((42, b''))
        return self.hs('EE', v16(pext(e)), v)

    # ---- certificates
    def _chain(self, v, base):
        if v == 'none':
            return []
        if v == 'evil':
            return [T.data('evil_srv.crt' if base.endswith('srv') else 'evil_cli.crt')]
        if v == 'garbage':
            return [b'\x30\x03\x02\x01\x05']
        if v == 'emptyentry':
            return [b'']
        return [T.data(base + '.crt')]

    def s12_cert(self, v):
        if self.kind == 'tlcp':
            s = 'sm2_srv' if self.server else 'sm2_cli'
            l = [] if v == 'none' else [T.data(s + '_sign.crt'), T.data(s + '_enc.crt')]
            if v == 'one':
                l = l[:1]
            elif v == 'swapped':
                l = l[::-1]
            elif v == 'evil':
                l = [T.data('evil_srv.crt')] * 2
            elif v == 'garbage':
                l = [b'\x30\x03\x02\x01\x05'] * 2
        else:
            l = self._chain(v, self.cred)
        self.sent_cert = l
        b = b''.join(v24(c) for c in l)
        if v == 'listlen':
            return self.hs('CERT', (len(b) + 1).to_bytes(3, 'big') + b, v)
        return self.hs('CERT', v24(b), v)

    def s13_cert(self, v):
        l = self._chain(v, self.cred)
        self.sent_cert = l
        ctx = b'' if self.server else (self.creq or b'')
        if v == 'ctx':
            ctx = b'xx'
        x = v16(pext([(0x7a7a, b'')])) if v == 'ext' else v16(b'')
        b = b''.join(v24(c) + x for c in l)
        if v == 'listlen':
            return self.hs('CERT', v8(ctx) + (len(b) + 1).to_bytes(3, 'big') + b, v)
        return self.hs('CERT', v8(ctx) + v24(b), v)

    def s12_cr(self, v):
        self.creq = b''
        if self.kind == 'tlcp':
            return self.hs('CR', v8(bytes([64, 1])) + v16(b''), v)
        sigs = SIGALGS if v != 'nosig' else [0x7777]
        if v == 'emptysig':
            sigs = []
        types = bytes([64, 1]) if v != 'notypes' else b''
        return self.hs('CR', v8(types) + v16(u16(*sigs)) + v16(b''), v)

    def s13_cr(self, v):
        self.creq = b'ctx1' if v == 'ctx' or self.post else b''
        e = [(13, v16(u16(*SIGALGS)))]
        if v == 'nosigext':
            e = [(10, v16(u16(29)))]
        elif v == 'emptysig':
            e = [(13, v16(b''))]
        elif v == 'dupext':
            e = e * 2
        return self.hs('CR', v8(self.creq) + v16(pext(e)), v)

    def _flip(self, sig):
        i = self.rnd.randrange(len(sig) // 2, len(sig))
        return sig[:i] + bytes([sig[i] ^ (1 << self.rnd.randrange(8))]) + sig[i + 1:]

    def s12_ske(self, v):
        if self.kx == 'ecc':
            d = self.cr + self.sr + v24(T.data('sm2_srv_enc.crt'))
            if v == 'otherdata':
                d = self.cr + self.sr + v24(T.data('sm2_srv_sign.crt'))
            if v == 'oldrandom':
                d = b'\0' * 32 + d[32:]
            sig = do_sign('sm2_srv_sign', 0x0707, d)
            if v == 'badsig':
                sig = self._flip(sig)
            if v == 'emptysig':
                sig = b''
            return self.hs('SKE', v16(sig), v)
        g = self.o['group']
        self.share = Share(g, self.rnd)
        pub = self.share.pub
        gid, ctype = g, 3
        if v == 'group':
            gid = 0x7777
        elif v == 'groupunoffered':
            gid = 25
            pub = b'\x04' + b'\1' * 132
        elif v == 'badpoint':
            pub = b'\x04' + b'\x01' * 64 if g != X25519 else b'\0' * 32
        elif v == 'shortpoint':
            pub = pub[:-1]
        elif v == 'emptypoint':
            pub = b''
        elif v == 'ctype':
            ctype = 1
        p = bytes([ctype]) + u16(gid) + v8(pub)
        d = self.cr + self.sr + p
        if v == 'oldrandom':
            d = b'\0' * 32 + d[32:]
        elif v == 'swaprandom':
            d = self.sr + self.cr + p
        elif v == 'otherdata':
            d = self.cr + self.sr + p[:-1] + bytes([p[-1] ^ 1])
        scheme = self.scheme
        name = self.cred
        if v == 'evilkey':
            name = 'evil_srv'
            scheme = 0x0403 if scheme not in (0x0403,) else scheme
        sig = do_sign(name, scheme, d)
        if v == 'badsig':
            sig = self._flip(sig)
        elif v == 'emptysig':
            sig = b''
        elif v == 'scheme':
            scheme = 0x7777
        elif v == 'sha1':
            scheme = 0x0203 if self.cred.startswith('ec') else 0x0201
            sig = do_sign(name, scheme, d)
        elif v == 'schememismatch':
            scheme = 0x0401 if self.cred.startswith('ec') else 0x0403
        return self.hs('SKE', p + u16(scheme) + v16(sig), v)

    def s12_cke(self, v):
        if self.kx == 'ecdhe':
            self.share = Share(self.o['group'], self.rnd)
            pub = self.share.pub
            if v == 'badpoint':
                pub = b'\x04' + b'\x01' * 64 if self.o['group'] != X25519 else b'\0' * 32
            elif v == 'shortpoint':
                pub = pub[:-1]
            elif v == 'emptypoint':
                pub = b''
            self.pms = self.share.shared(self.peer_share) if self.peer_share else None
            r = self.hs('CKE', v8(pub), v)
        elif self.kx == 'rsa':
            self.pms = self.ver + self.rnd.randbytes(46)
            pms = self.pms
            if v == 'badver':
                pms = b'\x03\x01' + pms[2:]
            elif v == 'shortpms':
                pms = pms[:-1]
            k = pk.cert_pub(self.peer_certs[0] if self.peer_certs else T.data('rsa_srv.crt'))
            c = pk.rsa_pkcs1_enc(k, pms)
            pk.pkey_free(k)
            if v == 'garbage':
                c = self.rnd.randbytes(len(c) - 1) + b'\1'
                c = b'\0' + c[1:]
            r = self.hs('CKE', v16(c), v)
        else:
            self.pms = self.ver + self.rnd.randbytes(46)
            pms = self.pms
            if v == 'badver':
                pms = b'\x03\x03' + pms[2:]
            elif v == 'shortpms':
                pms = pms[:-1]
            k = pk.cert_pub(self.peer_certs[1] if len(self.peer_certs) > 1 else T.data('sm2_srv_enc.crt'))
            c = sm2_enc(k, pms)
            pk.pkey_free(k)
            if v == 'garbage':
                c = c[:-8] + self.rnd.randbytes(8)
            r = self.hs('CKE', v16(c), v)
        self._master()
        return r

    def s12_cv(self, v):
        d = b''.join(self.tr)
        if v == 'otherdata':
            d = b''.join(self.tr[:-1])
        if self.kind == 'tlcp':
            d = O.digest('SM3', d)
        return self._cv(v, d)

    def s13_cv(self, v):
        ctxs = b'TLS 1.3, server CertificateVerify' if self.server else b'TLS 1.3, client CertificateVerify'
        if v == 'context':
            ctxs = b'TLS 1.3, client CertificateVerify' if self.server else b'TLS 1.3, server CertificateVerify'
        d = b' ' * 64 + ctxs + b'\0' + (self.hash() if v != 'otherdata' else O.digest(self.h, b''.join(self.tr[:-1])))
        return self._cv(v, d)

    def _cv(self, v, d):
        name, scheme = self.cred, self.scheme
        if self.kind == 'tlcp':
            name, scheme = ('sm2_srv' if self.server else 'sm2_cli') + '_sign', 0x0707
        if v == 'evilkey':
            name = 'evil_srv'
            scheme = 0x0403
        sig = do_sign(name, scheme, d)
        if v == 'badsig':
            sig = self._flip(sig)
        elif v == 'emptysig':
            sig = b''
        elif v == 'scheme':
            scheme = 0x7777
        elif v == 'pkcs1':
            scheme = 0x0401
            sig = do_sign(name, scheme, d)
        elif v == 'sha1':
            scheme = 0x0203 if self.cred.startswith('ec') else 0x0201
            sig = do_sign(name, scheme, d)
        elif v == 'schememismatch':
            scheme = 0x0804 if self.cred.startswith('ec') else 0x0403
        if self.kind == 'tlcp':
            return self.hs('CV', v16(sig), v)
        return self.hs('CV', u16(scheme) + v16(sig), v)

    def s12_nst(self, v):
        self.session['ticket'] = self.rnd.randbytes(100)
        return self.hs('NST', (7200).to_bytes(4, 'big') + v16(self.session['ticket']), v)

    def s12_fin(self, v):
        label = b'server finished' if self.server else b'client finished'
        if v == 'role':
            label = b'client finished' if self.server else b'server finished'
        d = X.prf(self.h, self.ms, label, self.hash() if v != 'otherdata' else O.digest(self.h, b''.join(self.tr[:-1])), 12)
        d = self._badfin(d, v)
        self.fins['s' if self.server else 'c'] = d
        self.session.update(ms=self.ms, sid=self.sid, suite=self.suite)
        return self.hs('FIN', d, v)

    def _badfin(self, d, v):
        if v == 'bad':
            i = self.rnd.randrange(len(d))
            return d[:i] + bytes([d[i] ^ (1 << self.rnd.randrange(8))]) + d[i + 1:]
        if v == 'badlast':
            return d[:-1] + bytes([d[-1] ^ 1])
        if v == 'badfirst':
            return bytes([d[0] ^ 0x80]) + d[1:]
        if v == 'zero':
            return b'\0' * len(d)
        return d

    def s13_fin(self, v):
        if self.sch is None:
            return self.hs('FIN', b'\0' * X.HLEN[self.h], v, plain=True)
        base = self.sch.shs if self.server else self.sch.chs
        if v == 'role':
            base = self.sch.chs if self.server else self.sch.shs
        d = self.sch.finished(base, self.hash() if v != 'otherdata' else O.digest(self.h, b''.join(self.tr[:-1])))
        d = self._badfin(d, v)
        r = self.hs('FIN', d, v)
        if v == 'joined':
            r = None
        if self.server:
            self.sch.application(self.hash())
            self.wk = X.Keys13(self.suite, self.sch.sap)
        elif hasattr(self.sch, 'cap'):
            self.sch.resumption(self.hash())
            self.wk = X.Keys13(self.suite, self.sch.cap)
        return r

    def s13_nst(self, v):
        nonce = self.rnd.randbytes(8)
        t = self.rnd.randbytes(64)
        life = 7200
        if v == 'life':
            life = 604801
        e = b''
        if v == 'dupext':
            e = pext([(42, b'\0\0\0\1')] * 2)
        if v == 'unkext':
            e = pext([(0x7a7a, b'')])
        if v == 'emptyticket':
            t = b''
        add = self.rnd.randbytes(4)
        if self.sch and hasattr(self.sch, 'res'):
            self.tickets.append(dict(ticket=t, psk=X.expand_label(self.h, self.sch.res, b'resumption', nonce, self.sch.n), add=add, suite=self.suite))
        return self.hs('NST', life.to_bytes(4, 'big') + add + v8(nonce) + v16(t) + v16(e), v, add=False)

    def s13_ku(self, v):
        r = self.hs('KU', {'req': b'\1', 'bad': b'\2'}.get(v, b'\0'), v, add=False)
        if v in ('ok', 'req') and hasattr(self.wk, 'update'):
            self.wk.update()
        return r

    # messages of the other version or role, sent as a confused or malicious peer would
    def s12_ee(self, v):
        return self.hs('EE', b'\0\0', v)

    def s12_ku(self, v):
        return self.hs('KU', b'\0', v)

    def s13_ske(self, v):
        return self.hs('SKE', b'\3\0\x1d' + v8(b'x' * 32) + u16(0x0403) + v16(b'y' * 70), v)

    def s13_cke(self, v):
        return self.hs('CKE', v8(b'x' * 32), v)

    def s_eoed(self, v):
        return self.hs('EOED', b'', v)


def sm2_enc(k, data):
    c = pk.ctx_new(k, None)
    try:
        assert pk.enc_init(c) == 1
        n = pk.ct.c_size_t(1024)
        out = pk.ct.create_string_buffer(1024)
        assert pk.encrypt(c, out, pk.ct.byref(n), data, len(data)) == 1
        return out.raw[:n.value]
    finally:
        pk.ctx_free(c)


def sm2_dec(k, data):
    c = pk.ctx_new(k, None)
    try:
        assert pk.dec_init(c) == 1
        n = pk.ct.c_size_t(1024)
        out = pk.ct.create_string_buffer(1024)
        return out.raw[:n.value] if pk.decrypt(c, out, pk.ct.byref(n), data, len(data)) == 1 else None
    finally:
        pk.ctx_free(c)

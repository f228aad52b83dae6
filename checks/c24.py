"""C24: does a certificate name the identity asked for?"""
import ctypes as ct, ipaddress
from lib import der as D, hitls as H, runner as R
from lib.hitls import L, K

TYPE = {}
_key = None


class BB(ct.Structure):
    _fields_ = [('data', ct.c_void_p), ('len', ct.c_uint32)]


def rawname(cns, tags):
    return D.seq(*[D.setof(D.seq(D.oid('2.5.4.3'), D.tlv(t, bytes(v)))) for v, t in zip(cns, tags)])


def rawgn(k, v):
    v = bytes(v)
    if k == 'srv':
        return D.tlv(0xa0, D.oid('1.3.6.1.5.5.7.8.7') + D.tlv(0xa0, D.tlv(0x16, v)))
    return D.tlv({'dns': 0x82, 'uri': 0x86, 'email': 0x81, 'ip': 0x87}[k], v)


def make_cert(c):
    exts = []
    if c['san']:
        exts.append(D.ext('2.5.29.17', D.seq(*[rawgn(n['k'], n['v']) for n in c['san']])))
    subj = rawname(c['cn'], [0x0c] * len(c['cn']))
    t = 1700000000
    return D.cert(7, D.name('issuer'), subj, t - 1000, t + 1000, _key, _key, exts=exts)


class Drv:
    cert = None

    def reset(self, cfg):
        self.close()
        d = make_cert(cfg)
        self.keep = H.buf(d)
        b = BB(ct.addressof(self.keep), len(d))
        p = ct.c_void_p()
        r = L.HITLS_X509_CertParseBuff(K.BSL_FORMAT_ASN1, ct.byref(b), ct.byref(p))
        self.cert = p if r == 0 else None

    def do(self, i):
        if i['op'] != 'list' or self.cert is None:
            return None
        out = []
        for v in i['vs']:
            b = bytes(v)
            r = L.HITLS_X509_VerifyIdentity(self.cert, K.HITLS_X509_FLAG_VFY_WITH_PARTIAL_WILDCARD if i['partial'] else 0, TYPE[i['type']],
                                            ct.create_string_buffer(b), ct.c_uint32(len(b) + i['dl']))
            out.append(r == 0)
        return ['list', out]

    def close(self):
        if self.cert:
            L.HITLS_X509_CertFree(self.cert)
        self.cert = None


def cfg(cn=(), san=()):
    return {'cn': [list(x) for x in cn], 'san': [{'k': k, 'v': list(v)} for k, v in san]}


def ask(type_, refs, partial=False, dl=0):
    return {'op': 'list', 'type': type_, 'partial': partial, 'dl': dl, 'vs': [list(r) for r in refs]}


def up3(ls):
    return [b'.'.join(q) for q in [(x,) for x in ls] + [(x, y) for x in ls for y in ls] + [(x, y, z) for x in ls for y in ls for z in ls]]


REFS = [r for r in up3((b'', b'a', b'A', b'b', b'ab', b'aab')) if r and r[:1] != b'.']
PATS = [p for p in up3((b'', b'a', b'b', b'*', b'a*', b'*a', b'a*b', b'**')) if p]
LABELS = [b'www', b'mail', b'example', b'com', b'org', b'a', b'xn--bcher-kva', b'host-1', b'1', b'x' * 63, b'EXAMPLE', b'z', b'@', b'[', b'{', b'`', b'\xc3\xa9', b'\xe3\x89']


def rname(r, n=None):
    return b'.'.join(r.choice(LABELS[:10]) for _ in range(n or r.choice((1, 2, 3, 3, 4, 5))))


def swap(r, b):
    return bytes(x ^ 0x20 if chr(x).isalpha() and r.random() < .5 else x for x in b)


def rpat(r, n):
    """a pattern that has to do with the name n"""
    ls = n.split(b'.')
    w = r.random()
    k = 0 if r.random() < .75 else r.randrange(len(ls))
    if w < .15:
        pass
    elif w < .4:
        ls[k] = b'*'
    elif w < .65:
        x = ls[k]
        a = r.randrange(len(x) + 1)
        b = r.randrange(a, len(x) + 1)
        ls[k] = x[:a] + b'*' + x[b:]
    elif w < .72:
        x = ls[k]
        ls[k] = b'*' + x + b'*'
    elif w < .8:
        ls = ls[1:] or ls
    elif w < .86:
        ls = [b'*'] + ls
    elif w < .92:
        ls[k] = b''
    else:
        ls[-1] = ls[-1] + r.choice((b'.', b'\0', b'\0.com', b'x'))
    return swap(r, b'.'.join(ls))


def near(r, n):
    b = bytearray(n)
    for _ in range(r.choice((0, 1, 1, 2))):
        w = r.random()
        p = r.randrange(len(b)) if b else 0
        if w < .3 and b:
            del b[p]
        elif w < .6:
            b.insert(p, r.choice(b'.ab*-1\0'[:6]))
        elif b:
            b[p] = r.choice((b[p] ^ 0x20, b[p] ^ 1, 46, 42, 97))
    return bytes(b)


def ok(b):
    return b and 0 not in b and b[:1] != b'.'


SCHEMES = (b'https', b'sip', b'sips', b'http', b'HTTPS', b'xmpp')


def ruri(r, host):
    s = r.choice(SCHEMES)
    slashes = b'//' if s[:3] != b'sip' or r.random() < .2 else b''
    user = r.choice((b'', b'', b'u@', b'u:p@', b'a@b@', b'evil.com@'))
    port = r.choice((b'', b'', b':443', b':0', b':65535', b':65536', b':', b':00443', b':4x', b':99999999999'))
    tail = r.choice((b'', b'/', b'/p?q#f', b'?q', b'#f', b';transport=tls', b'/@evil.com', b'?x@evil.com', b'#@other'))
    if r.random() < .08:
        return r.choice((b'', b':', s, s + b':', s + b'://', s + b'://:1', b'://' + host, s + b':/' + host, s + b'://@' + host, s + b'://u@'))
    return s + b':' + slashes + user + host + port + tail


def rsrv(r, host):
    s = r.choice((b'imaps', b'imap', b'IMAPS', b'xmpp-client', b's', b''))
    if r.random() < .1:
        return r.choice((b'_', b'_.', b'_x', b'_x.', s + b'.' + host, b'__' + s + b'.' + host, b'_' + s))
    return b'_' + s + b'.' + host


def rip(r):
    w = r.random()
    if w < .3:
        return '.'.join(str(r.choice((0, 1, 9, 10, 99, 100, 127, 199, 200, 249, 250, 255))) for _ in range(4)).encode()
    a = ipaddress.IPv6Address(bytes(r.choice((0, 0, 0, 1, 0x10, 0xff, r.randrange(256))) for _ in range(16)))
    if w < .5:
        z = bytearray(16)
        for _ in range(r.choice((0, 1, 2, 3))):
            z[r.randrange(16)] = r.randrange(256)
        a = ipaddress.IPv6Address(bytes(z))
    s = str(a) if r.random() < .6 else a.exploded
    g = s.split(':')
    if w > .8:                                   # an embedded IPv4 address
        f = a.packed
        v4 = '.'.join(str(x) for x in f[12:])
        h = ipaddress.IPv6Address(f[:12] + b'\1\2\3\4').exploded.split(':')[:6]
        s = ':'.join(h) + ':' + v4 if r.random() < .5 else '::' + v4
        if r.random() < .4:
            s = '::ffff:' + v4
    elif r.random() < .3:
        s = ':'.join(x.lstrip('0') or '0' for x in a.exploded.split(':'))
        k = r.randrange(9)
        h = s.split(':')
        n = r.randrange(1, 9)
        if all(x == '0' for x in h[k:k + n]) and h[k:k + n]:
            s = ':'.join(h[:k]) + '::' + ':'.join(h[k + n:])
    if r.random() < .2:
        s = s.upper()
    return s.encode()


def ipbytes(t):
    try:
        return ipaddress.ip_address(t.decode()).packed
    except ValueError:
        return None


def nearip(r, t):
    b = bytearray(t)
    for _ in range(r.choice((1, 1, 1, 2, 2, 3))):
        w = r.random()
        p = r.randrange(len(b)) if b else 0
        if w < .35 and b:
            del b[p]
        elif w < .75:
            b.insert(p, r.choice(b'.::0019af'))
        elif b:
            b[p] = r.choice(b'.:01259afFg')
    return bytes(b)


class Base(R.Part):
    module = 'Names'
    per_script = 20

    def consts(self, tier):
        return {'Aspect': self.name, 'Depth': 1}

    def make(self):
        return Drv()


class Host(Base):
    name = 'host'

    def scripts(self, tier, rng, g):
        return [(cfg(san=[('dns', p)]), [ask('dns', REFS, q) for q in (False, True)]) for p in PATS] + \
               [(cfg(cn=[p]), [ask('dns', REFS, q) for q in (False, True)]) for p in PATS[::7]]


class Many(Base):
    """random certificates with several names, the references related to them"""
    name = 'many'

    def scripts(self, tier, rng, g):
        out = []
        for _ in range(900 if tier == 'quick' else 20000):
            r = rng
            names = [rname(r) for _ in range(r.choice((1, 2, 3)))]
            san, refs = [], []
            for _ in range(r.choice((0, 1, 1, 2, 3, 5))):
                n = r.choice(names)
                k = r.choice(('dns', 'dns', 'dns', 'uri', 'srv', 'ip', 'email'))
                if k == 'dns':
                    san.append((k, rpat(r, n)))
                elif k == 'uri':
                    san.append((k, ruri(r, rpat(r, n))))
                elif k == 'srv':
                    san.append((k, rsrv(r, rpat(r, n))))
                elif k == 'ip':
                    san.append((k, ipbytes(rip(r))))
                else:
                    san.append((k, b'u@' + n))
            san = [(k, v) for k, v in san if v]
            cn = [rpat(r, r.choice(names))] if r.random() < .8 else []
            cn = [x for x in cn if x]
            steps = []
            for t in ('dns', 'dns', 'uri', 'srv'):
                refs = []
                for _ in range(8):
                    n = near(r, r.choice(names)) if r.random() < .5 else r.choice(names)
                    if not ok(n):
                        continue
                    refs.append(swap(r, n) if t == 'dns' else ruri(r, n) if t == 'uri' else rsrv(r, n))
                refs += [bytes(v) for k, v in san if k == t and (t != 'dns' or ok(v)) and 0 not in v]
                refs = [x for x in refs if x]
                if t == 'dns':
                    refs = [x for x in refs if ok(x)]
                    refs += [v for k, v in san if k in ('uri', 'srv', 'email') and 0 not in v and v[:1] != b'.']
                if refs:
                    steps.append(ask(t, refs, r.random() < .5, r.choice((0, 0, 0, 0, 0, 1, -1))))
            out.append((cfg(cn, san), steps))
        return out


class Ip(Base):
    name = 'ip'

    def scripts(self, tier, rng, g):
        out, r = [], rng
        for _ in range(700 if tier == 'quick' else 15000):
            ts = [rip(r) for _ in range(3)]
            bs = [ipbytes(t) for t in ts]
            bs = [b for b in bs if b]
            if not bs:
                continue
            san = []
            for b in bs:
                w = r.random()
                san.append(('ip', b if w < .6 else (b[-4:] if len(b) == 16 else b'\0' * 10 + b'\xff\xff' + b) if w < .75 else b[:-1] + bytes([b[-1] ^ 1]) if w < .85 else b[:4] + b'\xff' * 4))
            if r.random() < .3:
                san.append(('dns', ts[0]))
            refs = list(ts)
            for t in ts:
                refs += [nearip(r, t) for _ in range(10)]
                b = ipbytes(t)
                if b and len(b) == 16:
                    e = ipaddress.IPv6Address(b).exploded
                    refs += [e.encode(), e.upper().encode(), (':'.join(x.lstrip('0') or '0' for x in e.split(':'))).encode(), (e[:29] + ':' + '.'.join(str(x) for x in b[12:])).encode()]
                elif b:
                    refs += [b'::ffff:' + t, b'::' + t]
            refs = [x for x in refs if x and 0 not in x]
            out.append((cfg([ts[0]], san), [ask('ip', refs, False, r.choice((0, 0, 0, 0, 1, -1)))]))
        return out


PARTS = [Host(), Many(), Ip()]
#K: BSL_FORMAT_ASN1 HITLS_X509_FLAG_VFY_WITH_PARTIAL_WILDCARD HITLS_GEN_DNS HITLS_GEN_IP HITLS_GEN_URI HITLS_GEN_SRV


def setup():
    global _key
    H.init([__file__])
    _key = D.Key('a')
    for n in ('DNS', 'IP', 'URI', 'SRV'):
        TYPE[n.lower()] = K.get('HITLS_GEN_' + n)


def main():
    return R.run('C24', PARTS, setup=setup)

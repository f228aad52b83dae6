"""A small DER encoder and certificate / CRL maker (signatures by libcrypto)."""
import hashlib, os
from . import pk

D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', 'pki')


def tlv(t, b):
    n = len(b)
    if n < 128:
        l = bytes([n])
    else:
        x = n.to_bytes((n.bit_length() + 7) // 8, 'big')
        l = bytes([0x80 | len(x)]) + x
    return bytes([t]) + l + b


def seq(*a):
    return tlv(0x30, b''.join(a))


def setof(*a):
    return tlv(0x31, b''.join(a))


def integer(n):
    b = n.to_bytes(n.bit_length() // 8 + 1, 'big', signed=True) if n else b'\0'
    return tlv(2, b)


def oid(s):
    p = [int(x) for x in s.split('.')]
    out = bytes([p[0] * 40 + p[1]])
    for v in p[2:]:
        c = [v & 127]
        v >>= 7
        while v:
            c.insert(0, 128 | v & 127)
            v >>= 7
        out += bytes(c)
    return tlv(6, out)


def octets(b):
    return tlv(4, b)


def bits(b, unused=0):
    return tlv(3, bytes([unused]) + b)


def bitlist(on):
    """named bit list"""
    if not on:
        return bits(b'')
    m = max(on)
    a = bytearray(m // 8 + 1)
    for i in on:
        a[i // 8] |= 0x80 >> i % 8
    return bits(bytes(a), 7 - m % 8)


def boolean(v):
    return tlv(1, b'\xff' if v else b'\0')


def time(t):
    """seconds since 1970 -> UTCTime or GeneralizedTime"""
    import datetime
    d = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t)
    if 1950 <= d.year < 2050:
        return tlv(0x17, d.strftime('%y%m%d%H%M%SZ').encode())
    return tlv(0x18, d.strftime('%Y%m%d%H%M%SZ').encode())


def name(attrs, tag=0x0c):
    """[(oid suffix of 2.5.4, text)] or a text (CN)"""
    if isinstance(attrs, str):
        attrs = [(3, attrs)]
    return seq(*[setof(seq(oid('2.5.4.%d' % a[0]), tlv(a[2] if len(a) > 2 else tag, a[1].encode()))) for a in attrs])


def ext(o, val, crit=False):
    return seq(oid(o), *([boolean(True)] if crit else []), octets(val))


KU = {'s': 0, 'n': 1, 'e': 2, 'd': 3, 'a': 4, 'c': 5, 'r': 6}
EKU = {'server': '1.3.6.1.5.5.7.3.1', 'client': '1.3.6.1.5.5.7.3.2', 'code': '1.3.6.1.5.5.7.3.3', 'email': '1.3.6.1.5.5.7.3.4',
       'time': '1.3.6.1.5.5.7.3.8', 'ocsp': '1.3.6.1.5.5.7.3.9', 'any': '2.5.29.37.0'}


def x_bc(ca, pl=None, crit=True):
    return ext('2.5.29.19', seq(*([boolean(True)] if ca else []), *([integer(pl)] if pl is not None else [])), crit)


def x_ku(letters, crit=True):
    return ext('2.5.29.15', bitlist([KU[x] for x in letters]), crit)


def x_eku(names, crit=False):
    return ext('2.5.29.37', seq(*[oid(EKU[n]) for n in names]), crit)


def x_ski(kid):
    return ext('2.5.29.14', octets(kid))


def x_aki(kid=None, issuer=None, serial=None):
    b = tlv(0x80, kid) if kid is not None else b''
    if issuer is not None:
        b += tlv(0xa1, tlv(0xa4, issuer))
    if serial is not None:
        b += tlv(0x82, integer(serial)[2:])
    return ext('2.5.29.35', seq(b))


def gn(kind, v):
    """a GeneralName: dns / uri / email text, ip bytes, dn DER name, srv text"""
    if kind == 'srv':
        return tlv(0xa0, oid('1.3.6.1.5.5.7.8.7') + tlv(0xa0, tlv(0x16, v.encode())))
    return {'dns': lambda: tlv(0x82, v.encode('latin1')), 'uri': lambda: tlv(0x86, v.encode()), 'email': lambda: tlv(0x81, v.encode()),
            'ip': lambda: tlv(0x87, v), 'dn': lambda: tlv(0xa4, v)}[kind]()


def x_san(names, crit=False):
    return ext('2.5.29.17', seq(*[gn(k, v) for k, v in names]), crit)


class Key:
    """a key of data/pki by name"""
    all = {}

    def __new__(cls, n):
        if n in cls.all:
            return cls.all[n]
        o = object.__new__(cls)
        o.name = n
        o.priv = pk.priv(open(os.path.join(D, n + '.key'), 'rb').read())
        o.spki = open(os.path.join(D, n + '.pub'), 'rb').read()
        o.kid = hashlib.sha1(o.spki).digest()
        o.type = {'q': 'ec', 'r': 'rsa', 'w': 'rsa', 'f': 'ed', 's': 'sm2', 't': 'sm2', 'u': 'sm2', 'v': 'sm2'}.get(n, 'ec')
        cls.all[n] = o
        return o

    def alg(self, md):
        if self.type == 'ec':
            return seq(oid({'sha1': '1.2.840.10045.4.1', 'sha256': '1.2.840.10045.4.3.2', 'sha384': '1.2.840.10045.4.3.3', 'sha512': '1.2.840.10045.4.3.4'}[md]))
        if self.type == 'rsa':
            return seq(oid({'sha1': '1.2.840.113549.1.1.5', 'sha256': '1.2.840.113549.1.1.11', 'sha384': '1.2.840.113549.1.1.12', 'sha512': '1.2.840.113549.1.1.13'}[md]), tlv(5, b''))
        if self.type == 'sm2':
            return seq(oid('1.2.156.10197.1.501'))
        return seq(oid('1.3.101.112'))

    def sign(self, data, md):
        if self.type == 'ed':
            return pk.sign(self.priv, data, None)
        if self.type == 'sm2':
            return pk.sign(self.priv, data, 'SM3', sm2id=b'1234567812345678')
        return pk.sign(self.priv, data, md.upper().replace('SHA', 'SHA2-') if md != 'sha1' else 'SHA1')


def signed(tbs, key, md, outer=None, flip=False):
    s = key.sign(tbs, md)
    if flip:
        s = s[:-1] + bytes([s[-1] ^ 1])
    return seq(tbs, outer or key.alg(md), bits(s))


def cert(serial, issuer, subject, nb, na, key, by, md='sha256', version=3, exts=(), inner=None, flip=False):
    """key: subject key, by: signing key"""
    tbs = seq(*([tlv(0xa0, integer(version - 1))] if version > 1 else []), integer(serial), inner or by.alg(md), issuer,
              seq(time(nb), time(na)), subject, key.spki, *([tlv(0xa3, seq(*exts))] if exts else []))
    return signed(tbs, by, md, flip=flip)


def crl(issuer, tu, nu, revoked, by, md='sha256', exts=(), inner=None, flip=False):
    """revoked: [(serial, time, reason or None)]"""
    r = [seq(integer(s), time(t), *([seq(ext('2.5.29.21', tlv(10, bytes([q]))))] if q is not None else [])) for s, t, q in revoked]
    tbs = seq(integer(1), inner or by.alg(md), issuer, time(tu), *([time(nu)] if nu is not None else []), *([seq(*r)] if r else []),
              *([tlv(0xa0, seq(*exts))] if exts else []))
    return signed(tbs, by, md, flip=flip)

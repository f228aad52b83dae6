"""C06: negotiation of versions, suites, groups, signatures and extensions."""
import ctypes as ct, random
from lib import engine as E, hitls as H, runner as R, tls as T
from lib.hitls import K, L
#K: HITLS_EC_GROUP_SECP256R1 HITLS_EC_GROUP_SECP384R1 HITLS_EC_GROUP_CURVE25519 HITLS_HYBRID_X25519_MLKEM768 HITLS_MODE_SEND_FALLBACK_SCSV
#K: HITLS_VERSION_DTLS13 HITLS_VERSION_TLS12 HITLS_VERSION_TLS13 HITLS_VERSION_DTLS12 HITLS_ALPN_ERR_OK HITLS_ALPN_ERR_NOACK HITLS_SNI_HOSTNAME_TYPE

SUITES = {'T1': 0x1301, 'T2': 0x1302, 'T3': 0x1303, 'EG': 0xC02B, 'EC': 0xC023, 'RG': 0xC02F, 'RC': 0xC027, 'DG': 0x9E, 'KG': 0x9C, 'KC': 0x3C}
GROUPS = {'x25519': 29, 'p256': 23, 'p384': 24, 'hyb': 4588}
SIGS = {'ec256': 0x0403, 'ec384': 0x0503, 'pss256': 0x0804, 'pss384': 0x0805, 'pk256': 0x0401, 'pk384': 0x0501}
INV = {n: {v: k for k, v in d.items()} for n, d in (('s', SUITES), ('g', GROUPS), ('x', SIGS))}
ALPN_CB = ct.CFUNCTYPE(ct.c_int32, ct.c_void_p, ct.c_void_p, ct.c_void_p, ct.c_void_p, ct.c_uint32, ct.c_void_p)
SNI_CB = ct.CFUNCTYPE(ct.c_int32, ct.c_void_p, ct.c_void_p, ct.c_void_p)
HRR = bytes.fromhex('CF21AD74E59A6111BE1D8C021E65B891C2A211167ABB8C5E079E09E2C8A8339C')


def alpn_bytes(q):
    return b''.join(bytes([len(n)]) + n for n in (('proto-' + x).encode() for x in q))


class Ext:
    """the extensions of a hello message (TLS handshake message without the record)"""

    def __init__(self, msg, server):
        self.server = server
        p = 4 + 2 + 32
        n = msg[p]
        p += 1 + n
        self.sid = p
        if server:
            self.suite = p
            p += 3
        else:
            n = int.from_bytes(msg[p:p + 2], 'big')
            self.suites = (p, n)
            p += 2 + n
            p += 1 + msg[p]
        self.ep = p
        self.msg = bytearray(msg)
        self.ext = []
        if p < len(msg):
            p += 2
            while p < len(msg):
                t, n = int.from_bytes(msg[p:p + 2], 'big'), int.from_bytes(msg[p + 2:p + 4], 'big')
                self.ext.append((t, bytes(msg[p + 4:p + 4 + n])))
                p += 4 + n

    def build(self):
        e = b''.join(t.to_bytes(2, 'big') + len(d).to_bytes(2, 'big') + d for t, d in self.ext)
        m = bytes(self.msg[4:self.ep]) + (len(e).to_bytes(2, 'big') + e if self.ext else b'')
        return bytes(self.msg[:1]) + len(m).to_bytes(3, 'big') + m


class Drv:
    ends = ()

    def reset(self, cfg):
        self.c = c = cfg
        d = c['dg']
        kc, ks = Config = [T.Config('dtls' if d else 'tls') for _ in (0, 1)]
        self.cfgs = Config
        V = {12: K.HITLS_VERSION_DTLS12 if d else K.HITLS_VERSION_TLS12, 13: K.HITLS_VERSION_DTLS13 if d else K.HITLS_VERSION_TLS13}
        kc.trust('ec_ca', 'ec_int', 'rsa_ca', 'rsa_int')
        for k in c['creds']:
            ks.ident(k + '_srv')
        for p, q, mn, mx, su, gr, sg, ems, etm, rl in ((kc, 'c', 'cmin', 'cmax', 'cs', 'cg', 'csig', 'cems', 'cetm', 'crl'),
                                                       (ks, 's', 'smin', 'smax', 'ss', 'sg', 'ssig', 'sems', 'setm', 'srl')):
            p.call('SetVersion', V[c[mn]], V[c[mx]])
            p.suites([SUITES[x] for x in c[su]])
            p.groups([GROUPS[x] for x in c[gr]])
            p.sigs([SIGS[x] for x in c[sg]])
            p.call('SetExtendedMasterSecretMode', c[ems])
            p.call('SetEncryptThenMac', c[etm])
            if c[rl]:
                p.call('SetRecordSizeLimit', c[rl])
        ks.call('SetCipherServerPreference', c['pref'])
        ks.call('SetClientVerifySupport', False)
        if c['fb']:
            kc.call('SetModeSupport', K.HITLS_MODE_SEND_FALLBACK_SCSV)
        self.keep = []
        if c['calpn']:
            b = alpn_bytes(c['calpn'])
            kc.call('SetAlpnProtos', H.buf(b), len(b))
        if c['hasalpn']:
            sb = alpn_bytes(c['salpn'])
            hb = H.buf(sb)

            def alpn(ctx, out, outlen, cl, cn, arg):
                r = L.HITLS_SelectAlpnProtocol(out, outlen, hb, len(sb), cl, cn)
                p = ct.cast(out, ct.POINTER(ct.c_void_p))[0]
                if r != 0 or not p or not ct.cast(outlen, ct.POINTER(ct.c_uint8))[0]:
                    return 2 if c['alpnack'] else K.HITLS_ALPN_ERR_NOACK
                return K.HITLS_ALPN_ERR_OK
            f = ALPN_CB(alpn)
            self.keep += [hb, f]
            ks.call('SetAlpnProtosSelectCb', ct.cast(f, ct.c_void_p), None)
        if c['sni'] != 'none':
            n = b'www.example.test'
            kc.call('SetServerName', H.buf(n), len(n))
        if c['scb'] != 'none':
            f = SNI_CB(lambda a, b, d: {'ok': 0, 'noack': 3, 'fatal': 2}[c['scb']])
            self.keep.append(f)
            ks.call('SetServerNameCb', ct.cast(f, ct.c_void_p))
        self.cl = self.sv = None
        self.hrr = self.tampered = False
        self.sh_ext = []

    def close(self):
        for e in (getattr(self, 'cl', None), getattr(self, 'sv', None)):
            if e:
                e.free()
        for k in getattr(self, 'cfgs', ()):
            k.free()
        self.cfgs = ()

    # ------------------------------------------------------------------ the attacker (stream only; whole hello in one record)
    def tamper(self, data, client):
        m = self.c['mitm']
        if m == 'none' or not data or data[0] != 22 or self.tampered:
            return data
        n = int.from_bytes(data[3:5], 'big')
        rec, rest = data[5:5 + n], data[5 + n:]
        hl = 4 + int.from_bytes(rec[1:4], 'big')
        msg, more = rec[:hl], rec[hl:]
        if rec[0] != (1 if client else 2) or len(msg) < hl:
            return data
        x = Ext(msg, not client)
        old = bytes(msg)
        strip = {'ver': 43, 'ems': 23, 'alpn': 16, 'sni': 0, 'etm': 22, 'rsl': 28}
        if client:
            if m in strip:
                x.ext = [e for e in x.ext if e[0] != strip[m]]
            elif m == 'suite':
                p, n = x.suites
                x.msg[p:p + 2] = (n - 2).to_bytes(2, 'big')
                del x.msg[p + 2:p + 4]
                x.ep -= 2
            elif m in ('groups', 'sigs'):
                t = 10 if m == 'groups' else 13
                x.ext = [(a, b[:2] + b[4:6] + b[2:4] + b[6:]) if a == t else (a, b) for a, b in x.ext]
        else:
            if m == 'ssuite':
                s = x.msg[x.suite:x.suite + 2]
                o = {0x1301: 0x1302, 0x1302: 0x1301, 0xC02B: 0xC023, 0xC023: 0xC02B}[int.from_bytes(s, 'big')]
                x.msg[x.suite:x.suite + 2] = o.to_bytes(2, 'big')
            elif m == 'sver':
                x.ext = [(a, b'\x03\x03') if a == 43 else (a, b) for a, b in x.ext]
            elif m == 'sext':
                x.ext = [e for e in x.ext if e[0] not in (23, 16, 22, 28)]
            elif m == 'random':
                x.msg[6 + 7] ^= 1
            elif m == 'sentinel':
                x.msg[6 + 24:6 + 32] = b'\x11' * 8
        new = x.build()
        if new == old:
            return data
        self.tampered = True
        rec = new + more
        return data[:3] + len(rec).to_bytes(2, 'big') + rec + rest

    def see(self, b):
        if HRR in b:
            self.hrr = True

    def do(self, i):
        c = self.c
        self.cl, self.sv = cl, sv = T.End(self.cfgs[0], True), T.End(self.cfgs[1], False)
        rc = rs = None
        for _ in range(60):
            if rc is None or T.again(rc):
                rc = cl.hs()
            d = cl.take()
            sv.give(d if c['dg'] else self.tamper(d, True))
            if rs is None or T.again(rs):
                rs = sv.hs()
            d = sv.take()
            for x in (d if c['dg'] else [d]):
                self.see(x)
            cl.give(d if c['dg'] else self.tamper(d, False))
            if rc is not None and not T.again(rc) and rs is not None and not T.again(rs):
                break
            if not cl.rx and not sv.rx and T.again(rc) and T.again(rs):
                break
        if c['mitm'] != 'none' and not self.tampered:
            return None
        if rc == 0 and rs == 0:
            return self.up(cl, sv)
        if cl.alerts_tx:
            w, a = 'c', cl.alerts_tx[0]
        elif sv.alerts_tx:
            w, a = 's', sv.alerts_tx[0]
        else:
            return ['fail', 'no alert', rc or 0, rs or 0]
        other = sv if w == 'c' else cl
        own = cl if w == 'c' else sv
        if a[0] != 2 or (rc == 0 and w == 'c') or (rs == 0 and w == 's') or len(own.alerts_tx) > 1:
            return ['fail', 'alert', a[0], a[1]]
        if c['mitm'] == 'none' and other.alerts_rx[:1] != [a]:
            other.hs() if (rs if w == 'c' else rc) != 0 else other.read(100)
            if other.alerts_rx[:1] != [a]:
                return ['fail', 'peer', a[0], a[1]]
        return ['fail', w, a[1]]

    def up(self, cl, sv):
        c = self.c
        g = lambda e, n, t: e.get(n, t)
        v = {K.HITLS_VERSION_TLS12: 12, K.HITLS_VERSION_TLS13: 13, K.HITLS_VERSION_DTLS12: 12, K.HITLS_VERSION_DTLS13: 13}.get(cl.version(), 0)
        group = cl.get('GetNegotiateGroup', ct.c_uint16) or 0
        ok = cl.version() == sv.version() and cl.suite() == sv.suite()
        su = INV['s'].get(cl.suite(), str(cl.suite()))
        gs = sv.get('GetNegotiateGroup', ct.c_uint16) or 0
        ok = ok and group == gs
        kx = su[0] in 'TER'
        ss, sc = sv.get('GetLocalSignScheme', ct.c_uint16), cl.get('GetPeerSignScheme', ct.c_uint16)
        if su[0] != 'K':
            ok = ok and ss == sc
        # EMS and EtM as the hello messages say (the derived keys are checked by exporters and data)
        ems, etm, rl = self.wire(cl)

        def alpn(e):
            p, n = ct.c_void_p(), ct.c_uint32()
            r = L.HITLS_GetSelectedAlpnProto(e.ctx, ct.byref(p), ct.byref(n))
            return ct.string_at(p.value, n.value).decode().replace('proto-', '') if r == 0 and p.value and n.value else ''
        al = alpn(cl)
        ok = ok and al == alpn(sv)
        p = L.HITLS_GetServerName(sv.ctx, K.HITLS_SNI_HOSTNAME_TYPE)
        sni = ct.string_at(p) if p else b''
        sni = 'host' if sni == b'www.example.test' else sni.decode('latin1')
        ok = ok and cl.export() == sv.export() and cl.export() is not None
        vd = []
        for e, f in ((cl, 'GetFinishVerifyData'), (sv, 'GetPeerFinishVerifyData'), (sv, 'GetFinishVerifyData'), (cl, 'GetPeerFinishVerifyData')):
            b, n = H.buf(80), ct.c_uint32()
            r = getattr(L, 'HITLS_' + f)(e.ctx, b, 80, ct.byref(n))
            vd.append(bytes(b)[:n.value] if r == 0 else b'')
        if v == 12:
            ok = ok and vd[0] == vd[1] != b'' and vd[2] == vd[3] != b''
        for a, b in ((cl, sv), (sv, cl)):
            m = b'data of ' + bytes([65 + (a is cl)])
            r, _ = a.write(m)
            b.give(a.take())
            got = b.read(100)
            for _ in range(4):
                if not T.again(got[0]):
                    break
                got = b.read(100)
            ok = ok and r == 0 and got == (0, m)
        mw = []
        for e in (cl, sv):
            n = ct.c_uint32()
            r = L.HITLS_GetMaxWriteSize(e.ctx, ct.byref(n))
            mw.append((0 if c['dg'] else n.value) if r == 0 else -1)
        return ['ok', {'v': v, 'suite': su, 'group': INV['g'].get(group, str(group)) if kx else '', 'hrr': self.hrr,
                       'sig': INV['x'].get(sc, str(sc)) if su[0] != 'K' else '', 'ems': ems, 'etm': etm, 'alpn': al, 'sni': sni,
                       'cw': mw[0], 'sw': mw[1]}, bool(ok)]

    def wire(self, cl):
        ems = etm = False
        for wp, typ, b in cl.msgs:
            if wp == 0 and b and typ == 22 and b[0] == 2 and HRR not in b[:60]:
                if self.c['dg'] and b[4:12] and int.from_bytes(b[1:4], 'big') == len(b) - 12:
                    b = b[:4] + b[12:]
                for t, _ in Ext(b, True).ext:
                    ems |= t == 23
                    etm |= t == 22
        return ems, etm, 0


class Part(R.Part):
    module = 'Nego'
    per_script = 30

    def __init__(self, aspect):
        self.name = aspect

    def consts(self, tier):
        return {'Aspect': self.name, 'Depth': 1}

    def scripts(self, tier, rng, g):
        base = E.cover(g, rng=rng)
        n = {'quick': 700, 'thorough': 10 ** 6}[tier]
        if len(base) > n:
            base = rng.sample(base, n)
        return base

    def make(self):
        return Drv()


class Mix(Part):
    """policies that differ in everything at once"""

    def __init__(self):
        self.name = 'mix'

    def consts(self, tier):
        return {'Aspect': 'mitm', 'Depth': 1}

    def scripts(self, tier, rng, g):
        out = []
        seq = lambda xs, lo=1: rng.sample(xs, rng.randrange(lo, len(xs) + 1))
        for j in range(700 if tier == 'quick' else 12000):
            vr = lambda: rng.choice(((12, 13), (12, 13), (12, 12), (13, 13)))
            a, b = vr(), vr()
            s = list(SUITES)
            s.remove('DG')

            def suites():
                q = seq(s, 3)
                return q + [x for x in ('T1', 'EG') if not any(y[0] == 'T' if x == 'T1' else y[0] != 'T' for y in q)]

            def sigs():         # a context is only made from a configuration whose signature schemes fit its suites
                while True:
                    q = seq(list(SIGS), 3)
                    if any(x[0] == 'e' for x in q) and any(x[0] == 'p' for x in q):
                        return q
            cfg = {'dg': rng.random() < .25, 'cmin': a[0], 'cmax': a[1], 'smin': b[0], 'smax': b[1], 'fb': rng.random() < .1, 'cs': suites(),
                   'ss': suites(), 'pref': rng.random() < .5, 'creds': rng.choice((['ec'], ['rsa'], ['ec', 'rsa'])), 'cg': seq(list(GROUPS), 2),
                   'sg': seq(list(GROUPS), 2), 'csig': sigs(), 'ssig': sigs(), 'cems': rng.choice((-1, 0, 0, 1)),
                   'sems': rng.choice((-1, 0, 0, 1)), 'cetm': rng.random() < .7, 'setm': rng.random() < .7, 'calpn': rng.choice(([], ['a'], ['b', 'a'])),
                   'salpn': rng.choice((['a'], ['a', 'b'])), 'hasalpn': rng.random() < .6, 'alpnack': rng.random() < .5,
                   'sni': rng.choice(('none', 'host')), 'scb': rng.choice(('none', 'ok', 'noack', 'ok', 'fatal')),
                   'crl': rng.choice((0, 0, 64, 512, 16384)), 'srl': rng.choice((0, 0, 64, 700, 16385)), 'mitm': 'none'}
            out.append((cfg, [{'op': 'connect'}]))
        return out


PARTS = [Part(a) for a in ('ver', 'suite', 'group', 'sig', 'ext', 'mitm')] + [Mix()]


def setup():
    H.init([__file__, T.__file__])


def main():
    return R.run('C06', PARTS, setup=setup)

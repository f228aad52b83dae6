"""C07: peer authentication policy of TLS endpoints."""
import ctypes as ct, random, time
from lib import der, engine as E, hitls as H, runner as R, tls as T
from lib.hitls import K, L
#K: HITLS_X509_VFY_FLAG_CRL_DEV CERT_STORE_CTRL_SET_VERIFY_FLAGS CERT_STORE_CTRL_SET_VERIFY_DEPTH CERT_STORE_CTRL_SET_HOST CERT_STORE_CTRL_ADD_HOST
#K: HITLS_X509_ERR_ISSUE_CERT_NOT_FOUND HITLS_X509_ERR_ROOT_CERT_NOT_FOUND HITLS_X509_ERR_CHAIN_DEPTH_UP_LIMIT HITLS_X509_ERR_PROCESS_CRITICALEXT
#K: HITLS_X509_ERR_VFY_INVALID_CA HITLS_X509_ERR_VFY_INTERCA_INVALID_BCONS HITLS_X509_ERR_VFY_PURPOSE_UNMATCH HITLS_X509_ERR_VFY_NOTBEFORE_IN_FUTURE
#K: HITLS_X509_ERR_VFY_NOTAFTER_EXPIRED HITLS_X509_ERR_VFY_CERT_SIGN_FAIL HITLS_X509_ERR_VFY_CERT_REVOKED HITLS_X509_ERR_VFY_HOSTNAME_FAIL
#K: HITLS_CERT_ERR_VERIFY_CERT_CHAIN HITLS_X509_GET_ENCODELEN HITLS_X509_GET_ENCODE BSL_FORMAT_ASN1 HITLS_APP_VERIFY_CALLBACK_SUCCESS
WHY = {'ISSUE_CERT_NOT_FOUND': 'issuer', 'ROOT_CERT_NOT_FOUND': 'root', 'CHAIN_DEPTH_UP_LIMIT': 'depth', 'PROCESS_CRITICALEXT': 'critext', 'VFY_INVALID_CA': 'ca',
       'VFY_INTERCA_INVALID_BCONS': 'ca', 'VFY_PURPOSE_UNMATCH': 'purpose', 'VFY_NOTBEFORE_IN_FUTURE': 'early', 'VFY_NOTAFTER_EXPIRED': 'late',
       'VFY_CERT_SIGN_FAIL': 'sig', 'VFY_CERT_REVOKED': 'revoked', 'VFY_HOSTNAME_FAIL': 'host'}
VERIFY_CB = ct.CFUNCTYPE(ct.c_int32, ct.c_int32, ct.c_void_p)
APP_CB = ct.CFUNCTYPE(ct.c_int32, ct.c_void_p, ct.c_void_p)
REFUSED = 0x5a5a5
CB = {'pass': VERIFY_CB(lambda e, x: e), 'all': VERIFY_CB(lambda e, x: 0), 'none': VERIFY_CB(lambda e, x: e or REFUSED)}
APP = {'yes': APP_CB(lambda x, a: K.HITLS_APP_VERIFY_CALLBACK_SUCCESS), 'no': APP_CB(lambda x, a: 0)}
NOW = int(time.time())
DAY = 86400
MEMO = {}
UNKNOWN = '1.3.6.1.4.1.55555.7'
SERIAL = {'revoked': 66}


def ca(name, key, issuer, by, serial, nb=-30, na=30, isca=True):
    k, b = der.Key(key), der.Key(by)
    md = 'sm3' if b.type == 'sm2' else 'sha256'
    x = [der.x_ski(k.kid), der.x_aki(b.kid)] + ([der.x_bc(True), der.x_ku('cr')] if isca else [der.x_bc(False)])
    return der.cert(serial, der.name(issuer), der.name(name), NOW + nb * DAY, NOW + na * DAY, k, b, md=md, exts=x)


def identity(role, kind, fam):
    """(certificate, chain, private key) of a role ('srv', 'cli', or 'srve'/'clie' for the encryption pair of TLCP)"""
    m = (role, kind, fam)
    if m in MEMO:
        return MEMO[m]
    sm = fam == 'sm'
    base = role[:3]
    if sm:
        key = {'srv': 't', 'srve': 'u', 'cli': 'v', 'clie': 'u'}[role]
        by, issuer, chain = 's', 'Root', []
    else:
        key = ('r' if fam == 'rsa' else 'c') if role == 'srv' else 'd'
        by, issuer, chain = 'b', 'Int', [ca('Int', 'b', 'Root', 'a', 2)]
    nb, na, flip, isku, eku, more = -10, 10, False, 'se', ['server' if base == 'srv' else 'client'], []
    if sm:
        isku = 's' if len(role) == 3 else 'ed'
    if kind == 'evil':
        by, issuer, chain = ('v', 'Evil', []) if sm else ('e', 'Evil', [ca('Evil', 'e', 'Evil', 'e', 3)])
    elif kind == 'self':
        by, issuer, chain = key, base + '.example', []
    elif kind == 'expired':
        na = -1
    elif kind == 'future':
        nb = 1
    elif kind == 'noint':
        chain = []
    elif kind == 'sig':
        flip = True
    elif kind == 'eku':
        eku = ['client' if base == 'srv' else 'server']
    elif kind == 'ku':
        isku = 'n'
    elif kind == 'kenc':
        isku = 'e'
    elif kind == 'crit':
        more = [der.ext(UNKNOWN, b'\x05\x00', True)]
    elif kind == 'notca':
        chain = [ca('Int', 'b', 'Root', 'a', 4, isca=False)]
    elif kind == 'intexp':
        chain = [ca('Int', 'b', 'Root', 'a', 5, na=-2)]
    k, b = der.Key(key), der.Key(by)
    md = 'sm3' if b.type == 'sm2' else 'sha256'
    x = [der.x_ski(k.kid), der.x_aki(b.kid), der.x_bc(False), der.x_ku(isku), der.x_eku(eku), der.x_san([('dns', base + '.example')])] + more
    c = der.cert(SERIAL.get(kind, 10 + len(role)), der.name(issuer), der.name(base + '.example'), NOW + nb * DAY, NOW + na * DAY, k, b, md=md, exts=x, flip=flip)
    MEMO[m] = c, chain, open('%s/%s.p8' % (der.D, key), 'rb').read()
    return MEMO[m]


def the_crl(fam):
    if fam == 'sm':
        return der.crl(der.name('Root'), NOW - DAY, NOW + DAY, [(66, NOW - 3600, None)], der.Key('s'), md='sm3', exts=[der.x_aki(der.Key('s').kid)])
    return der.crl(der.name('Int'), NOW - DAY, NOW + DAY, [(66, NOW - 3600, None)], der.Key('b'), exts=[der.x_aki(der.Key('b').kid)])


class BB(ct.Structure):
    _fields_ = [('data', ct.c_void_p), ('len', ct.c_uint32)]


def cert_obj(d):
    b = H.buf(d)
    p = ct.c_void_p()
    r = L.HITLS_X509_CertParseBuff(K.BSL_FORMAT_ASN1, ct.byref(BB(ct.addressof(b), len(d))), ct.byref(p))
    assert r == 0, hex(r)
    return p


def alert_class(alerts):
    a = [d for lv, d in alerts if lv == 2]
    if not a:
        return ''
    if a[0] in (41, 42, 43, 44, 45, 46, 48, 49, 71):
        return 'cert'
    return 'need' if a[0] in (40, 116) else str(a[0])


class Drv:
    ends = ()
    cfgs = ()

    def reset(self, cfg):
        self.c = c = cfg
        self.fam = 'sm' if c['ver'] in ('tlcp', 'dtlcp') else 'rsa' if c['kx'] == 'rsa' else 'ec'
        self.cfgs = kc, ks = [T.Config(c['ver']) for _ in (0, 1)]
        root = ca('Root', 's', 'Root', 's', 1) if self.fam == 'sm' else ca('Root', 'a', 'Root', 'a', 1)
        for cf, p in ((kc, c['cp']), (ks, c['sp'])):
            cf.ok(L.HITLS_CFG_AddCertToStore(cf.p, cert_obj(root), K.TLS_CERT_STORE_TYPE_DEFAULT, False))
            if c['flat']:
                cf.ok(L.HITLS_CFG_AddCertToStore(cf.p, cert_obj(ca('Int', 'b', 'Root', 'a', 2)), K.TLS_CERT_STORE_TYPE_DEFAULT, False))
            cf.call('SetVerifyNoneSupport', p['vn'])
            if p['cb']:
                cf.call('SetVerifyCb', ct.cast(CB[p['cb']], ct.c_void_p))
            if p['app']:
                cf.call('SetCertVerifyCb', ct.cast(APP[p['app']], ct.c_void_p), None)
            cf.call('SetCheckKeyUsage', p['ku'])
            if p['depth']:
                cf.call('CtrlSetVerifyParams', None, K.CERT_STORE_CTRL_SET_VERIFY_DEPTH, ct.c_int64(p['depth']), None)
            if p['crl']:
                d = the_crl(self.fam)
                cf.call('LoadCrlBuffer', H.buf(d), len(d), K.TLS_PARSE_FORMAT_ASN1)
                cf.call('CtrlSetVerifyParams', None, K.CERT_STORE_CTRL_SET_VERIFY_FLAGS, ct.c_int64(K.HITLS_X509_VFY_FLAG_CRL_DEV), None)
            if p['host']:
                hs = {'srv': [b'srv.example'], 'other': [b'other.example'], 'two': [b'other.example', b'srv.example']}[p['host']]
                for j, h in enumerate(hs):
                    cf.call('CtrlSetVerifyParams', None, K.CERT_STORE_CTRL_ADD_HOST if j else K.CERT_STORE_CTRL_SET_HOST, ct.c_int64(0), h + b'\0')
        self.unable = False
        self.load(ks, 'srv', c['sc'], c['se'])
        if c['cc'] != 'none':
            self.load(kc, 'cli', c['cc'], c['ce'])
        if c['kx'] == 'rsa' and c['ver'] not in ('tls13', 'dtls13'):
            for cf in self.cfgs:
                cf.suites([0x9c])
        if self.fam == 'sm':
            for cf in self.cfgs:
                cf.suites([0xe013, 0xe053] if c['kx'] == 'ecc' else [0xe011, 0xe051])
        ks.call('SetClientVerifySupport', c['req'])
        ks.call('SetNoClientCertSupport', c['opt'])
        ks.call('SetClientOnceVerifySupport', c['once'])
        kc.call('SetPostHandshakeAuthSupport', c['cpha'])
        ks.call('SetPostHandshakeAuthSupport', c['spha'])
        if c['ver'] == 'tls12':
            for cf in self.cfgs:
                cf.call('SetRenegotiationSupport', True)
            ks.call('SetClientRenegotiateSupport', True)
        self.ends = [T.End(kc, True), T.End(ks, False)]
        self.state = 'new'

    def load(self, cf, role, kind, enc):
        d, chain, key = identity(role, kind, self.fam)
        if self.fam == 'sm':
            for r, k, e in ((role, kind, False), (role + 'e', enc, True)):
                if k == 'none':
                    continue
                d, _, key = identity(r, k, 'sm')
                cf.ok(L.HITLS_CFG_SetTlcpCertificate(cf.p, cert_obj(d), False, e))
                kp = L.HITLS_CFG_ParseKey(cf.p, H.buf(key), len(key), K.TLS_PARSE_TYPE_BUFF, K.TLS_PARSE_FORMAT_ASN1)
                assert kp
                cf.ok(L.HITLS_CFG_SetTlcpPrivateKey(cf.p, kp, False, e))
            return
        cf.call('LoadCertBuffer', H.buf(d), len(d), K.TLS_PARSE_FORMAT_ASN1)
        cf.call('LoadKeyBuffer', H.buf(key), len(key), K.TLS_PARSE_FORMAT_ASN1)
        for x in chain if not self.c['flat'] else ():
            cf.ok(L.HITLS_CFG_AddChainCert(cf.p, cert_obj(x), False))

    def close(self):
        for e in self.ends:
            e.free()
        for f in self.cfgs:
            f.free()
        self.ends = self.cfgs = ()

    def vr(self, e):
        v = ct.c_int32()
        if L.HITLS_GetVerifyResult(e.ctx, ct.byref(v)) != 0:
            return 'error'
        v = v.value
        if v == 0:
            return ''
        if v == REFUSED:
            return 'cb'
        if v == K.HITLS_CERT_ERR_VERIFY_CERT_CHAIN:
            return 'app'
        for n, w in WHY.items():
            if v == K.get('HITLS_X509_ERR_' + n):
                return w
        return hex(v)

    def peer(self, e):
        p = L.HITLS_GetPeerCertificate(e.ctx)
        if not p:
            return ''
        n = ct.c_uint32()
        q = ct.c_void_p()
        assert L.HITLS_X509_CertCtrl(p, K.HITLS_X509_GET_ENCODELEN, ct.byref(n), 4) == 0
        assert L.HITLS_X509_CertCtrl(p, K.HITLS_X509_GET_ENCODE, ct.byref(q), 8) == 0
        b = ct.string_at(q.value, n.value)
        L.HITLS_X509_CertFree(p)
        for r in ('srv', 'cli'):
            if any(m[0] == r and v[0] == b for m, v in MEMO.items()):
                return r
        return 'unknown'

    def ping(self):
        c, s = self.ends
        for a, b, m in ((c, s, b'from the client'), (s, c, b'from the server')):
            if a.write(m)[0] != 0:
                return False
            b.give(a.take())
            if b.read(100) != (0, m):
                return False
        return True

    def pump(self, tries=12):
        """both ends read until nothing moves"""
        c, s = self.ends
        for _ in range(tries):
            got = []
            for a, b in ((c, s), (s, c)):
                got.append(a.read(100))
                b.give(a.take())
            if not c.rx and not s.rx:
                break
        return got

    def do(self, i):
        op = i['op']
        if (op == 'hs') != (self.state == 'new') or self.state == 'down':
            return None
        c, s = self.ends
        if op == 'hs':
            rc, rs = T.handshake(c, s)
            if not T.again(rs) and rs and self.fam == 'sm' and self.c['se'] == 'none':
                self.state = 'down'
                return ['unable']
            return self.outcome(rc, rs)
        if op == 'data':
            return ['data', self.ping()]
        if op == 'ident':
            d, chain, key = identity('cli', i['k'], self.fam)
            assert L.HITLS_LoadCertBuffer(c.ctx, H.buf(d), len(d), K.TLS_PARSE_FORMAT_ASN1) == 0
            assert L.HITLS_LoadKeyBuffer(c.ctx, H.buf(key), len(key), K.TLS_PARSE_FORMAT_ASN1) == 0
            return ['set']
        if op == 'policy':
            assert L.HITLS_SetClientVerifySupport(s.ctx, i['req']) == 0 and L.HITLS_SetNoClientCertSupport(s.ctx, i['opt']) == 0
            assert L.HITLS_SetVerifyNoneSupport(s.ctx, i['vn']) == 0
            return ['set']
        if op == 'pha':
            if self.c['ver'] not in ('tls13', 'dtls13'):
                return None
            if L.HITLS_VerifyClientPostHandshake(s.ctx) != 0:
                return ['refused']
            s.alerts_tx.clear()
            s.write(b'data')
            c.give(s.take())
            self.pump()
            ok = self.ping()
            if not ok:
                self.state = 'down'
            return ['pha', ok, alert_class(s.alerts_tx), self.vr(s), self.peer(s) if ok else '']
        if op == 'reneg':
            if self.c['ver'] != 'tls12':
                return None
            a = c if i['by'] == 'cli' else s
            if L.HITLS_Renegotiate(a.ctx) != 0:
                return ['refused']
            b = s if a is c else c
            n = [e.done for e in self.ends]
            for _ in range(30):
                r = a.hs()
                b.give(a.take())
                if r != 0 and not T.again(r):
                    break
                q = b.read(100)
                a.give(b.take())
                if r == 0 or q[0] and not T.again(q[0]):
                    break
            for _ in range(3):
                self.pump()
            if not all(e.done > k for e, k in zip(self.ends, n)) or not self.ping():
                return self.outcome(1, 1)
            return self.outcome(0, 0)

    def outcome(self, rc, rs):
        c, s = self.ends
        done = [rc == 0, rs == 0]
        if done[1] != done[0]:
            self.pump()
        up = all(done) and self.ping()
        self.state = 'up' if up else 'down'
        r = []
        for e, d in zip(self.ends, done):
            r.append({'up': up, 'done': d, 'alert': alert_class(e.alerts_tx), 'vr': self.vr(e), 'peer': self.peer(e) if d else ''})
        return ['hs'] + r


class Part(R.Part):
    module = 'Auth'
    per_script = 30

    def __init__(self, aspect, depth, n):
        self.name, self.depth, self.n = aspect, depth, n

    def consts(self, tier):
        return {'Aspect': self.name, 'Depth': self.depth}

    def scripts(self, tier, rng, g):
        base = E.cover(g, rng=rng)
        n = self.n if tier == 'quick' else 10 ** 6
        if len(base) > n:
            base = rng.sample(base, n)
        return base

    def make(self):
        return Drv()


PARTS = [Part('server', 2, 700), Part('options', 1, 600), Part('client', 2, 900), Part('tlcp', 1, 500), Part('later', 4, 1500)]


def setup():
    H.init([__file__, T.__file__])


def main():
    return R.run('C07', PARTS, setup=setup)

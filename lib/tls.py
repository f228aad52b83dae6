"""Real HITLS endpoints over an in-memory transport, under full control of the driver."""
import ctypes as ct, os
from . import hitls as H, build as B
from .hitls import K, L
#K: BSL_UIO_TCP BSL_UIO_UDP BSL_UIO_IO_EXCEPTION BSL_UIO_IO_EOF BSL_UIO_FLAGS_RWS BSL_UIO_FLAGS_SHOULD_RETRY BSL_UIO_FLAGS_READ BSL_UIO_FLAGS_WRITE
#K: BSL_UIO_WRITE_CB BSL_UIO_READ_CB BSL_UIO_CTRL_CB BSL_UIO_UDP_GET_MTU_OVERHEAD BSL_UIO_UDP_QUERY_MTU BSL_UIO_UDP_MTU_EXCEEDED BSL_UIO_FLUSH
#K: HITLS_WANT_CONNECT HITLS_WANT_ACCEPT HITLS_WANT_READ HITLS_WANT_WRITE HITLS_ERR_TLS HITLS_ERR_SYSCALL TLS_PARSE_FORMAT_ASN1 TLS_CERT_STORE_TYPE_DEFAULT
#K: HITLS_REC_NORMAL_RECV_BUF_EMPTY HITLS_REC_NORMAL_IO_BUSY HITLS_CM_LINK_FATAL_ALERTED HITLS_CM_LINK_CLOSED HITLS_REC_ERR_IO_EXCEPTION
#K: INDICATE_EVENT_ALERT INDICATE_EVENT_READ INDICATE_EVENT_WRITE INDICATE_EVENT_HANDSHAKE_DONE INDICATE_EVENT_HANDSHAKE_START
#K: HITLS_VERSION_TLS12 HITLS_VERSION_TLS13 HITLS_VERSION_DTLS12 HITLS_VERSION_TLCP_DTLCP11 HITLS_X509_V_OK BSL_FORMAT_ASN1
#K: HITLS_REC_NORMAL_RECV_UNEXPECT_MSG HITLS_CM_LINK_UNESTABLISHED HITLS_CM_LINK_HANDSHAKING HITLS_REC_NORMAL_RECV_DISORDER_MSG
#K: HITLS_REC_ERR_NOT_SUPPORT_CIPHER

DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', 'tls')
WRITE_CB = ct.CFUNCTYPE(ct.c_int32, ct.c_void_p, ct.c_void_p, ct.c_uint32, ct.POINTER(ct.c_uint32))
CTRL_CB = ct.CFUNCTYPE(ct.c_int32, ct.c_void_p, ct.c_int32, ct.c_int32, ct.c_void_p)
INFO_CB = ct.CFUNCTYPE(None, ct.c_void_p, ct.c_int32, ct.c_int32)
MSG_CB = ct.CFUNCTYPE(None, ct.c_int32, ct.c_int32, ct.c_int32, ct.c_void_p, ct.c_uint32, ct.c_void_p, ct.c_void_p)
TIMER_CB = ct.CFUNCTYPE(ct.c_uint32, ct.c_void_p, ct.c_uint32)
KEYLOG_CB = ct.CFUNCTYPE(None, ct.c_void_p, ct.c_char_p)

_ready = False
_meth = {}
_by_uio = {}
_by_ctx = {}


def _write(uio, p, n, out):
    e = _by_uio[uio]
    return e.io_write(ct.string_at(p, n), out)


def _read(uio, p, n, out):
    return _by_uio[uio].io_read(p, n, out)


def _ctrl(uio, cmd, larg, parg):
    return _by_uio[uio].io_ctrl(cmd, larg, parg)


def _info(ctx, ev, val):
    e = _by_ctx.get(ctx)
    if e is not None:
        e.on_info(ev, val)


def _msg(wp, ver, typ, p, n, ctx, arg):
    e = _by_ctx.get(ctx)
    if e is not None:
        e.on_msg(wp, ver, typ, ct.string_at(p, n) if p and n else b'')


def _keylog(ctx, line):
    e = _by_ctx.get(ctx)
    if e is not None:
        e.on_keylog(line.decode())


WCB, RCB, CCB, ICB, MCB, KCB = WRITE_CB(_write), WRITE_CB(_read), CTRL_CB(_ctrl), INFO_CB(_info), MSG_CB(_msg), KEYLOG_CB(_keylog)


def setup():
    """once per process, after H.init"""
    global _ready
    if _ready:
        return
    L.HITLS_CertMethodInit()
    L.HITLS_CryptMethodInit()
    for t in (K.BSL_UIO_TCP, K.BSL_UIO_UDP):
        m = L.BSL_UIO_NewMethod()
        L.BSL_UIO_SetMethodType(m, t)
        for typ, f in ((K.BSL_UIO_WRITE_CB, WCB), (K.BSL_UIO_READ_CB, RCB), (K.BSL_UIO_CTRL_CB, CCB)):
            assert L.BSL_UIO_SetMethod(m, typ, ct.cast(f, ct.c_void_p)) == 0
        _meth[t] = m
    _ready = True


def data(name):
    return open(os.path.join(DATA, name), 'rb').read()


def cert_obj(name):
    p = ct.c_void_p()
    d = data(name + '.crt')
    b = H.buf(d)
    r = L.HITLS_CFG_ParseCert
    # parse through the PKI interface
    class BB(ct.Structure):
        _fields_ = [('data', ct.c_void_p), ('len', ct.c_uint32)]
    bb = BB(ct.addressof(b), len(d))
    r = L.HITLS_X509_CertParseBuff(K.BSL_FORMAT_ASN1, ct.byref(bb), ct.byref(p))
    assert r == 0, (name, hex(r))
    return p


def key_obj(cfg, name):
    d = data(name + '.key')
    p = L.HITLS_CFG_ParseKey(cfg, H.buf(d), len(d), K.TLS_PARSE_TYPE_BUFF, K.TLS_PARSE_FORMAT_ASN1)
    return p


NEW = {'tls12': 'HITLS_CFG_NewTLS12Config', 'tls13': 'HITLS_CFG_NewTLS13Config', 'tls': 'HITLS_CFG_NewTLSConfig', 'tlcp': 'HITLS_CFG_NewTLCPConfig',
       'dtls12': 'HITLS_CFG_NewDTLS12Config', 'dtls13': 'HITLS_CFG_NewDTLS13Config', 'dtls': 'HITLS_CFG_NewDTLSConfig', 'dtlcp': 'HITLS_CFG_NewDTLCPConfig'}


def u16s(xs):
    return (ct.c_uint16 * max(1, len(xs)))(*xs)


class Config:
    """a HITLS_Config with certificates of data/tls"""

    def __init__(self, kind):
        setup()
        self.kind = kind
        self.p = getattr(L, NEW[kind])()
        assert self.p
        self.keep = []
        L.HITLS_CFG_SetInfoCb(self.p, ct.cast(ICB, ct.c_void_p))
        L.HITLS_CFG_SetMsgCb(self.p, ct.cast(MCB, ct.c_void_p))
        L.HITLS_CFG_SetKeyLogCb(self.p, ct.cast(KCB, ct.c_void_p))

    def ok(self, r):
        assert r == 0, hex(r)
        return self

    def call(self, name, *a):
        self.ok(getattr(L, 'HITLS_CFG_' + name)(self.p, *a))
        return self

    def trust(self, *names):
        for n in names:
            c = cert_obj(n)
            self.ok(L.HITLS_CFG_AddCertToStore(self.p, c, K.TLS_CERT_STORE_TYPE_DEFAULT, False))
        return self

    def ident(self, name):
        d = data(name + '.crt')
        self.ok(L.HITLS_CFG_LoadCertBuffer(self.p, H.buf(d), len(d), K.TLS_PARSE_FORMAT_ASN1))
        d = data(name + '.key')
        self.ok(L.HITLS_CFG_LoadKeyBuffer(self.p, H.buf(d), len(d), K.TLS_PARSE_FORMAT_ASN1))
        return self

    def chain(self, *names):
        for n in names:
            self.ok(L.HITLS_CFG_AddChainCert(self.p, cert_obj(n), False))
        return self

    def tlcp(self, base):
        for enc, suf in ((False, '_sign'), (True, '_enc')):
            self.ok(L.HITLS_CFG_SetTlcpCertificate(self.p, cert_obj(base + suf), False, enc))
            k = key_obj(self.p, base + suf)
            assert k
            self.ok(L.HITLS_CFG_SetTlcpPrivateKey(self.p, k, False, enc))
        return self

    def suites(self, xs):
        return self.call('SetCipherSuites', u16s(xs), len(xs))

    def groups(self, xs):
        return self.call('SetGroups', u16s(xs), len(xs))

    def sigs(self, xs):
        return self.call('SetSignature', u16s(xs), len(xs))

    def free(self):
        if self.p:
            L.HITLS_CFG_FreeConfig(self.p)
            self.p = None


class End:
    """one endpoint. `tx`: what it wrote (stream: bytearray; datagram: list); `rx`: what it may read."""

    def __init__(self, cfg, client, dgram=None):
        setup()
        self.cfg = cfg
        self.client = client
        self.dgram = cfg.kind.startswith('d') if dgram is None else dgram
        self.tx = [] if self.dgram else bytearray()
        self.rx = [] if self.dgram else bytearray()
        self.log = bytearray()
        self.room = None        # writable bytes (None: unlimited)
        self.eof = False
        self.broken = False     # writes fail
        self.alerts_tx, self.alerts_rx, self.msgs, self.keylog, self.done = [], [], [], {}, 0
        self.mtu_exceeded = False
        self.tap = None
        self.ctx = L.HITLS_New(cfg.p)
        assert self.ctx
        t = K.BSL_UIO_UDP if self.dgram else K.BSL_UIO_TCP
        self.uio = L.BSL_UIO_New(_meth[t])
        L.BSL_UIO_SetInit(self.uio, True)
        _by_uio[self.uio] = self
        _by_ctx[self.ctx] = self
        r = L.HITLS_SetUio(self.ctx, self.uio)
        assert r == 0, hex(r)

    def free(self):
        if self.ctx:
            L.HITLS_Free(self.ctx)
            L.BSL_UIO_Free(self.uio)
            _by_uio.pop(self.uio, None)
            _by_ctx.pop(self.ctx, None)
            self.ctx = None

    # ------------------------------------------------------------------ transport
    def io_write(self, b, out):
        out[0] = 0
        L.BSL_UIO_ClearFlags(self.uio, K.BSL_UIO_FLAGS_RWS | K.BSL_UIO_FLAGS_SHOULD_RETRY)
        if self.broken:
            return K.BSL_UIO_IO_EXCEPTION
        n = len(b)
        if self.room is not None:
            if self.dgram:
                n = n if self.room > 0 else 0
                self.room -= 1 if n else 0
            else:
                n = min(n, self.room)
                self.room -= n
        if n == 0 and b:
            L.BSL_UIO_SetFlags(self.uio, K.BSL_UIO_FLAGS_WRITE | K.BSL_UIO_FLAGS_SHOULD_RETRY)
            return 0
        if self.dgram:
            self.tx.append(b)
        else:
            self.tx += b[:n]
            self.log += b[:n]
        out[0] = n
        return 0

    def io_read(self, p, n, out):
        out[0] = 0
        L.BSL_UIO_ClearFlags(self.uio, K.BSL_UIO_FLAGS_RWS | K.BSL_UIO_FLAGS_SHOULD_RETRY)
        if not self.rx:
            if self.eof:
                return K.BSL_UIO_IO_EOF
            L.BSL_UIO_SetFlags(self.uio, K.BSL_UIO_FLAGS_READ | K.BSL_UIO_FLAGS_SHOULD_RETRY)
            return 0
        if self.dgram:
            b = self.rx.pop(0)[:n]
        else:
            b = bytes(self.rx[:n])
            del self.rx[:n]
        ct.memmove(p, b, len(b))
        out[0] = len(b)
        return 0

    def io_ctrl(self, cmd, larg, parg):
        if cmd == K.BSL_UIO_UDP_GET_MTU_OVERHEAD:
            ct.cast(parg, ct.POINTER(ct.c_uint8))[0] = 28
        elif cmd == K.BSL_UIO_UDP_QUERY_MTU:
            ct.cast(parg, ct.POINTER(ct.c_uint32))[0] = 1472
        elif cmd == K.BSL_UIO_UDP_MTU_EXCEEDED:
            ct.cast(parg, ct.POINTER(ct.c_bool))[0] = self.mtu_exceeded
        return 0

    def take(self):
        if self.dgram:
            t, self.tx = self.tx, []
        else:
            t = bytes(self.tx)
            self.tx = bytearray()
        return t

    def give(self, x):
        if self.dgram:
            self.rx += x if isinstance(x, list) else [x]
        else:
            self.rx += x

    # ------------------------------------------------------------------ observation
    def on_info(self, ev, val):
        if ev & K.INDICATE_EVENT_ALERT:
            (self.alerts_tx if ev & K.INDICATE_EVENT_WRITE else self.alerts_rx).append((val >> 8 & 0xff, val & 0xff))
        if ev & K.INDICATE_EVENT_HANDSHAKE_DONE:
            self.done += 1

    def on_msg(self, wp, ver, typ, b):
        self.msgs.append((wp, typ, b))

    def on_keylog(self, line):
        w = line.split()
        if len(w) == 3:
            self.keylog.setdefault(w[0], []).append(bytes.fromhex(w[2]))

    # ------------------------------------------------------------------ calls
    def hs(self):
        return (L.HITLS_Connect if self.client else L.HITLS_Accept)(self.ctx)

    def read(self, n, peek=False):
        b = H.buf(n)
        l = ct.c_uint32()
        r = (L.HITLS_Peek if peek else L.HITLS_Read)(self.ctx, b, n, ct.byref(l))
        return r, bytes(b[:l.value])

    def write(self, d):
        l = ct.c_uint32()
        r = L.HITLS_Write(self.ctx, H.buf(d), len(d), ct.byref(l))
        return r, l.value

    def close(self):
        return L.HITLS_Close(self.ctx)

    def get(self, name, typ):
        v = typ()
        r = getattr(L, 'HITLS_' + name)(self.ctx, ct.byref(v))
        return v.value if r == 0 else None

    def version(self):
        return self.get('GetNegotiatedVersion', ct.c_uint16)

    def suite(self):
        p = L.HITLS_GetCurrentCipher(self.ctx)
        if not p:
            return None
        v = ct.c_uint16()
        return v.value if L.HITLS_CFG_GetCipherSuite(p, ct.byref(v)) == 0 else None

    def is_done(self):
        return self.get('IsHandShakeDone', ct.c_bool)

    def export(self, label=b'verif', n=32, ctx=None):
        b = H.buf(n)
        r = L.HITLS_ExportKeyingMaterial(self.ctx, b, n, H.buf(label), len(label), H.buf(ctx) if ctx is not None else None,
                                         len(ctx) if ctx is not None else 0, 1 if ctx is not None else 0)
        return bytes(b) if r == 0 else None


RETRY = None


def again(r):
    """a result that only asks for more input/room"""
    return r in (K.HITLS_REC_NORMAL_RECV_BUF_EMPTY, K.HITLS_REC_NORMAL_IO_BUSY)


def handshake(c, s, rounds=200, on_idle=None):
    """both ends to completion over a perfect network: (client result, server result)"""
    rc = rs = None
    for _ in range(rounds):
        if rc is None or again(rc):
            rc = c.hs()
        s.give(c.take())
        if rs is None or again(rs):
            rs = s.hs()
        c.give(s.take())
        if rc is not None and not again(rc) and rs is not None and not again(rs):
            break
        if not c.rx and not s.rx and again(rc) and again(rs):
            if on_idle is None or not on_idle():
                break
    return rc, rs


def std_config(kind, server, alg='ec', verify_client=False):
    """the usual configuration: `alg` credentials, trust anchored at the CA"""
    c = Config(kind)
    if alg == 'sm13':             # RFC 8998
        c.trust('sm2_ca').call('EnableTls13SM', True)
        if server or verify_client:
            c.ident('sm2_srv_sign' if server else 'sm2_cli_sign')
    elif kind in ('tlcp', 'dtlcp'):
        c.trust('sm2_ca')
        if server or verify_client:
            c.tlcp('sm2_srv' if server else 'sm2_cli')
    else:
        c.trust(alg + '_ca', *([alg + '_int'] if alg in ('ec', 'rsa') else []))
        if server or verify_client:
            c.ident(alg + ('_srv' if server else '_cli'))
    if server:
        c.call('SetClientVerifySupport', verify_client)

    return c

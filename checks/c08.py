"""C08: session resumption."""
import ctypes as ct, time
from lib import engine as E, hitls as H, runner as R, tls as T
from lib.hitls import K, L
#K: HITLS_EMS_MODE_PREFER HITLS_EMS_MODE_FORCE HITLS_EMS_MODE_FORBID BSL_SAL_TIME_GET_UTC_TIME_CB_FUNC HITLS_SESS_ERR_NOT_FOUND HITLS_X509_GET_ENCODELEN HITLS_X509_GET_ENCODE
#K: HITLS_SESS_CACHE_NO HITLS_SESS_CACHE_SERVER HITLS_SESS_CACHE_CLIENT HITLS_SESS_CACHE_BOTH HITLS_SESS_DISABLE_INTERNAL_STORE HITLS_SESS_DISABLE_INTERNAL_LOOKUP
#K: HITLS_SESS_DISABLE_AUTO_CLEANUP HITLS_SESS_ENABLE_TIME_UPDATE HITLS_ACCEPT_SNI_ERR_OK
EMS = {'prefer': 'PREFER', 'force': 'FORCE', 'forbid': 'FORBID'}
S12 = {'A': 0xc02b, 'B': 0xc02c, 'C': 0xcca9}
S13 = {'A': 0x1301, 'B': 0x1302, 'C': 0x1303}
STL = {'A': 0xe053, 'B': 0xe013}
VER = {0x0303: '12', 0x0304: '13', 0x0101: 'tlcp', 0xfefd: '12', 0xfefc: '13'}
NOW = int(time.time())
CLOCK = [0]
TIME_CB = ct.CFUNCTYPE(ct.c_int64)
TCB = TIME_CB(lambda: NOW + CLOCK[0])
SNI_CB = ct.CFUNCTYPE(ct.c_int32, ct.c_void_p, ct.POINTER(ct.c_int), ct.c_void_p)
SNI = SNI_CB(lambda ctx, al, arg: K.HITLS_ACCEPT_SNI_ERR_OK)
GET_CB = ct.CFUNCTYPE(ct.c_void_p, ct.c_void_p, ct.c_void_p, ct.c_uint32, ct.POINTER(ct.c_int32))
NEW_CB = ct.CFUNCTYPE(ct.c_int32, ct.c_void_p, ct.c_void_p)
REM_CB = ct.CFUNCTYPE(None, ct.c_void_p, ct.c_void_p)
CUR = [None]


def sess_id(p):
    b, n = H.buf(32), ct.c_uint32(32)
    return bytes(b[:n.value]) if L.HITLS_SESS_GetSessionId(ct.c_void_p(p), b, ct.byref(n)) == 0 else b''


def on_new(ctx, p):
    d = CUR[0]
    if d is None or ctx != d.sctx:
        return 0
    i = sess_id(p)
    if i in d.store:
        L.HITLS_SESS_Free(ct.c_void_p(d.store[i]))
    d.store[i] = p
    return 1


def on_get(ctx, i, n, copy):
    p = CUR[0].store.get(ct.string_at(i, n))
    copy[0] = 1
    return p or 0


def on_remove(cfg, p):
    d = CUR[0]
    if d is not None:
        q = d.store.pop(sess_id(p), None)
        if q:
            d.junk.append(q)


GCB, NCB, RCB = GET_CB(on_get), NEW_CB(on_new), REM_CB(on_remove)


def raw(name):
    """an internal function of the library"""
    f = next(getattr(l, name) for l in L._libs if hasattr(l, name))
    f.restype = ct.c_int32
    return f


def set_ticket(p, t):
    assert raw('SESS_SetTicket')(p, H.buf(t), ct.c_uint32(len(t))) == 0


def ticket_of(p):
    q, n = ct.c_void_p(), ct.c_uint32()
    assert raw('SESS_GetTicket')(p, ct.byref(q), ct.byref(n)) == 0
    return ct.string_at(q.value, n.value) if n.value else b''


def master(p):
    b, n = H.buf(64), ct.c_uint32(64)
    return bytes(b[:n.value]) if L.HITLS_SESS_GetMasterKey(p, b, ct.byref(n)) == 0 else b''


class Drv:
    live = False

    def reset(self, cfg):
        self.c = c = cfg
        CLOCK[0] = 0
        L.BSL_SAL_CallBack_Ctrl(K.BSL_SAL_TIME_GET_UTC_TIME_CB_FUNC, ct.cast(TCB, ct.c_void_p))
        self.live = True
        self.slot = {}
        self.store, self.junk, self.sctx = {}, [], None
        CUR[0] = self
        self.srv = {}
        self.masters = {}
        self.keys = {g: bytes((g * 31 + k) % 251 for k in range(80)) for g in (1, 2, 3)}
        for s in (1, 2):
            k = T.std_config(c['ver'], True)
            self.suites(k, 'ABC')
            if c['ver'] not in ('tlcp', 'dtlcp'):
                k.trust('rsa_ca', 'rsa_int')
            k.call('SetClientVerifySupport', True).call('SetNoClientCertSupport', True)
            k.call('SetSessionTicketSupport', c['tick'])
            k.call('SetSessionTicketKey', H.buf(self.keys[s]), 80)
            m = {'server': K.HITLS_SESS_CACHE_SERVER, 'both': K.HITLS_SESS_CACHE_BOTH, 'no': K.HITLS_SESS_CACHE_NO, 'client': K.HITLS_SESS_CACHE_CLIENT,
                 'update': K.HITLS_SESS_CACHE_SERVER | K.HITLS_SESS_ENABLE_TIME_UPDATE, 'noclean': K.HITLS_SESS_CACHE_SERVER | K.HITLS_SESS_DISABLE_AUTO_CLEANUP,
                 'ext': K.HITLS_SESS_CACHE_SERVER | K.HITLS_SESS_DISABLE_INTERNAL_LOOKUP, 'extall': K.HITLS_SESS_CACHE_SERVER}[c['mode']]
            k.call('SetSessionCacheMode', m)
            if c['mode'] in ('ext', 'extall'):
                k.call('SetNewSessionCb', ct.cast(NCB, ct.c_void_p)).call('SetSessionGetCb', ct.cast(GCB, ct.c_void_p)).call('SetSessionRemoveCb', ct.cast(RCB, ct.c_void_p))
            if c['size']:
                k.call('SetSessionCacheSize', c['size'])
            k.call('SetSessionTimeout', ct.c_uint64(c['life']))
            k.call('SetSessionIdCtx', b'ctx-0', 5)
            if c['ems'] != 'prefer':
                k.call('SetExtendedMasterSecretMode', K.get('HITLS_EMS_MODE_' + EMS[c['ems']]))
            if c['snicb']:
                k.call('SetServerNameCb', ct.cast(SNI, ct.c_void_p))
            self.srv[s] = k

    def suites(self, k, letters):
        kind = k.kind
        if kind in ('tlcp', 'dtlcp'):
            return k.suites([STL[x] for x in letters if x in STL])
        xs = []
        if kind in ('tls13', 'tls', 'dtls13', 'dtls'):
            xs += [S13[x] for x in letters]
        if kind in ('tls12', 'tls', 'dtls12', 'dtls'):
            xs += [S12[x] for x in letters]
        return k.suites(xs)

    def close(self):
        if not self.live:
            return
        self.live = False
        CUR[0] = None
        for p in list(self.store.values()) + self.junk:
            L.HITLS_SESS_Free(ct.c_void_p(p))
        for p in self.slot.values():
            L.HITLS_SESS_Free(p)
        for k in self.srv.values():
            k.free()
        self.slot, self.srv = {}, {}
        CLOCK[0] = 0

    def put(self, n, p):
        if n in self.slot:
            L.HITLS_SESS_Free(self.slot[n])
        self.slot[n] = p

    def clone(self, p):
        t = ticket_of(p)
        q = self.recode(p)
        if q is not None and t:
            set_ticket(q, t)
        return q

    def recode(self, p):
        n = ct.c_uint32()
        assert L.HITLS_SESS_Encode(p, None, 0, ct.byref(n)) == 0
        b = H.buf(n.value)
        u = ct.c_uint32()
        assert L.HITLS_SESS_Encode(p, b, n.value, ct.byref(u)) == 0
        q = ct.c_void_p()
        if L.HITLS_SESS_Decode(ct.byref(q), b, u.value) != 0:
            return None
        return q

    def view(self, p):
        v, s, e = ct.c_uint16(), ct.c_uint16(), ct.c_bool()
        assert L.HITLS_SESS_GetProtocolVersion(p, ct.byref(v)) == 0 and L.HITLS_SESS_GetCipherSuite(p, ct.byref(s)) == 0
        assert L.HITLS_SESS_GetHaveExtMasterSecret(p, ct.byref(e)) == 0
        n = [k for t in (S12, S13, STL) for k, x in t.items() if x == s.value]
        return {'ver': VER.get(v.value, hex(v.value)), 'suite': n[0] if n else hex(s.value), 'ems': e.value, 'life': L.HITLS_SESS_GetTimeout(p),
                'tk': bool(L.HITLS_SESS_HasTicket(p)), 'ok': bool(L.HITLS_SESS_IsResumable(p))}

    def peer(self, e):
        p = L.HITLS_GetPeerCertificate(e.ctx)
        if not p:
            return ''
        n, q = ct.c_uint32(), ct.c_void_p()
        assert L.HITLS_X509_CertCtrl(p, K.HITLS_X509_GET_ENCODELEN, ct.byref(n), 4) == 0
        assert L.HITLS_X509_CertCtrl(p, K.HITLS_X509_GET_ENCODE, ct.byref(q), 8) == 0
        b = ct.string_at(q.value, n.value)
        L.HITLS_X509_CertFree(p)
        for name, who in (('ec_srv', 'srv'), ('ec_cli', 'ec'), ('rsa_cli', 'rsa'), ('sm2_srv_sign', 'srv'), ('sm2_cli_sign', 'sm')):
            if T.data(name + '.crt') == b:
                return who
        return 'unknown'

    def ping(self, c, s):
        for a, b, m in ((c, s, b'from the client'), (s, c, b'from the server'), (c, s, b'and again')):
            if a.write(m)[0] != 0:
                return False
            b.give(a.take())
            r = b.read(100)
            for _ in range(3):
                if r[0] and T.again(r[0]) and b.rx:
                    r = b.read(100)
            a.give(b.take())
            if r != (0, m):
                return False
        return True

    def conn(self, i):
        k = T.std_config(i['ver'], False)
        c = s = None
        try:
            self.suites(k, i['suites'])
            k.call('SetSessionTicketSupport', i['tick'])
            if i['ver'] not in ('tlcp', 'dtlcp'):
                k.call('SetExtendedMasterSecretMode', K.get('HITLS_EMS_MODE_' + EMS[i['ems']]))
            k.call('SetSessionTimeout', ct.c_uint64(i['clife']))
            if i['sni']:
                b = i['sni'].encode() + b'.example'
                k.call('SetServerName', H.buf(b), len(b))
            if i['who'] == 'sm':
                k.tlcp('sm2_cli')
            elif i['who']:
                k.ident(i['who'] + '_cli')
            c, s = T.End(k, True), T.End(self.srv[i['srv']], False)
            self.sctx = s.ctx
            if i['sl']:
                if i['sl'] not in self.slot:
                    return None
                r = L.HITLS_SetSession(c.ctx, self.slot[i['sl']])
                assert r == 0, hex(r)
            rc, rs = T.handshake(c, s)
            if rc or rs:
                a = [d for lv, d in s.alerts_tx + c.alerts_tx if lv == 2]
                for _ in range(2):
                    for x, y in ((c, s), (s, c)):
                        y.give(x.take())
                        x.read(10)
                return ['failed', str(a[0]) if a else '']
            up = self.ping(c, s)
            ru = [e.get('IsSessionReused', ct.c_bool) for e in (c, s)]
            kind = 'resumed' if all(ru) else 'mixed' if any(ru) else 'full'
            p = ct.c_void_p(L.HITLS_GetDupSession(c.ctx))
            m = master(p) if p.value else b''
            old = next((n for n, x in self.masters.items() if x == m), '')
            v = self.view(p) if p.value else None
            if v is None:
                return ['nosession']
            if p.value and not old:
                self.masters[len(self.masters)] = m
            keys = c.export() == s.export() is not None and up
            out = ['conn', kind, VER.get(s.version(), '?'), next((x for t in (S12, S13, STL) for x, y in t.items() if y == s.suite()), '?'),
                   self.peer(c), self.peer(s), keys, 'old' if old != '' else 'new', v]
            if i['put']:
                self.put(i['put'], self.clone(p) if i['keep'] == 'copy' else p)
                if i['keep'] == 'copy':
                    L.HITLS_SESS_Free(p)
            else:
                L.HITLS_SESS_Free(p)
            if i['end'] == 'clean':
                c.close()
                s.give(c.take())
                s.read(10)
                s.close()
                c.give(s.take())
                c.read(10)
            elif i['end'] == 'bad':
                if c.dgram:
                    s.give([b'\x15\xfe\xfd' + b'\0\1' + b'\0' * 6 + b'\0\x20' + b'z' * 32])
                else:
                    s.give(b'\x17\x03\x03\0\x20' + b'z' * 32)
                s.read(10)
                c.give(s.take())
                c.read(10)
            return out
        finally:
            for e in (c, s):
                if e:
                    e.free()
            self.sctx = None
            k.free()

    def do(self, i):
        op = i['op']
        if op == 'conn':
            return self.conn(i)
        if op == 'tick':
            CLOCK[0] += i['n']
            return ['ok']
        if op in ('key', 'idctx', 'life', 'sems', 'purge', 'clean'):
            k = self.srv[i['srv']]
            if op == 'key':
                k.call('SetSessionTicketKey', H.buf(self.keys[i['n']]), 80)
                b, n = H.buf(80), ct.c_uint32()
                k.call('GetSessionTicketKey', b, 80, ct.byref(n))
                return ['key', bytes(b[:n.value]) == self.keys[i['n']]]
            if op == 'idctx':
                x = {0: b'ctx-0', 1: b'ctx-1', 2: b'ctx-', 3: b''}[i['n']]
                k.call('SetSessionIdCtx', x if x else H.buf(1), len(x))
                return ['ok']
            if op == 'life':
                k.call('SetSessionTimeout', ct.c_uint64(i['n']))
                return ['ok']
            if op == 'sems':
                k.call('SetExtendedMasterSecretMode', i['n'])
                return ['ok']
            k.call('ClearTimeoutSession', ct.c_uint64(0 if op == 'purge' else NOW + CLOCK[0]))
            return ['ok']
        if i['sl'] not in self.slot:
            return None
        p = self.slot[i['sl']]
        if op == 'remove':
            r = L.HITLS_CFG_RemoveSession(self.srv[i['srv']].p, p)
            return ['removed' if r == 0 else 'absent']
        if op == 'stretch':
            assert L.HITLS_SESS_SetTimeout(p, ct.c_uint64(10 ** 6)) == 0
            return ['ok']
        if op == 'codec':
            q = self.recode(p)
            if q is None:
                return ['error']
            m = master(q) == master(p)
            self.put(i['sl'], q)
            return ['codec', m, self.view(q)]
        if op == 'tamper':
            t = bytearray(ticket_of(p))
            if len(t) < 100:
                return None
            w = i['w']
            if w == 'short':
                t = t[:-1]
                t[-1] = (t[-1] + 1) & 255   # two changes must not undo each other
            elif w == 'long':
                t += b'\0\0'
            elif w == 'nomac':
                t = t[:-32]
            elif w == 'cut':
                t = t[:20]
            else:
                k = {'name': 3, 'iv': 18, 'len': 35, 'first': 36, 'mid': len(t) // 2, 'endct': -33, 'mac': -32, 'last': -1}[w]
                t[k] = (t[k] + 1) & 255
            q = self.clone(p)
            set_ticket(q, bytes(t))
            self.put(i['sl'], q)
            return ['ok']
        raise ValueError(op)


class Part(R.Part):
    module = 'Resume'
    per_script = 30

    def __init__(self, aspect, depth, n, walks=0, length=7):
        self.name, self.depth, self.n, self.walks, self.length = aspect, depth, n, walks, length

    def consts(self, tier):
        return {'Aspect': self.name, 'Depth': self.depth}

    def scripts(self, tier, rng, g):
        base = E.cover(g, rng=rng)
        n, w = (self.n, self.walks) if tier == 'quick' else (30000, self.walks * 40)
        if len(base) > n:
            base = rng.sample(base, n)
        # longer histories: any sequence of the steps that occur in the model of this configuration
        alpha = {}
        for cfg, fp in g.inits:
            seen, todo, ops = {fp}, [fp], {}
            while todo:
                for i, o, t in g.edges.get(todo.pop(), ()):
                    ops.setdefault((i['op'], i.get('sl', 0) > 0), {})[E.key(i)] = i
                    if t not in seen:
                        seen.add(t)
                        todo.append(t)
            alpha[fp] = [sorted(v.values(), key=E.key) for _, v in sorted(ops.items())]
        for _ in range(w):
            cfg, fp = rng.choice(g.inits)
            a = alpha[fp]
            first = [q for q in a if q[0]['op'] == 'conn' and not q[0]['sl']][0]
            again = [q for q in a if q[0]['op'] == 'conn' and q[0]['sl']]
            base.append((cfg, [rng.choice(first)] + [rng.choice(rng.choice(again if again and rng.random() < .35 else a)) for _ in range(self.length)]))
        return base

    def make(self):
        return Drv()


PARTS = [Part('param', 2, 900), Part('life', 3, 300, 500), Part('ticket', 2, 300, 500), Part('cache', 2, 300, 500)]


def setup():
    H.init([__file__, T.__file__])


def main():
    return R.run('C08', PARTS, setup=setup)

"""
Explicit-state model of the TLS 1.3 handshake (RFC 8446 appendix A) as a product with the real
implementation: the model knows, in every stage, which of a fixed alphabet of wire events is legal;
each event is built for real by the puppet of ref.py and delivered to a real connection.
"""
from . import env, impl, pki, ref  # noqa: F401
from .engine import need
from .ref import (
    ALERT, APPDATA, CCS, CERT, CERT_REQ, CERT_VERIFY, EE, EOED, FINISHED, HANDSHAKE, HEARTBEAT,
    KEY_UPDATE, MESSAGE_HASH, NST, SERVER_HELLO, hs, rec, v8, v16, v24, u8, u16,
)

ACCEPT, REJECT, EITHER, CLOSE, STAY = 'accept', 'reject', 'either', 'close', 'stay'

# handshake messages that are never legal for the receiver, with a well formed body
FOREIGN = {
    'hs_hello_request': hs(0, b''),
    'hs_eoed': hs(EOED, b''),
    'hs_ee': hs(EE, v16(b'')),
    'hs_cert_empty': hs(CERT, v8(b'') + v24(b'')),
    'hs_cert_req': hs(CERT_REQ, v8(b'') + ref.exts([ref.x_sigalgs(ref.ALL_SIGALGS)])),
    'hs_cv': hs(CERT_VERIFY, u16(ref.EC256) + v16(b'\x30' * 70)),
    'hs_nst': hs(NST, b'\0\0\1\0' + b'\0\0\0\1' + v8(b'n') + v16(b'ticket') + v16(b'')),
    'hs_ku': hs(KEY_UPDATE, b'\0'),
    'hs_ku_req': hs(KEY_UPDATE, b'\1'),
    'hs_msg_hash': hs(MESSAGE_HASH, bytes(32)),
    'hs_unknown': hs(99, b'what'),
    'hs_fin32': hs(FINISHED, bytes(32)),
    'hs_fin48': hs(FINISHED, bytes(48)),
}
RAW = {
    'ccs': (CCS, b'\1'), 'ccs2': (CCS, b'\1'), 'ccs_bad': (CCS, b'\2'), 'ccs_long': (CCS, b'\1\1'),
    'ct_zero': (0, b'zero'), 'ct_unknown': (99, b'unknown'), 'ct_255': (255, b'\1'),
    'app': (APPDATA, b'application data'), 'app_empty': (APPDATA, b''),
    'heartbeat': (HEARTBEAT, b'\1' + v16(b'ping') + bytes(16)),
    'hs_empty_record': (HANDSHAKE, b''),
    'cancel': (ALERT, b'\1\x5a'), 'close': (ALERT, b'\1\0'),
    'alert': (ALERT, b'\2\x28'), 'alert_warn_level': (ALERT, b'\1\x28'),
}


MANY = {'cancel40': 'cancel', 'ccs40': 'ccs', 'app_empty40': 'app_empty', 'hs_nst40': 'hs_nst'}


def pki_cert():
    return ref.RefServer(*pki.leaf()).cert_raw()


class World:
    """ One connection under test and its puppet, plus the stage of the model. """
    role = None

    def __init__(self):
        self.stage = self.FIRST
        self.hist = []

    # -- building events ----------------------------------------------
    def current(self, ctype, data):
        return self.peer.send(ctype, data)

    def build(self, sym):
        if sym in MANY:                # the same again and again, in a single read
            parts = [self.build(MANY[sym]) for _ in range(40)]
            return None if None in parts else b''.join(parts)
        """ bytes of an event, None when it cannot be built in this stage """
        meth = getattr(self, 'sym_' + sym, None)
        if meth:
            return meth()
        if sym.startswith('glue'):
            return self.glue(*sym.split(':'))
        if sym.startswith('hole:'):
            return self.hole(sym[5:])
        if sym.startswith('plain:'):      # unprotected although keys are in place
            if not self.peer.tx:
                return None
            sym = sym[6:]
            ctype, data = self.payload(sym)
            if ctype == CCS:
                return None
            return rec(ctype, data)
        if sym.startswith('old:'):        # protected with the keys of the previous epoch
            if self.peer.tx_epoch != 'ap':
                return None
            ctype, data = self.payload(sym[4:])
            return self.old_tx().seal(ctype, data)
        if sym.startswith('new:'):        # protected with the keys of the next epoch
            if self.peer.tx_epoch != 'hs' or not hasattr(self.peer.sched, 'c_ap'):
                return None
            ctype, data = self.payload(sym[4:])
            return self.new_tx().seal(ctype, data)
        ctype, data = self.payload(sym)
        if sym == 'ccs':
            return rec(ctype, data)
        if sym == 'ccs2':              # two in a row, in a single read
            return rec(ctype, data) * 2
        if ctype == APPDATA and not self.peer.tx:
            return rec(ctype, data)
        return self.current(ctype, data)

    def glue(self, how, tail):
        """ the message before a change of keys, with more handshake data in its record """
        raw = self.key_change_raw()
        if not raw:
            return None
        data = raw + self.GLUE[tail]()
        if how == 'glue':
            return self.current(HANDSHAKE, data)
        cut = len(raw) // 2               # glue2: the record where the message ends
        return self.current(HANDSHAKE, data[:cut]) + self.current(HANDSHAKE, data[cut:])

    HOLE = ('hs_empty_record', 'app', 'app_empty', 'cancel', 'close', 'heartbeat', 'ct_unknown')

    def hole(self, sym):
        """ a fragmented handshake message with something else in the middle """
        raw = self.key_change_raw() or FOREIGN['hs_nst']
        cut = {'hs_empty_record': 3}.get(sym, len(raw) // 2)
        ctype, data = RAW[sym]
        return (self.current(HANDSHAKE, raw[:cut]) + self.current(ctype, data)
                + self.current(HANDSHAKE, raw[cut:]))

    GLUE = {
        'byte': lambda: b'\x08', 'head': lambda: b'\x14\0\0\x20', 'ee': lambda: FOREIGN['hs_ee'],
        'fin': lambda: FOREIGN['hs_fin32'], 'nst': lambda: FOREIGN['hs_nst'],
        'ku': lambda: FOREIGN['hs_ku'], 'flight': lambda: FOREIGN['hs_ee'] + pki_cert(),
        'zero': lambda: b'\0', 'many': lambda: FOREIGN['hs_nst'] * 3,
    }

    def payload(self, sym):
        if sym in RAW:
            return RAW[sym]
        return HANDSHAKE, FOREIGN[sym]

    def expect(self, sym):
        if sym in self.NEXT.get(self.stage, {}):
            return ACCEPT
        if sym in MANY:
            if self.stage != 'conn' and MANY[sym] in ('app_empty', 'hs_nst'):
                return REJECT
            return self.expect(MANY[sym])
        if sym == 'cancel':
            return STAY
        if sym in ('ccs', 'ccs2'):     # RFC 8446 section 5: only ignored during the handshake
            return EITHER if (self.role, self.stage) == ('server', self.FIRST) or self.stage == 'conn' else STAY
        if sym == 'close':
            return CLOSE
        base = sym.split(':')[-1]
        if sym.startswith(('hole:', 'glue:', 'glue2:')):
            return REJECT
        if self.stage == 'conn' and sym == base:
            if sym in ('app', 'app_empty', *self.POST_ACCEPT):
                return ACCEPT
            if sym == 'heartbeat' or sym in self.POST_EITHER:
                return EITHER
        return REJECT

    # -- executing ----------------------------------------------------
    def deliver(self, sym, obs, what):
        """ Deliver one event, compare with the model. False when the connection is over. """
        expected = self.expect(sym)
        data = self.build(sym)
        if data is None:
            return None
        was = self.stage
        before = self.dut.read
        obs.state(self.role, self.config, was, tuple(self.hist), sym)
        self.hist.append(sym)
        ok = self.dut.rx(data)
        obs.step()
        out = self.dut.tx()
        what = f'{self.role} {what} in stage {was}: {sym}'
        if expected == ACCEPT:
            need(ok, lambda: f'{what}: legal event refused: {self.dut.error!r}')
            if sym in self.NEXT.get(was, {}):
                self.stage = self.NEXT[was][sym]
                self.accepted(sym, out, what)
            else:
                self.peer.feed(out)
                self.app_checks(sym, before, what)
        elif expected == STAY:
            need(ok, lambda: f'{what}: harmless event refused: {self.dut.error!r}')
            need(not out and self.dut.read == before, f'{what}: harmless event had an effect')
        elif expected == REJECT:
            need(not ok, f'{what}: illegal event did not fail the connection')
        elif expected == CLOSE:
            # whether it raises is not specified, but the handshake must not go on
            self.peer_feed_quiet(out)
            if was != 'conn':
                need(not self.dut.connected, f'{what}: connected after an early close')
            obs.outcome(f'{was}/{sym}/close')
            return False
        alive = ok
        obs.outcome(f'{was}/{sym}/{"ok" if ok else type(self.dut.error).__name__}')
        if not alive:
            need(self.dut.read == before, f'{what}: data delivered by a failing event')
            self.failed(out, sym, what)
            return False
        if self.stage == 'fin_r' and sym == 'fin':
            got = len(self.peer.got_hs)
            self.peer_feed_quiet(out)
            need(not self.dut.connected or CERT in self.peer.got_hs[got:],
                 f'{what}: completed without the certificate that was requested')
            return False
        need(self.dut.connected == (self.stage == 'conn'),
             f'{what}: connected={self.dut.connected} in stage {self.stage}')
        need(self.dut.post == (self.stage == 'conn'),
             f'{what}: post_handshake={self.dut.post} in stage {self.stage}')
        if self.stage != 'conn':
            need(not self.dut.read, f'{what}: data readable before the end of the handshake')
        return True

    def app_checks(self, sym, before, what):
        sent = {'app': RAW['app'][1]}.get(sym, b'')
        need(self.dut.read == before + sent, f'{what}: wrong data delivered')

    def peer_feed_quiet(self, out):
        try:
            self.peer.feed(out)
        except ref.RefError:
            pass

    def failed(self, out, sym, what):
        """ After an illegal event: nothing but one alert, and the connection stays dead. """
        got, napp = len(self.peer.got_hs), len(self.peer.app)
        self.feed_failure(out, what)
        need(len(self.peer.got_hs) == got and len(self.peer.app) == napp,
             f'{what}: the connection went on after the failure')
        junk = []
        for nxt in self.remainder():
            try:
                data = self.build(nxt)
            except Exception:
                data = None
            if data:
                junk.append(data)
        self.dut.assert_dead(what, junk)

    def feed_failure(self, out, what):
        self.peer.feed(out)


class ServerWorld(World):
    """ siotls server against a puppet client """
    role, FIRST = 'server', 'ch'
    NEXT = {
        'ch': {'ch': 'fin', 'ch_hrr': 'ch2'},
        'ch2': {'ch': 'fin'},
        'fin': {'fin': 'conn'},
    }
    POST_EITHER = ('hs_ku', 'hs_ku_req')
    POST_ACCEPT = ()
    SPECIAL = ['ch', 'ch_hrr', 'fin', 'fin_flip', 'fin_short', 'fin_long', 'fin_empty',
               'fin_reflect', 'fin_twice_th', 'fin_new_keys', 'fin_plain', 'sh', 'hrr',
               'ch_plain', 'cert_cv', 'fin_after_close_th']

    def __init__(self, suite=ref.CHACHA, group=ref.X25519, other=ref.P256, kind='p256', **kw):
        super().__init__()
        self.config = (suite, group, kind, tuple(sorted(kw)))
        self.group, self.other = group, other
        self.dut = impl.Impl.server(kind, cipher_suites=impl.suites([suite]),
                                    key_exchanges=impl.groups([group]), **kw).start()
        need(not self.dut.tx(), 'a server must not speak first')
        self.peer = ref.RefClient(suites=[suite], groups=[group, other], shares=[group])
        self.hs_tx = None

    def old_tx(self):
        d = ref.Dir(self.peer.suite, self.peer.sched.c_hs); d.seq = 1
        return d

    def new_tx(self):
        return ref.Dir(self.peer.suite, self.peer.sched.c_ap)

    def remainder(self):
        return {'ch': ['ch', 'fin'], 'ch2': ['ch', 'fin'], 'fin': ['fin', 'app'],
                'conn': ['app']}[self.stage]

    def key_change_raw(self):
        if self.stage in ('ch', 'ch2'):
            return self.peer.hello_raw(share_groups=[self.group])
        return self._fin() if self.stage == 'fin' else None

    def sym_ch(self):
        if self.stage in ('ch', 'ch2'):
            return self.peer.hello(share_groups=[self.group])
        return self.current(HANDSHAKE, self.peer.hello_raw(share_groups=[self.group]))

    def sym_ch_hrr(self):
        if self.stage == 'ch':
            return self.peer.hello(share_groups=[self.other])
        return self.current(HANDSHAKE, self.peer.hello_raw(share_groups=[self.other]))

    def sym_ch_plain(self):
        if not self.peer.tx: return None
        return rec(HANDSHAKE, self.peer.hello_raw(share_groups=[self.group]))

    def _fin(self):
        return self.peer.finished_raw() if self.peer.server_finished else None

    def sym_fin(self):
        if not self._fin(): return None
        if self.stage == 'fin':
            return self.peer.send_hs(self._fin())
        return self.current(HANDSHAKE, self._fin())

    def _fin_variant(self, f):
        fin = self._fin()
        return fin and self.current(HANDSHAKE, hs(FINISHED, f(fin[4:])))

    def sym_fin_flip(self): return self._fin_variant(lambda v: v[:-1] + bytes([v[-1] ^ 1]))
    def sym_fin_short(self): return self._fin_variant(lambda v: v[:-1])
    def sym_fin_long(self): return self._fin_variant(lambda v: v + b'\0')
    def sym_fin_empty(self): return self._fin_variant(lambda v: b'')
    def sym_fin_reflect(self):
        return self._fin_variant(lambda v: self.peer.sched.fin(self.peer.sched.s_hs,
                                                               self.peer.th()))
    def sym_fin_twice_th(self):
        """ the verify_data of another point of the transcript """
        def f(v):
            t = ref.Transcript(); t.msgs = self.peer.t.msgs[:-1]
            return self.peer.sched.fin(self.peer.sched.c_hs, t.digest(self.peer.sched.h))
        return self._fin_variant(f)
    def sym_fin_after_close_th(self):
        return self._fin_variant(lambda v: self.peer.sched.fin(self.peer.sched.c_ap,
                                                               self.peer.th()))
    def sym_fin_new_keys(self):
        if self.stage != 'fin': return None
        return self.new_tx().seal(HANDSHAKE, self._fin())
    def sym_fin_plain(self):
        return self._fin() and rec(HANDSHAKE, self._fin())

    def sym_sh(self):
        return self.current(HANDSHAKE, ref.server_hello(bytes(32), self.peer.suites[0], [
            (ref.X_VERSIONS, u16(0x0304)),
            (ref.X_KEYSHARE, u16(self.group) + v16(ref.Share(self.group).pub))]))

    def sym_hrr(self):
        return self.current(HANDSHAKE, ref.server_hello(ref.HRR_RANDOM, self.peer.suites[0], [
            (ref.X_VERSIONS, u16(0x0304)), (ref.X_KEYSHARE, u16(self.other))]))

    def sym_cert_cv(self):
        """ unrequested client authentication """
        if not self.peer.server_finished: return None
        key, chain = pki.leaf()
        return self.current(HANDSHAKE, ref.RefServer(key, chain).cert_raw())

    def accepted(self, sym, out, what):
        if sym == 'fin':
            self.peer.use_app_keys()
        got = len(self.peer.got_hs)
        self.peer.feed(out)
        need(not self.peer.alerts, f'{what}: alert {self.peer.alerts}')
        if sym == 'ch_hrr':
            need(self.peer.hrr and self.peer.hrr_group == self.group and not self.peer.tx,
                 f'{what}: expected a HelloRetryRequest')
        elif sym == 'ch':
            need(self.peer.server_finished, f'{what}: incomplete server flight')
        else:
            need(len(self.peer.got_hs) == got, f'{what}: unexpected output')


class ClientWorld(World):
    """ siotls client against a puppet server """
    role, FIRST = 'client', 'sh'
    NEXT = {
        'sh': {'sh': 'ee', 'hrr': 'sh2'},
        'sh2': {'sh': 'ee'},
        'ee': {'ee': 'cert'},
        'cert': {'cert': 'cv', 'cert_req': 'cert_r', 'cert_req_more': 'cert_r'},
        'cv': {'cv': 'fin'},
        'fin': {'fin': 'conn'},
        # client authentication was requested
        'cert_r': {'cert': 'cv_r'},
        'cv_r': {'cv': 'fin_r'},
    }
    POST_EITHER = ('hs_ku', 'hs_ku_req', 'hs_cert_req')
    POST_ACCEPT = ('hs_nst',)
    BASE = {'sh2': 'sh', 'cert_r': 'cert', 'cv_r': 'cv', 'fin_r': 'fin'}
    SPECIAL = ['sh', 'hrr', 'ee', 'cert', 'cv', 'fin', 'ch', 'cv_client_ctx', 'cv_wrong_th',
               'cv_other_key', 'cv_flip', 'cv_empty', 'cv_no_ctx', 'fin_flip', 'fin_short',
               'fin_long', 'fin_empty', 'fin_reflect', 'fin_wrong_th', 'sh_protected',
               'ee_plain', 'cert_plain', 'cv_plain', 'fin_plain', 'fin_new_keys',
               'cert_req', 'cert_req_more', 'cert_req_ctx']

    def __init__(self, suite=ref.CHACHA, group=ref.X25519, other=ref.P256, kind='p256',
                 raw=False, **kw):
        super().__init__()
        self.config = (suite, group, kind, raw, tuple(sorted(kw)))
        self.group, self.other = group, other
        key, chain = pki.leaf(kind)
        if raw:
            kw['trust'] = False
            kw['trusted_public_keys'] = [key.public_key()]
            chain = [key.public_key()]
        self.dut = impl.Impl.client(cipher_suites=impl.suites([suite]),
                                    key_exchanges=impl.groups([group, other]), **kw).start()
        self.peer = ref.RefServer(key, chain, suite=suite, raw_key=raw,
                                  ee=[(ref.X_SCT, b'\2')] if raw else [])
        self.peer.feed(self.dut.tx())
        need(self.peer.ch, 'no ClientHello')

    def old_tx(self):
        d = ref.Dir(self.peer.suite, self.peer.sched.s_hs); d.seq = 4
        return d

    def new_tx(self):
        return ref.Dir(self.peer.suite, self.peer.sched.s_ap)

    def build(self, sym):
        if (sym, self.stage) in (('hs_ee', 'ee'), ('hs_cert_req', 'cert')):
            return None              # those are the legal ones
        if sym.startswith('new:') and self.stage not in ('sh', 'sh2', 'conn'):
            self.peer.sched.master(self.peer.th())
        return super().build(sym)

    def remainder(self):
        order = ['sh', 'ee', 'cert', 'cv', 'fin', 'conn']
        i = order.index(self.BASE.get(self.stage, self.stage))
        return order[i:-1] + ['app']

    def _hs(self, sym, raw):
        if self.expect(sym) == ACCEPT:
            return self.peer.send_hs(raw)
        return self.current(HANDSHAKE, raw)

    def sym_sh(self):
        if self.stage in ('sh', 'sh2'):
            return self.peer.sh()
        keep = self.peer.shared
        raw = self.peer.sh_raw()
        self.peer.shared = keep
        return self.current(HANDSHAKE, raw)

    def key_change_raw(self):
        if self.stage in ('sh', 'sh2'):
            raw = self.peer.sh_raw()
            return raw
        return self._fin() if self.stage == 'fin' else None

    def sym_sh_protected(self):
        if self.stage not in ('sh', 'sh2'): return None
        raw = self.peer.sh_raw()
        s = ref.Schedule(self.peer.suite)
        t = ref.Transcript(); t.msgs = [*self.peer.t.msgs, raw]
        s.handshake(self.peer.shared, t.digest(s.h))
        return ref.Dir(self.peer.suite, s.s_hs).seal(HANDSHAKE, raw)

    def sym_hrr(self):
        if self.stage == 'sh':
            return self.peer.hrr(self.other)
        return self.current(HANDSHAKE, self.peer.hrr_raw(
            self.group if self.stage == 'sh2' else self.other))

    def sym_ee(self): return self._hs('ee', self.peer.ee_raw())
    def sym_cert(self): return self._hs('cert', self.peer.cert_raw())
    def sym_cv(self): return self._hs('cv', self._cv())
    def _cv(self, **kw):
        if not self.peer.sched: self.peer.pick()
        return self.peer.cv_raw(**kw)
    def sym_ee_plain(self): return self.peer.tx and rec(HANDSHAKE, self.peer.ee_raw())
    def sym_cert_plain(self): return self.peer.tx and rec(HANDSHAKE, self.peer.cert_raw())
    def sym_cv_plain(self): return self.peer.tx and rec(HANDSHAKE, self._cv())
    def sym_cv_client_ctx(self):
        return self.current(HANDSHAKE, self._cv(context=ref.CV_CLIENT))
    def sym_cv_no_ctx(self):
        return self.current(HANDSHAKE, self._cv(context=b''))
    def sym_cv_wrong_th(self):
        if not self.peer.sched: self.peer.pick()
        t = ref.Transcript(); t.msgs = self.peer.t.msgs[:-1]
        return self.current(HANDSHAKE, self._cv(th=t.digest(self.peer.sched.h)))
    def sym_cv_other_key(self):
        return self.current(HANDSHAKE, self._cv(key=pki.key(self.config[2], 'another key')))
    def sym_cv_flip(self):
        raw = self._cv()
        return self.current(HANDSHAKE, raw[:-1] + bytes([raw[-1] ^ 1]))
    def sym_cv_empty(self): return self.current(HANDSHAKE, self._cv(sig=b''))

    def _fin(self):
        return self.peer.fin_raw() if self.peer.tx else None
    def sym_fin(self):
        if not self._fin(): return None
        if self.stage in ('fin', 'fin_r'):
            out = self.peer.send_hs(self._fin())
            self.peer.sent_finished = True
            self.peer.sched.master(self.peer.th())
            return out
        return self.current(HANDSHAKE, self._fin())
    def _fin_variant(self, f):
        fin = self._fin()
        return fin and self.current(HANDSHAKE, hs(FINISHED, f(fin[4:])))
    def sym_fin_flip(self): return self._fin_variant(lambda v: bytes([v[0] ^ 0x80]) + v[1:])
    def sym_fin_short(self): return self._fin_variant(lambda v: v[:-1])
    def sym_fin_long(self): return self._fin_variant(lambda v: v + b'\0')
    def sym_fin_empty(self): return self._fin_variant(lambda v: b'')
    def sym_fin_reflect(self):
        return self._fin_variant(
            lambda v: self.peer.sched.fin(self.peer.sched.c_hs, self.peer.th()))
    def sym_fin_wrong_th(self):
        def f(v):
            t = ref.Transcript(); t.msgs = self.peer.t.msgs[:-1]
            return self.peer.sched.fin(self.peer.sched.s_hs, t.digest(self.peer.sched.h))
        return self._fin_variant(f)
    def sym_fin_plain(self): return self._fin() and rec(HANDSHAKE, self._fin())
    def sym_fin_new_keys(self):
        if self.stage not in ('fin', 'fin_r'): return None
        self.peer.sched.master(self.peer.th())
        return self.new_tx().seal(HANDSHAKE, self._fin())

    def sym_ch(self):
        return self.current(HANDSHAKE, self.peer.t.msgs[0] if self.peer.t.msgs[0][0] == 1
                            else self.peer.t.msgs[-1])
    def sym_cert_req(self): return self._hs('cert_req', self.peer.cert_request_raw())
    def sym_cert_req_more(self):
        return self._hs('cert_req_more', hs(CERT_REQ, v8(b'') + ref.exts([
            (0x2a2a, b''), ref.x_sigalgs(ref.ALL_SIGALGS), (18, b""),
            (50, ref.x_sigalgs(ref.ALL_SIGALGS)[1]), (47, v16(v16(b'\x30\0')))])))
    def sym_cert_req_ctx(self):
        if self.stage == 'cert': return None
        return self.current(HANDSHAKE, hs(CERT_REQ, v8(b'ctx')
                            + ref.exts([ref.x_sigalgs(ref.ALL_SIGALGS)])))

    def expect(self, sym):
        if (sym, self.stage) in (('cert_req_ctx', 'conn'), ('cert_req', 'conn'),
                                 ('cert_req_more', 'conn'), ('fin', 'fin_r')):
            return EITHER            # client authentication isn't supported, may fail closed
        return super().expect(sym)

    def accepted(self, sym, out, what):
        if sym == 'fin':
            self.peer.tx, self.peer.tx_epoch = \
                ref.Dir(self.peer.suite, self.peer.sched.s_ap), 'ap'
        hellos, got = len(self.peer.hellos), len(self.peer.got_hs)
        self.peer.feed(out)
        need(not self.peer.alerts, f'{what}: alert {self.peer.alerts}')
        if sym == 'hrr':
            need(len(self.peer.hellos) == hellos + 1, f'{what}: expected a second ClientHello')
        elif sym == 'fin':
            need(self.peer.client_finished, f'{what}: expected the client Finished')
        else:
            need(len(self.peer.got_hs) == got, f'{what}: unexpected output')


def alphabet(world):
    base = list(FOREIGN) + list(RAW)
    return (world.SPECIAL + base + list(MANY) + ['plain:' + s for s in base if s not in ('ccs', 'ccs2')]
            + [f'{how}:{tail}' for how in ('glue', 'glue2') for tail in World.GLUE]
            + [f'hole:{sym}' for sym in World.HOLE]
            + ['old:' + s for s in ('app', 'hs_nst', 'alert', 'close', 'heartbeat')]
            + ['new:' + s for s in ('app', 'app_empty', 'close', 'alert', 'hs_nst')])


def honest_paths(world):
    """ every path of the model from the first stage, following legal messages only """
    out, todo = [], [(world.FIRST, ())]
    while todo:
        stage, path = todo.pop(0)
        out.append((stage, path))
        for sym, nxt in world.NEXT.get(stage, {}).items():
            todo.append((nxt, (*path, sym)))
    return out


def run_path(w, path, obs, what='path'):
    """ Deliver the events of path; False when the connection ended before its end. """
    for sym in path:
        res = w.deliver(sym, obs, what)
        if res is None:
            return None
        if res is False:
            return False
    return True


def finish(w, obs):
    """ From any live stage complete the handshake and exchange data both ways. """
    while w.stage != 'conn':
        if w.stage == 'fin_r':
            return
        sym = next(iter(w.NEXT[w.stage]))
        w.deliver(sym, obs, 'completion')
    w.deliver('app', obs, 'completion')
    w.dut.send(b'pong')
    before = len(w.peer.app)
    w.peer.feed(w.dut.tx())
    need(w.peer.app[before:] == b'pong', 'data sent after the handshake was not received')

"""
C11: every cause of failure in every stage, then every sequence of public operations on the dead
connection.
"""
import itertools

from .. import automaton as A
from .. import impl, pairs, pki, ref
from ..engine import need
from ..ref import ALERT, APPDATA, HANDSHAKE, hs, rec, u16, v16
from .c13 import place

PROP = 'C11'
WORLDS = {'server': A.ServerWorld, 'client': A.ClientWorld}
CONFIGS = [dict(), dict(suite=ref.AES256, group=ref.P256, other=ref.X25519, kind='ed25519'),
           dict(suite=ref.AES128, group=ref.P384, other=ref.X25519, kind='rsa')]
OPS = ['send', 'send_empty', 'next', 'app', 'close_notify', 'alert', 'garbage', 'partial',
       'close_sending', 'close_receiving', 'initiate', 'rekey', 'read']
# causes that are not letters of the automaton
EXTRA = ['oversize', 'bad_mac', 'all_zero', 'interleaved', 'trailing', 'lying_length',
         'garbage', 'half_then_bad', 'short_record']
# the causes after which the sequences of operations start from a fresh connection
SOME = ['bad_mac', 'oversize', 'trailing', 'alert', 'alert_warn_level', 'app', 'hs_unknown',
        'fin_flip']


def de_bruijn(k, n):
    """ a cyclic word over k letters in which every word of n letters appears """
    a, out = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                out.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return out + out[:n - 1]


def cases(tier):
    quick = tier == 'quick'
    for role, world in WORLDS.items():
        for stage, path in A.honest_paths(world):
            if stage in ('cert_r', 'cv_r', 'fin_r'):
                continue
            for ci in range(1 if quick else len(CONFIGS)):
                w = world(**CONFIGS[0])
                causes = [*A.alphabet(w), *('x:' + c for c in EXTRA)]
                for cause in dict.fromkeys(causes):
                    for glue in ('no', 'after', 'before'):
                        if glue == 'before' and not path:
                            continue
                        yield [role, ci, list(path), cause, glue, 'tour']
                for cause in SOME:
                    if cause in EXTRA:
                        cause = 'x:' + cause
                    for d in (1, 2) if quick else (1, 2, 3):
                        if d == (2 if quick else 3) and cause not in (
                                'x:bad_mac', 'alert', 'x:trailing'):
                            continue
                        if d == 3 and ci:
                            continue
                        for first in OPS:
                            yield [role, ci, list(path), cause, 'no', first, d]
    for role, suite, cause, left in itertools.product(WORLDS, ref.SUITES, SPENT, (0, 1, 2)):
        for seq in itertools.product(OPS, repeat=1 if quick else 2):
            yield ['spent', role, suite, cause, left, list(seq)]


    for where, suite, cause in itertools.product(UNDRAINED, ref.SUITES, UNDRAINED_CAUSES):
        yield ['undrained', where, suite, cause]


# what is received when no more records can be sent, be it the alert that is due
SPENT = {
    'bad_mac': lambda p: p.tx.seal(APPDATA, b'x')[:-1] + b'\0',
    'oversize': lambda p: b'\x17\3\3' + u16(2**14 + 257) + bytes(64),
    'garbage': lambda p: b'\xff' * 64,
    'unknown': lambda p: p.tx.seal(77, b'x'),
    'bad_alert': lambda p: p.tx.seal(ALERT, b'\2'),
    'hello': lambda p: p.tx.seal(HANDSHAKE, b'\1\0\0\0'),
    'request': lambda p: p.tx.seal(HANDSHAKE, ref.hs(24, b'\1')),
    'fatal': lambda p: p.tx.seal(ALERT, b'\2\x28'),
}


class Spent:
    """ what ``operate`` needs of a world """
    def __init__(self, dut, peer):
        self.dut, self.peer = dut, peer

    def remainder(self):
        return ['app']

    def build(self, sym):
        return self.peer.tx.seal(*{'app': (APPDATA, b'late'), 'close': (ALERT, b'\1\0'),
                                   'alert': (ALERT, b'\2\x28')}[sym])


def spent(role, suite, cause, left, seq, obs):
    dut, peer = pairs.vs_ref(role, suite=suite)
    if not place(dut, peer, suite, 'write', lambda stop: stop - left):
        obs.outcome('sequence numbers cannot be placed')
        return
    what = f'{role} {suite:#x} {left} records before its last, {cause}'
    dut.read = b''
    need(not dut.rx(SPENT[cause](peer)), f'{what}: accepted')
    out = dut.tx()
    peer.events.clear()
    peer.feed(out)
    need(not out or left and not peer.inbuf and [e[0] for e in peer.events] == [ALERT],
         f'{what}: {peer.events} sent')
    need(not dut.connected and dut.post, f'{what}: not dead')
    need(not dut.read, f'{what}: data delivered by the failing call')
    w = Spent(dut, peer)
    for i, op in enumerate(seq):
        done = operate(w, op)
        ctx = f'{what}, then {seq[:i + 1]}'
        need(not dut.tx(), f'{ctx}: a dead connection emits data')
        need(not dut.conn.data_to_read(), f'{ctx}: a dead connection delivers data')
        need(not dut.connected and dut.post, f'{ctx}: a dead connection came back')
        if op.startswith('send'):
            need(done is not None, f'{ctx}: data accepted on a dead connection')
        obs.step()
    obs.state('spent', role, suite, cause, left)
    obs.outcome(f'spent/{cause}/{"told" if out else "silent"}')
    obs.trace()


# what is still in the output buffer when the failure happens
UNDRAINED = ['s:flight', 's:retry', 's:retry+flight', 's:all', 's:half', 'c:hello', 'c:second hello',
             'c:finished', 'c:all']
UNDRAINED_CAUSES = {
    'garbage': lambda p: b'\xff' * 64,
    'oversize': lambda p: b'\x17\3\3' + u16(2**14 + 257) + bytes(64),
    'forged': lambda p: rec(APPDATA, bytes(64)),
    'alert': lambda p: rec(ALERT, b'\2\x28'),
    'short': lambda p: rec(HANDSHAKE, b''),
    'hello': lambda p: rec(HANDSHAKE, b'\1\0\0\0'),
    'finished': lambda p: p.send(HANDSHAKE, hs(20, bytes(p.sched.hlen))) if p.tx else bytes(7),
}


def undrained(where, suite, cause, obs):
    """ A failure takes nothing back of what was due, and adds the alert after it. """
    what = f'{where} {suite:#x} {cause}'
    side, stop = where.split(':')
    retry = 'retry' in stop or stop == 'second hello'
    key, chain = pki.leaf()
    if side == 's':
        dut = impl.Impl.server(key_exchanges=impl.groups([ref.X25519])).start()
        peer = ref.RefClient(suites=[suite], groups=[ref.P256, ref.X25519],
                             shares=[ref.P256 if retry else ref.X25519])
        need(dut.rx(peer.hello()), lambda: f'{what}: {dut.error!r}')
        if stop == 'retry+flight':
            peer.feed(dut.tx())
            need(dut.rx(peer.hello(share_groups=[ref.X25519])), lambda: f'{what}: {dut.error!r}')
        elif stop == 'all':
            peer.feed(dut.tx())
            need(dut.rx(peer.finished()), lambda: f'{what}: {dut.error!r}')
            dut.send(b'due')
        elif stop == 'half':
            peer.feed(dut.tx())
            try:
                dut.send(b'due')
            except Exception:       # it may also wait for the client to finish
                obs.outcome('undrained/no half-RTT data')
                return
    else:
        dut = impl.Impl.client(cipher_suites=impl.suites([suite]),
                               key_exchanges=impl.groups([ref.X25519, ref.P256])).start()
        peer = ref.RefServer(key, chain)
        if stop != 'hello':
            peer.feed(dut.tx())
        if stop == 'second hello':
            need(dut.rx(peer.hrr(ref.P256)), lambda: f'{what}: {dut.error!r}')
        elif stop != 'hello':
            need(dut.rx(peer.flight()), lambda: f'{what}: {dut.error!r}')
        if stop == 'all':
            dut.send(b'due')
    peer.events.clear()
    had = len(peer.got_hs)
    need(not dut.rx(UNDRAINED_CAUSES[cause](peer)), f'{what}: accepted')
    out = dut.tx()
    peer.feed(out)
    need(not peer.inbuf and not peer.hsbuf, f'{what}: incomplete output')
    kinds = [e[0] for e in peer.events if e[0] != ref.CCS]
    fatal = [(2, dut.alert)] if dut.alert is not None else peer.alerts
    if kinds and kinds[-1] == ALERT:
        need(peer.alerts == fatal and peer.alerts[0][0] == 2 and len(peer.alerts) == 1,
             f'{what}: {peer.alerts}')
        kinds.pop()
    else:
        need(cause == 'alert', f'{what}: no alert, {kinds}')
    need(ALERT not in kinds, f'{what}: {kinds}')
    due = {'s:flight': (5, b''), 's:retry': (1, b''), 's:retry+flight': (5, b''), 's:all': (0, b'due'), 's:half': (0, b'due'),
           'c:hello': (1, b''), 'c:second hello': (1, b''), 'c:finished': (1, b''),
           'c:all': (1, b'due')}[where]
    need((len(peer.got_hs) - had, peer.app) == due,
         f'{what}: {peer.got_hs[had:]} and {peer.app!r} were emitted')
    dut.assert_dead(what)
    obs.state(where, suite, cause)
    obs.step()
    obs.outcome(f'undrained/{where}/{cause}')
    obs.trace()


def build(w, cause):
    if not cause.startswith('x:'):
        if w.expect(cause) in (A.ACCEPT, A.CLOSE, A.STAY) or cause in ('ccs', 'ccs2', 'cancel'):
            return None
        return w.build(cause)
    cause = cause[2:]
    tx = w.peer.tx
    if cause == 'oversize':
        return (b'\x17' if tx else b'\x16') + b'\3\3' + u16(2**14 + 257) + bytes(64)
    if cause == 'garbage':
        return b'\xff' * 64
    if cause == 'short_record':
        # shorter than a tag, or than a handshake message can be
        return rec(APPDATA, b'short') if tx else rec(HANDSHAKE, b'')
    if cause == 'bad_mac':
        if not tx:
            return None
        raw = bytearray(tx.seal(HANDSHAKE, b'\x14\0\0\x20' + bytes(32)))
        raw[-1] ^= 0x40
        return bytes(raw)
    if cause == 'all_zero':
        return tx and tx.seal(0, bytes(40))
    if cause == 'interleaved':
        part = w.peer.send(HANDSHAKE, b'\x14\0\0')
        return part + w.peer.send(ALERT, b'\1\x5a')
    if cause == 'half_then_bad':
        return w.peer.send(HANDSHAKE, b'\x02\0\0\x50' + b'half') + b'\xff' * 8
    # the message that is due, but malformed
    raw = {'ch': w.peer.hello_raw if hasattr(w.peer, 'hello_raw') else None,
           'ch2': getattr(w.peer, 'hello_raw', None),
           'sh': getattr(w.peer, 'sh_raw', None), 'sh2': getattr(w.peer, 'sh_raw', None),
           'ee': getattr(w.peer, 'ee_raw', None),
           'cert': getattr(w.peer, 'cert_raw', None), 'cv': getattr(w.peer, 'cv_raw', None),
           'fin': getattr(w, '_fin', None), 'conn': None}[w.stage]
    if raw is None:
        raw = lambda: hs(24, b'\0\0')  # noqa: E731
    if w.stage == 'cv':
        raw = lambda: w._cv()          # noqa: E731
    raw = raw()
    if cause == 'trailing':
        raw = hs(raw[0], raw[4:] + b'\0')
    else:
        raw = raw[:4] + (bytes([raw[4] ^ 0x80]) if len(raw) > 4 else b'') + raw[5:]
    return w.peer.send(HANDSHAKE, raw)


def run(case, obs):
    if case[0] == 'spent':
        spent(*case[1:], obs)
        return
    if case[0] == 'undrained':
        undrained(*case[1:], obs)
        return
    role, ci, path, cause, glue, mode = case[:6]
    if mode == 'tour':
        seqs = [tuple(OPS[i] for i in de_bruijn(len(OPS), 2))]
    else:
        seqs = [(mode, *rest) for rest in itertools.product(OPS, repeat=case[6] - 1)]
    for seq in seqs:
        if one(role, ci, path, cause, glue, seq, obs) is None:
            obs.outcome('not applicable')
            return


def one(role, ci, path, cause, glue, seq, obs):
    w = WORLDS[role](**CONFIGS[ci])
    what = f'{role} {path} {cause} {glue}'
    dut = w.dut
    ahead = b''
    if glue == 'before':
        # the last legal message and the faulty one are received together
        need(A.run_path(w, path[:-1], obs) is True, 'honest handshake refused')
        last = w.build(path[-1])
        stage_after = w.NEXT[w.stage][path[-1]]
        if path[-1] in ('ch', 'ch_hrr', 'hrr', 'cert_req') or stage_after == 'conn':
            return None       # what follows depends on the answer
        w.stage, ahead = stage_after, last
    else:
        need(A.run_path(w, path, obs) is True, 'honest handshake refused')
    data = build(w, cause)
    if not data:
        return None
    expected = A.REJECT if cause.startswith('x:') else w.expect(cause)
    keys = w.peer.rx, w.peer.rx_epoch
    if glue == 'after':
        for sym in w.remainder():
            try:
                data += w.build(sym) or b''
            except Exception:
                pass
        w.peer.rx, w.peer.rx_epoch = keys
    obs.state(role, ci, w.stage, tuple(path), cause, glue)
    obs.step(1 + len(seq))
    read = dut.read
    ok = dut.rx(ahead + data)
    out = dut.tx()
    if ok:
        need(expected == A.EITHER, f'{what}: the faulty input was accepted')
        return None
    need(isinstance(dut.error, Exception), f'{what}: {dut.error!r}')
    got, app = len(w.peer.got_hs), w.peer.app
    w.peer.events.clear()
    w.peer.feed(out)
    if glue == 'before' and w.peer.events and w.peer.events[0][0] == ref.CCS:
        del w.peer.events[0]         # the legal answer to the message ahead
        out = out[6:]
    need(not w.peer.inbuf and not w.peer.hsbuf, f'{what}: incomplete output')
    need(len(w.peer.got_hs) == got and w.peer.app == app, f'{what}: more than an alert was sent')
    told = cause in ('alert', 'alert_warn_level')
    if told:
        need(not w.peer.alerts, f'{what}: answered a fatal alert with {w.peer.alerts}')
        need(not out, f'{what}: answered a fatal alert')
    else:
        need(len(w.peer.alerts) == 1 and len(w.peer.events) == 1,
             f'{what}: expected exactly one alert, got {w.peer.events}')
        level, desc = w.peer.alerts[0]
        need(level == 2 and desc not in (0, 90), f'{what}: not a fatal alert: {level} {desc}')
        need(dut.alert is None or dut.alert == desc,
             f'{what}: raised alert {dut.alert}, sent {desc}')
        need(w.peer.events[0][0] == ALERT and w.peer.events[0][2] == w.peer.rx_epoch,
             f'{what}: alert under the keys of {w.peer.events[0][2]}')
    obs.outcome(f'{w.stage}/{"told" if told else w.peer.alerts[0][1]}')
    need(dut.read == read, f'{what}: data delivered by the failing call')
    for i, op in enumerate(seq):
        done = operate(w, op)
        ctx = f'{what}, then {list(seq[max(0, i - 4):i + 1])}'
        need(not dut.tx(), f'{ctx}: a dead connection emits data')
        need(not dut.conn.data_to_read(), f'{ctx}: a dead connection delivers data')
        need(not dut.connected, f'{ctx}: a dead connection came back')
        need(dut.post, f'{ctx}: a dead connection is in handshake')
        if op.startswith('send'):
            need(done is not None, f'{ctx}: data accepted on a dead connection')
    obs.trace()
    return True


def operate(w, op):
    """ the exception raised, if any """
    conn = w.dut.conn
    try:
        if op == 'send':
            conn.send_data(b'after the failure')
        elif op == 'send_empty':
            conn.send_data(b'')
        elif op in ('next', 'app', 'close_notify', 'alert'):
            if op == 'next':
                sym = w.remainder()[0]
            else:
                sym = {'app': 'app', 'close_notify': 'close', 'alert': 'alert'}[op]
            try:
                raw = w.build(sym)
            except Exception:
                raw = None
            conn.receive_data(raw or rec(HANDSHAKE, b'\1\0\0\0'))
        elif op == 'garbage':
            conn.receive_data(b'\xff' * 30)
        elif op == 'partial':
            conn.receive_data(b'\x16\x03\x03\0')
        elif op == 'close_sending':
            conn.close_sending_end()
        elif op == 'close_receiving':
            conn.close_receiving_end()
        elif op == 'initiate':
            conn.initiate_connection()
        elif op == 'rekey':
            conn.rekey()
        elif op == 'read':
            conn.data_to_read()
            conn.data_to_send()
    except Exception as exc:
        return exc
    return None

"""
C33: calls that make no sense (wrong moment, wrong argument) and buffers that the application goes on
using. Every sequence of such calls is placed at every point of an honest exchange, between two
messages and in the middle of one; the exchange must go on as if they had never been made, and an
illegal message of the peer must still be refused.
"""
import itertools

from .. import automaton as A
from .. import impl, ref
from ..engine import need
from ..ref import ALERT, APPDATA

PROP = 'C33'
WORLDS = {'server': A.ServerWorld, 'client': A.ClientWorld}
CONFIGS = {
    'server': [dict(), dict(suite=ref.AES256, group=ref.P256, other=ref.X25519, kind='ed25519')],
    'client': [dict(), dict(suite=ref.AES256, group=ref.P256, other=ref.X25519, raw=True)],
}
PATHS = {
    'server': [['ch', 'fin'], ['ch_hrr', 'ch', 'fin']],
    'client': [['sh', 'ee', 'cert', 'cv', 'fin'], ['hrr', 'sh', 'ee', 'cert', 'cv', 'fin']],
}
# what happens once connected: nothing, our side closed, the other side closed, both, failed
LATE = ['open', 'tx closed', 'rx closed', 'both closed', 'failed']
OPS = ['init', 'send', 'send_big', 'send_none', 'send_str', 'send_int', 'send_obj',
       'recv_empty', 'recv_none', 'recv_str', 'recv_int', 'recv_obj', 'rekey', 'status', 'wrap',
       'conf', 'scribble']
MUST_RAISE = {'send_none', 'send_str', 'send_int', 'send_obj', 'recv_none', 'recv_str', 'recv_int',
              'recv_obj', 'conf'}


class Dut(impl.Impl):
    """ A connection whose application reuses its buffers. """
    before_start = ()

    def __init__(self, *args, **kw):
        super().__init__(*args, **kw)
        self.buffers = itertools.cycle(('view', 'bytearray', 'own view', 'bytes'))
        self.changed = False        # a buffer of the application, by a call
        self.handed = []            # (buffer the connection gave away, what was in it)
        self.scratch = bytearray(1 << 15)

    def start(self):
        for op in Dut.before_start:
            misuse(self, op, 'start', f'{self.side} before the start: {op}')
        return super().start()

    def rx(self, data):
        for i in range(0, len(data), len(self.scratch)):
            part = data[i:i + len(self.scratch)]
            self.lend(self.conn.receive_data, part, b'\x15')
            if self.error:
                break
        self.read += self.take(self.conn.data_to_read())
        return self.error is None

    def lend(self, call, data, trash):
        """ the buffer is the application's again once the call returns """
        kind = next(self.buffers)
        self.scratch[:len(data)] = data
        given = {'view': memoryview(self.scratch)[:len(data)], 'bytearray': bytearray(data),
                 'own view': memoryview(bytearray(data)), 'bytes': data}[kind]
        try:
            call(given)
        except Exception as exc:
            if call == self.conn.send_data:
                raise
            self.error = self.error or exc
        finally:
            self.changed = self.changed or bytes(given) != data
            if kind != 'bytes':
                given[:] = trash * len(given)
            self.scratch[:] = trash * len(self.scratch)

    def tx(self):
        return self.take(self.conn.data_to_send())

    def take(self, buffer):
        self.handed.append((buffer, bytes(buffer)))
        return bytes(buffer)

    def send(self, data):
        self.lend(self.conn.send_data, data, b'\xee')


def flags(conn):
    return conn.is_connected(), conn.is_post_handshake()


def misuse(dut, op, moment, what):
    """ One call that must change nothing. """
    conn = dut.conn
    was = flags(conn)
    raised = None
    if op.startswith('send') and op in ('send', 'send_big'):
        if moment in ('open', 'rx closed'):
            return                       # this is ordinary use
        if (dut.side, moment) == ('server', 'fin'):
            return                       # allowed by the RFC, C03 looks at it
    if op == 'init' and moment == 'start':
        return
    try:
        match op:
            case 'init': conn.initiate_connection()
            case 'send': conn.send_data(b'too early or too late')
            case 'send_big': conn.send_data(b'y' * 40000)
            case 'send_none': conn.send_data(None)
            case 'send_str': conn.send_data('text')
            case 'send_int': conn.send_data(12)
            case 'send_obj': conn.send_data(object())
            case 'recv_empty': conn.receive_data(b'')
            case 'recv_none': conn.receive_data(None)
            case 'recv_str': conn.receive_data('text')
            case 'recv_int': conn.receive_data(22)
            case 'recv_obj': conn.receive_data(object())
            case 'rekey': conn.rekey()
            case 'status': flags(conn); repr(conn); str(conn.nconfig); conn.max_fragment_length
            case 'wrap': conn.wrap(None)
            case 'conf': conn.config.log_keys = True
            case 'scribble':
                for buffer in (conn.data_to_send(), conn.data_to_read()):
                    need(not buffer, f'{what}: {bytes(buffer)[:40]} came from nowhere')
                    if isinstance(buffer, bytearray):
                        buffer += b'scribbled'
    except Exception as exc:
        raised = exc
    if op in MUST_RAISE and moment not in ('rx closed', 'both closed', 'failed'):
        need(raised is not None, f'{what}: not refused')
    if op in ('send', 'send_big'):
        need(raised is not None, f'{what}: not refused')
    out, read = bytes(conn.data_to_send()), bytes(conn.data_to_read())
    need(not out, f'{what}: emitted {out[:60].hex()}')
    need(not read, f'{what}: delivered {read[:60]}')
    need(flags(conn) == was, f'{what}: (connected, post handshake) went from {was} to {flags(conn)}')


def de_bruijn(k, n):
    """ cyclic sequence with every n letters out of k, plus its head to close it """
    a, out = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                out.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return out + out[:n - 1]


def cases(tier):
    n = 2 if tier == 'quick' else 3
    for role in WORLDS:
        for ci in range(len(CONFIGS[role])):
            for pi, path in enumerate(PATHS[role]):
                where = [(k, part) for k in range(len(path)) for part in ('before', 'inside')]
                where += [(-1, 'start')] + [(len(path), late) for late in LATE]
                for k, part in where:
                    yield [role, ci, pi, k, part, ['all', n]]
                    for op in OPS:
                        yield [role, ci, pi, k, part, [op]]
                if ci and tier == 'quick':
                    continue
                syms = A.alphabet(WORLDS[role])
                for k in range(len(path) + 1):
                    for ops in [OPS] if tier == 'quick' else [OPS] + [[op] for op in OPS]:
                        for sym in syms:
                            yield [role, ci, pi, k, 'then ' + sym, ops]


def describe(tier):
    return {'bounds': f'every sequence of {2 if tier == "quick" else 3} misplaced calls at every '
                      'point of the exchange, each call alone followed by an honest exchange, all of them followed '
                      'by each event of the alphabet of C01 and C02'}


def run(case, obs):
    role, ci, pi, at, part, ops = case
    if ops[0] == 'all':
        ops = [OPS[i] for i in de_bruijn(len(OPS), ops[1])]
    path = PATHS[role][pi]
    what = f'{role} {ci} {path} {part} {path[at] if 0 <= at < len(path) else "the end"} {ops if len(ops) < 3 else "many"}'
    A.impl.Impl = Dut
    Dut.before_start = ops if part == 'start' else ()
    try:
        w = WORLDS[role](**CONFIGS[role][ci])
    finally:
        A.impl.Impl = impl.Impl if impl.Impl is not Dut else Dut.__base__
        Dut.before_start = ()
    dut, peer = w.dut, w.peer
    then = part[5:] if part.startswith('then ') else None

    def all_ops(moment):
        for i, op in enumerate(ops):
            misuse(dut, op, moment, f'{what}: call {i} {op}')
            obs.step()
            obs.state(role, ci, pi, at, part, op)

    for k, sym in enumerate(path):
        if k == at and then:
            break
        if k == at and part == 'before':
            all_ops(w.stage)
        if k == at and part == 'inside':
            halved(w, lambda: all_ops(w.stage))
        need(w.deliver(sym, obs, what) is True, f'{what}: the handshake stopped at {sym}')
    if then:
        all_ops({'conn': 'open'}.get(w.stage, w.stage))
        w.deliver(then, obs, what)       # compares with the automaton
        obs.trace()
        return
    dut.__dict__.pop('rx', None)
    need(not peer.app and not dut.read, f'{what}: data that nobody sent')
    need(dut.connected, f'{what}: not connected')
    late = part if part in LATE else 'open'
    talk(w, what, 1)
    if late == 'failed':
        need(not dut.rx(peer.send(22, b'\x0b\0\0\0')), f'{what}: this should fail')
        peer.feed(dut.tx())
        all_ops(late)
        dut.assert_dead(what)
    else:
        if late in ('rx closed', 'both closed'):
            need(dut.rx(peer.send_alert(0, 1)), f'{what}: close_notify refused')
        if late in ('tx closed', 'both closed'):
            dut.conn.close_sending_end()
        peer.feed(dut.tx())
        if part in LATE:
            all_ops(late)
        talk(w, what, 2, tx=late in ('open', 'rx closed'), rx=late in ('open', 'tx closed'))
        if late in ('open', 'rx closed'):
            dut.conn.close_sending_end()
        peer.feed(dut.tx())
        need([tuple(e[1]) for e in peer.events if e[0] == ALERT] == [(1, 0)],
             f'{what}: alerts {peer.alerts}')
    need(not dut.changed, f'{what}: a buffer that was lent is changed')
    for buffer, content in dut.handed:
        need(bytes(buffer) == content, f'{what}: a buffer that was handed out changed afterwards')
    obs.outcome(f'{role}/{part}')
    obs.trace()


def halved(w, between):
    """ The next delivery comes in two halves, with calls in between. """
    dut = w.dut

    def rx(data):
        dut.__dict__.pop('rx')
        half = len(data) // 2
        ok = dut.rx(data[:half])
        if ok:
            between()
            ok = dut.rx(data[half:])
        return ok
    dut.rx = rx


def talk(w, what, i, tx=True, rx=True):
    dut, peer = w.dut, w.peer
    if tx:
        data = b'from us %d ' % i + b'.' * 5000
        had = peer.app
        dut.send(data[:50])
        dut.send(data[50:])
        peer.feed(dut.tx())
        need(peer.app == had + data, f'{what}: data sent is not what arrived')
    if rx:
        data = b'from the peer %d' % i
        had = dut.read
        need(dut.rx(peer.send(APPDATA, data) + peer.send(APPDATA, b'!')),
             lambda: f'{what}: data refused: {dut.error!r}')
        need(dut.read == had + data + b'!', f'{what}: data received is not what was sent')

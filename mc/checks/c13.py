"""
C13: nonces and usage limits.  Every AEAD call of both connections is recorded.
"""
import itertools

from .. import aead_monitor, impl, pairs, ref      # the reference keeps the unrecorded ciphers
from ..engine import need

PROP = 'C13'
ASSUMPTIONS = ['siotls encrypts with the one-shot AEAD classes of pyca/cryptography; were it '
               'otherwise only the wire format (checked by the reference peer) is monitored']
OPS = ['Cs', 'Cb', 'Ss', 'Sb', 'c>s', 's>c', 'Cx', 'Sx', 'c!s', 'Ce']
PRE = ['Cs', 'Ss', 'c>s', 's>c', 'Cx', 'Sx', 'c!s', 's!c', 'c>s.', 's>c.']
SHAPES = {
    'plain': {}, 'hrr': {'hrr': True}, 'mfl': {'mfl': 512},
}
# RFC 8446 section 5.5, and the width of the sequence number
RFC_LIMIT = {ref.AES128: 23726566, ref.AES256: 23726566, ref.CHACHA: 2**64}


def cases(tier):
    quick = tier == 'quick'
    depth = 3 if quick else 4
    for suite in ref.SUITES:
        for shape in SHAPES:
            if suite != ref.CHACHA and shape != 'plain' and quick:
                continue
            for d in range(depth + 1):
                for ops in itertools.product(OPS, repeat=d):
                    yield ['connected', suite, shape, list(ops)]
    for shape in SHAPES:
        for d in range(1, 5 if quick else 6):
            for ops in itertools.product(PRE, repeat=d):
                if quick and d == 4 and ops[0] != 'c>s':
                    continue
                if d == 5 and ops[0] != 'c>s':
                    continue
                yield ['handshake', ref.CHACHA, shape, list(ops)]
    for suite in ref.SUITES:
        for role in ('client', 'server'):
            for bits in (8, 16, 24, 32, 40, 48, 56, 63):
                if 2**bits + 2000 < 2**23.5 or suite == ref.CHACHA:
                    for before in (0, 1, 2):
                        for ops in itertools.product('sbrR', repeat=3 if quick else 5):
                            yield ['jump', suite, role, bits, before, ''.join(ops)]
    for suite in ref.SUITES:
        for role in ('client', 'server'):
            for direction in ('write', 'read'):
                for base in ('rfc', 'own'):
                    for k in (0, 1, 2, 3, 4, 5, 8, 1022, 1023, 1024, 1025, 1026):
                        yield ['limit', suite, role, direction, base, k]


def run(case, obs):
    del aead_monitor.CALLS[:]
    {'connected': connected, 'handshake': handshake, 'limit': limit, 'jump': jump}[case[0]](case, obs)


def monitor(what, obs, start=None):
    """ Every key is used for one direction, with strictly successive nonces. """
    sealed, opened, keys = {}, {}, {}
    for op, key, nonce, ok in aead_monitor.CALLS:
        book = sealed if op == 'seal' else opened
        past = book.setdefault(key, [])
        n = int.from_bytes(nonce, 'big')
        need(len(nonce) == 12, f'{what}: nonce of {len(nonce)} bytes')
        if op == 'seal':
            need(n not in past, f'{what}: nonce used twice to protect')
        past.append(n)
    for name, book in (('protected', sealed), ('opened', opened)):
        for key, past in book.items():
            first = 0 if start is None else start.get(key, 0)
            base = past[0] ^ first
            for i, n in enumerate(past):
                need(n == base ^ (first + i), f'{what}: record {first + i} {name} out of sequence')
            obs.state(name, len(past), first)
    # what one side protects and the other opens agree on the key
    for key, past in opened.items():
        if key in sealed:
            need(past[0] == sealed[key][0] or start, f'{what}: not the same sequence')
    ivs = [past[0] for past in sealed.values()]
    if not start:
        need(len(set(ivs)) == len(ivs), f'{what}: two keys start with the same nonce')
    return sealed, opened


def make(suite, shape):
    opts = SHAPES[shape]
    ckw, skw = {'cipher_suites': impl.suites([suite])}, {'cipher_suites': impl.suites([suite])}
    if opts.get('hrr'):
        skw['key_exchanges'] = impl.groups([ref.P256])
        ckw['key_exchanges'] = impl.groups([ref.X25519, ref.P256])
    if opts.get('mfl'):
        ckw['max_fragment_length'] = impl.MaxFragmentLengthOctets(opts['mfl'])
    return pairs.siotls_pair(ckw, skw)


class Net:
    def __init__(self, c, s):
        self.dut = {'c': c, 's': s}
        self.wire = {'c': b'', 's': b''}

    def do(self, op):
        try:
            if op[0] in 'CS':
                who = self.dut[op[0].lower()].conn
                if op[1] == 'x':
                    who.close_sending_end()
                else:
                    who.send_data({'s': b'x', 'b': b'y' * 40000, 'e': b''}[op[1]])
            else:
                src, dst = self.dut[op[0]], self.dut[op[2]]
                self.wire[op[0]] += src.tx()
                n = len(self.wire[op[0]])
                if op.endswith('.'):
                    n = min(n, 200)
                data, self.wire[op[0]] = self.wire[op[0]][:n], self.wire[op[0]][n:]
                if op[1] == '!' and data:          # the last byte is corrupted
                    data = data[:-1] + bytes([data[-1] ^ 1])
                if data:
                    dst.conn.receive_data(data)
        except Exception:
            return False
        return True


def connected(case, obs):
    _, suite, shape, ops = case
    c, s = make(suite, shape)
    pairs.pump(c, s)
    need(c.connected and s.connected, 'handshake failed')
    net = Net(c, s)
    for op in ops:
        net.do(op)
        obs.step()
    for op in ('c>s', 's>c', 'c>s', 's>c'):
        net.do(op)
    sealed, _ = monitor(f'{ops}', obs)
    need(not aead_monitor.CALLS or len(sealed) >= 2, f"{ops}: {len(sealed)} keys")
    obs.outcome(f'{suite:04x}/{shape}/{len(sealed)} keys')
    obs.trace()


def handshake(case, obs):
    _, suite, shape, ops = case
    c, s = make(suite, shape)
    net = Net(c, s)
    for op in ops:
        net.do(op)
        obs.step()
    monitor(f'handshake {ops}', obs)
    pairs_pump_quiet(net)
    monitor(f'handshake {ops} (end)', obs)
    obs.outcome(f'{shape}/{c.connected}/{s.connected}')
    obs.trace()


def pairs_pump_quiet(net):
    for _ in range(6):
        net.do('c>s')
        net.do('s>c')


def iterators(obj, depth=0, seen=None):
    """ the integer range iterators reachable from an object: (path, iterator) """
    seen = set() if seen is None else seen
    if id(obj) in seen or depth > 3:
        return
    seen.add(id(obj))
    for name, value in list(getattr(obj, '__dict__', {}).items()):
        if type(value).__name__ in ('range_iterator', 'longrange_iterator'):
            yield (name,), value
        elif type(value).__module__.startswith('siotls'):
            for path, it in iterators(value, depth + 1, seen):
                yield (name, *path), it


def place(dut, peer, suite, direction, where):
    """
    Fast-forward the sequence number of one direction, the peer's too.  ``where`` tells the new
    number given the last one siotls foresees.  False when the counter is nowhere to be found.
    """
    cipher = getattr(dut.conn, '_cipher', None)
    found = [(path, it) for path, it in iterators(cipher)
             if any(direction in name for name in path)] if cipher is not None else []
    cipher_dir = peer.rx if direction == 'write' else peer.tx
    counters = [name for name, value in getattr(cipher, '__dict__', {}).items()
                if type(value) is int and direction in name and value == cipher_dir.seq]
    if len(found) != 1 and len(counters) == 1:
        start = where(RFC_LIMIT[suite])
        setattr(cipher, counters[0], start)
        cipher_dir.seq = start
        return True
    if len(found) != 1:
        return False
    it = found[0][1]
    rest = it.__reduce__()[1][0]
    if rest.start != cipher_dir.seq:       # one number was drawn in advance, have it used
        if direction == 'write':
            dut.send(b'')
            dut.send(b'flush')
            peer.feed(dut.tx())
        else:
            need(dut.rx(peer.send(ref.APPDATA, b'flush')), 'data refused')
        rest = it.__reduce__()[1][0]
    need(rest.start == cipher_dir.seq, 'the sequence number is not the number of records')
    start = where(rest.stop)
    if start is None:
        return False
    it.__setstate__(start - rest.start)
    cipher_dir.seq = start
    return True


def jump(case, obs):
    """ Both directions about to use a byte more of the sequence number. """
    _, suite, role, bits, before, ops = case
    dut, peer = pairs.vs_ref(role, suite=suite)
    start = (1 << bits) - before
    for direction in ('write', 'read'):
        if not place(dut, peer, suite, direction, lambda stop: start if start + 2000 < stop else None):
            obs.outcome('sequence numbers cannot be placed')
            return
    del aead_monitor.CALLS[:]
    what = f'{suite:#x} {role} from the record 2^{bits} - {before}, {ops}'
    sent = received = b''
    peer.app = b''
    dut.read = b''
    for i, op in enumerate(ops):
        obs.step()
        if op in 'sb':
            data = b'%d' % i if op == 's' else b'y' * 20000
            dut.send(data)
            sent += data
            peer.feed(dut.tx())
        else:
            n = 1 if op == 'r' else 2
            data = b'%d' % i
            received += data * n
            need(dut.rx(b''.join(peer.send(ref.APPDATA, data) for _ in range(n))),
                 lambda: f'{what}: {dut.error!r}')
            peer.feed(dut.tx())
    need(peer.app == sent and dut.read == received, f'{what}: not the same data')
    calls = [n for op, key, n, ok in aead_monitor.CALLS if op == 'seal']
    need(len(calls) == len(set(calls)), f'{what}: nonce reused')
    obs.state(suite, role, bits, before, len(calls))
    obs.outcome(f'{suite:04x}/{role}/2^{bits}')
    obs.trace()


def limit(case, obs):
    """ One direction close to a limit, then beyond. """
    _, suite, role, direction, base, k = case
    dut, peer = pairs.vs_ref(role, suite=suite)
    top = RFC_LIMIT[suite]
    if place(dut, peer, suite, direction,
             lambda stop: (min(top, stop) if base == 'own' else top) - k):
        go_on(case, dut, peer, obs)
    else:
        obs.outcome('sequence numbers cannot be placed')


def go_on(case, dut, peer, obs):
    _, suite, role, direction, base, k = case
    del aead_monitor.CALLS[:]
    done = 0
    what = f'{hex(suite)} {role} {direction}, {k} records before the {base} limit'
    for i in range(k + 3):
        obs.step()
        if direction == 'write':
            try:
                dut.send(b'record %d' % i)
            except Exception:
                out = dut.tx()
                need(not out, f'{what}: refused data was sent')
                break
            before = peer.app
            peer.feed(dut.tx())
            need(peer.app == before + b'record %d' % i, f'{what}: wrong data')
        else:
            before = dut.read
            try:
                raw = peer.send(ref.APPDATA, b'record %d' % i)
            except OverflowError:
                break
            ok = dut.rx(raw)
            if not ok and not dut.read[len(before):]:
                break
            need(dut.read == before + b'record %d' % i, f'{what}: wrong data')
        done += 1
    need(done <= k, f'{what}: {done} more records were processed')
    mine = 'seal' if direction == 'write' else 'open'
    calls = [n for op, key, n, ok in aead_monitor.CALLS if op == mine]
    need(len(calls) == len(set(calls)) and len(calls) <= k,
         f'{what}: {len(calls)} more AEAD calls')
    # it is over for good in that direction
    for _ in range(3):
        if direction == 'write':
            try:
                dut.send(b'too much')
            except Exception:
                pass
            need(not dut.tx(), f'{what}: went on after the limit')
        else:
            dut.rx(peer.tx.seal(ref.APPDATA, b'too much')) if peer.tx.seq < 2**64 else None
            need(b'too much' not in dut.read, f'{what}: went on after the limit')
    try:
        dut.conn.close_sending_end()
    except Exception:
        pass
    calls = [n for op, key, n, ok in aead_monitor.CALLS if op == 'seal']
    need(len(calls) == len(set(calls)), f'{what}: nonce reused while closing')
    if direction == 'write':
        need(len(calls) <= k, f'{what}: {len(calls)} records protected')
    obs.state(suite, role, direction, base, k, done)
    obs.outcome(f'{suite:04x}/{direction}/{base}/{"stopped early" if done < k else "at the limit"}')
    obs.trace()

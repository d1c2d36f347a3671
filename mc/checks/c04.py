""" C04: application data stream integrity. """
import itertools

from .. import impl, pairs, ref
from ..engine import need

PROP = 'C04'
LIMITS = [512, 1024, 2048, 4096, None]
PAIR_OPS = ['Cs', 'Cb', 'Ce', 'Ss', 'Sb', 'c>s', 'c>s.', 's>c', 's>c.', 'rC', 'rS']


def cases(tier):
    # every size up to beyond the record limit
    step = 64
    for role in ('client', 'server'):
        for si, suite in enumerate(ref.SUITES):
            for limit in LIMITS:
                if tier == 'quick' and limit in (1024, 2048):
                    continue
                top = (limit or 2**14) * 2 + 64
                if tier == 'quick' and (limit is None and si):
                    continue
                for lo in range(0, top, step):
                    if tier == 'quick' and limit is None and not interesting(lo, step):
                        continue
                    yield ['sweep', role, suite, limit, lo, lo + step]
    # every padding, contents that look like padding or like a type
    for role in ('client', 'server'):
        for suite in ref.SUITES:
            for limit in (512, None):
                for name in CONTENTS:
                    for lo in range(0, (limit or 2**14) + 1, 512):
                        if tier == 'quick' and (suite != ref.CHACHA or limit is None) \
                                and lo % 4096 and lo != 3584:
                            continue
                        yield ['padding', role, suite, limit, name, lo, lo + 512]
                yield ['content', role, suite, limit]
    # a lot of data, nothing of it drained before the end
    for role in ('client', 'server'):
        for suite in ref.SUITES if tier == 'thorough' else (ref.AES128,):
            for limit in (512, None):
                for size in (300_000, (1 << 20) + 1, 5 << 20, *((20 << 20,) * (tier == 'thorough'))):
                    if limit and size > 1 << 21:
                        continue
                    for how in ('once', 'many'):
                        for end in ('none', 'close_sending', 'peer_close', 'close_receiving',
                                    'forged', 'alert', 'overflow', 'handshake'):
                            yield ['large out', role, suite, limit, size, how, end]
                    for how in ('once', 'records', 'odd'):
                        for end in ENDS:
                            if end == 'none' or size < 5 << 20:
                                yield ['large in', role, suite, limit, size, how, end]
    # every short program of sends, deliveries and reads between two siotls
    for mfl in (None, 512):
        for d in range(1, 4 if tier == 'quick' else 5):
            for ops in itertools.product(PAIR_OPS, repeat=d):
                yield ['pair', mfl, list(ops)]
        yield from reversed_deep(mfl, tier)


def reversed_deep(mfl, tier):
    """ two sends in each direction, every order of the deliveries and reads """
    base = ['Cs', 'Cb', 'Ss', 'Sb', 'c>s', 's>c']
    for perm in itertools.permutations(base):
        if tier == 'thorough' or perm[0] in ('Cb', 'Sb'):
            yield ['pair', mfl, [*perm, 'rC', 'rS']]


def interesting(lo, step):
    """ ranges around the padding boundaries and the record limit, all of them when thorough """
    return any(lo - step <= b <= lo + step for b in
               (0, 4096, 8192, 12288, 16384, 16384 * 2))


def run(case, obs):
    {'sweep': sweep, 'pair': pair, 'padding': padding, 'content': content,
     'large out': large_out, 'large in': large_in}[case[0]](case, obs)


ENDS = ['none', 'peer_close', 'close_sending', 'close_receiving', 'forged', 'alert', 'overflow',
        'handshake']


LAST = {
    'peer_close': lambda peer: peer.send_alert(0, 1), 'alert': lambda peer: peer.send_alert(80, 2),
    'forged': lambda peer: ref.rec(ref.APPDATA, bytes(50)),
    'overflow': lambda peer: ref.rec(ref.APPDATA, bytes(2**14 + 300)),
    'handshake': lambda peer: peer.send(ref.HANDSHAKE, b'\x14\0\0\0'),
}


def chunks(data, n):
    return [data[i:i + n] for i in range(0, len(data), n)]


def large_out(case, obs):
    """ everything written stays in the buffer until the caller takes it """
    _, role, suite, limit, size, how, end = case
    dut, peer = pairs.vs_ref(role, suite=suite, mfl=limit)
    data = pattern(size, size)
    for part in [data] if how == 'once' else chunks(data, 10_007):
        dut.send(part)
        obs.step()
    if end == 'close_sending':
        dut.conn.close_sending_end()
    elif end == 'close_receiving':
        dut.conn.close_receiving_end()
    elif end == 'peer_close':
        need(dut.rx(peer.send_alert(0, 1)), lambda: f'{case}: {dut.error!r}')
    elif end != 'none':
        need(not dut.rx(LAST[end](peer)), f'{case}: accepted')
    peer.feed(dut.tx())
    need(not peer.inbuf, f'{case}: incomplete record emitted')
    need(peer.app == data, lambda: f'{case}: {size} bytes sent, {len(peer.app)} received, '
         f'the same up to {same(peer.app, data)}')
    fatal = end in ('forged', 'overflow', 'handshake')
    need([level for level, _ in peer.alerts] == [2] if fatal else
         peer.alerts == [(1, 0)] * (end == 'close_sending'), f'{case}: alerts {peer.alerts}')
    need(not fatal or peer.events[-1][0] == ref.ALERT, f'{case}: the alert overtakes the data')
    obs.state(*case)
    obs.outcome(f'large out/{end}')
    obs.trace()


def same(a, b):
    return next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))


def large_in(case, obs):
    """ everything received stays readable until the caller reads it, whatever happens next """
    _, role, suite, limit, size, how, end = case
    dut, peer = pairs.vs_ref(role, suite=suite, mfl=limit)
    data = pattern(size, size)
    records = [peer.send(ref.APPDATA, part) for part in chunks(data, limit or 2**14)]
    last = LAST.get(end, lambda peer: b'')(peer)
    wire = {'once': [b''.join(records) + last], 'records': [*records, last],
            'odd': [*chunks(b''.join(records), 4099), last]}[how]
    failed = False
    wire = [part for part in wire if part]
    for part in wire:
        try:
            dut.conn.receive_data(part)
        except Exception as exc:
            failed = exc
        obs.step()
    if end == 'close_sending':
        dut.conn.close_sending_end()
    elif end == 'close_receiving':
        dut.conn.close_receiving_end()
    need(bool(failed) == (end in ('forged', 'alert', 'overflow', 'handshake')),
         f'{case}: {failed!r}')
    got = bytes(dut.conn.data_to_read())
    need(got == data, lambda: f'{case}: {size} bytes received, {len(got)} delivered, the same '
         f'up to {same(got, data)}')
    need(not dut.conn.data_to_read(), f'{case}: read twice')
    obs.state(*case)
    obs.outcome(f'large in/{end}')
    obs.trace()


CONTENTS = {'none': b'', 'zero': b'\0', 'zeros': bytes(20), 'type': b'\x17', 'alert': b'\2\x28\x15',
            'tail': b'data\0\0\0', 'head': b'\0\0data', 'ones': b'\xff' * 3}


def padding(case, obs):
    _, role, suite, limit, name, lo, hi = case
    dut, peer = pairs.vs_ref(role, suite=suite, mfl=limit)
    data = CONTENTS[name]
    step = 1 if limit else 7                  # 7 and 512 are coprime with each other
    for pad in [*range(lo, hi, step), hi - 1]:
        if len(data) + pad > (limit or 2**14):
            pad = (limit or 2**14) - len(data)
        dut.read = b''
        need(dut.rx(peer.send(ref.APPDATA, data, pad=pad)),
             lambda: f'{data!r} padded with {pad} bytes refused: {dut.error!r}')
        need(dut.read == data, lambda: f'{data!r} padded with {pad} bytes: {dut.read!r} delivered')
        obs.step()
    obs.state(*case)
    obs.outcome(f'padding/{role}/{name}')
    obs.trace()


def content(case, obs):
    _, role, suite, limit = case
    dut, peer = pairs.vs_ref(role, suite=suite, mfl=limit)
    some = [*CONTENTS.values(), *(bytes([b]) for b in range(256)),
            *(bytes([b, 0]) for b in range(256)), *(bytes([0, b]) for b in range(256)),
            *(bytes([b]) * n for b in (0, 1, 0x14, 0x15, 0x16, 0x17, 0xff)
              for n in (2, 3, 255, 256, 257, 494, 495, 496, 511, 512, 513, 4079, 4080, 16384)),
            b'\r\n', b'\r\n\r\n', 'é€'.encode(), b'{} %s {0!r} \\x']
    for data in some:
        before = len(peer.app)
        dut.send(data)
        peer.feed(dut.tx())
        need(not peer.inbuf and peer.app[before:] == data,
             lambda: f'{data[:20]!r}... sent, {peer.app[before:][:20]!r} was received')
        dut.read = b''
        for i in range(0, len(data) or 1, limit or 2**14):
            need(dut.rx(peer.send(ref.APPDATA, data[i:i + (limit or 2**14)])),
                 lambda: f'{data[:20]!r} refused: {dut.error!r}')
        need(dut.read == data, lambda: f'{data[:20]!r} received, {dut.read[:20]!r} delivered')
        obs.step(2)
    obs.state(*case)
    obs.outcome(f'content/{role}')
    obs.trace()


def pattern(n, seed):
    block = bytes((i * 7 + seed) % 251 for i in range(251))
    return (block * (n // 251 + 1))[:n]


def sweep(case, obs):
    _, role, suite, limit, lo, hi = case
    dut, peer = pairs.vs_ref(role, suite=suite, mfl=limit)
    maxlen = limit or 2**14
    for n in range(lo, hi):
        obs.state(role, suite, limit, n)
        data = pattern(n, n)
        before = len(peer.app)
        dut.send(data)
        peer.feed(dut.tx())
        need(not peer.inbuf, 'incomplete record emitted')
        need(peer.app[before:] == data, f'{n} bytes sent, something else was received')
        # and back, cut in records of the maximum size, with some padding when there is room
        dut.read = b''
        for i in range(0, n, maxlen):
            frag = data[i:i + maxlen]
            raw = peer.send(ref.APPDATA, frag, pad=min(n % 5, maxlen - len(frag)))
            need(dut.rx(raw), lambda: f'{n} bytes refused: {dut.error!r}')
        need(dut.read == data, f'{n} bytes received, something else was delivered')
        obs.step(2)
    obs.outcome(f'sweep/{role}/{suite:04x}/{limit}')
    obs.trace()


def pair(case, obs):
    _, mfl, ops = case
    kw = {'max_fragment_length': impl.MaxFragmentLengthOctets(mfl)} if mfl else {}
    c, s = pairs.connected_pair(kw)
    limit = mfl or 2**14
    sizes = {'s': 3, 'b': 2 * limit + 5, 'e': 0}
    wire = {'c': b'', 's': b''}
    sent = {'c': b'', 's': b''}
    got = {'c': b'', 's': b''}
    duts = {'c': c, 's': s}

    def deliver(src, everything):
        dst = duts['s' if src == 'c' else 'c']
        wire[src] += duts[src].tx()
        n = len(wire[src]) if everything else min(7, len(wire[src]))
        if n:
            chunk, wire[src] = wire[src][:n], wire[src][n:]
            try:
                dst.conn.receive_data(chunk)
            except Exception as exc:
                need(False, f'{ops}: failed: {exc!r}')
        obs.step()

    def read(who):
        data = bytes(duts[who].conn.data_to_read())
        got[who] += data
        other = 's' if who == 'c' else 'c'
        need(sent[other].startswith(got[who]), f'{ops}: not a prefix of what was sent')
        need(not duts[who].conn.data_to_read(), f'{ops}: data read twice')

    for i, op in enumerate(ops):
        obs.state(mfl, len(sent['c']), len(sent['s']), len(wire['c']), len(wire['s']),
                  len(got['c']), len(got['s']), op)
        if op[0] in 'CS' and len(op) == 2:
            who = op[0].lower()
            data = pattern(sizes[op[1]], i + 1)
            duts[who].send(data)
            sent[who] += data
            obs.step()
        elif '>' in op:
            deliver(op[0], not op.endswith('.'))
        else:
            read(op[1].lower())
    for src in 'cs':
        deliver(src, True)
    for who in 'cs':
        read(who)
    need(got['s'] == sent['c'] and got['c'] == sent['s'], f'{ops}: data lost')
    need(c.connected and s.connected, f'{ops}: connection lost')
    obs.outcome(f'pair/{mfl}')
    obs.trace()

""" C14: record size limits, both ways. """
from .. import impl, pairs, pki, ref
from ..engine import need

PROP = 'C14'
LIMITS = [512, 1024, 2048, 4096, None]


def cases(tier):
    for role in ('client', 'server'):
        for suite in ref.SUITES:
            for limit in LIMITS:
                top = limit or 2**14
                # what is emitted
                if limit == 512:
                    ns = range(0, 3 * top + 40)
                else:
                    ns = [m + d for m in (0, 1024, 2048, 4096, 8192, 12288, 16384, 32768)
                          if m <= 2 * top for d in range(-40, 24) if m + d >= 0]
                ns = sorted(set(ns))
                for i in range(0, len(ns), 128):
                    yield ['out', role, suite, limit, ns[i:i + 128]]
                # what is accepted: content length x padding around the limits
                for delta in range(-3, 4):
                    for pad in (0, 1, 2, 17, 254, 255, 256):
                        yield ['in', role, suite, limit, top + delta - pad, pad]
                for over in (256, 257, 300, 40000):
                    yield ['header', role, suite, limit, over]
    # the server does not honor the limit of the client: there is none
    for suite in ref.SUITES:
        for limit in LIMITS[:-1]:
            for pad in (0, 1, 255):
                for top in (limit, limit + 256, 2**14):
                    yield ['declined', suite, limit, [max(top + d - pad, 0) for d in (-1, 0, 1)], pad]
    # unprotected records, before anything is negotiated
    for role in ('client', 'server'):
        for limit in LIMITS if role == 'client' else [None]:
            for size in (1, 511, 512, 513, 514, 769, 1024, 4096, 4353, 16383, 16384, 16385,
                         16386, 16640, 16641, 65535):
                yield ['plain', role, limit, size]
    # handshake flights with long certificate chains
    for limit in LIMITS:
        for n in (1, 3, 8, 40):
            yield ['flight', limit, n]
            for frag in (1, 100, 511, 512):
                if (frag > 1 or n == 1) and (frag <= (limit or 512)):
                    yield ['flight_in', limit, n, frag]


def check_sizes(peer, limit, what, since=0):
    for epoch, length, inner, content in peer.record_sizes[since:]:
        if epoch == 'plain':
            need(length <= limit, f'{what}: plaintext record of {length}')
        else:
            need(length <= limit + 256, f'{what}: ciphertext of {length} > {limit}+256')
            need(inner <= limit + 1, f'{what}: inner plaintext of {inner} > {limit}+1')
            need(content <= limit, f'{what}: content of {content} > {limit}')


def run(case, obs):
    kind = case[0]
    obs.state(*case)
    globals()['run_' + kind](case, obs)
    obs.outcome(kind)
    obs.trace()


def run_out(case, obs):
    _, role, suite, limit, ns = case
    dut, peer = pairs.vs_ref(role, suite=suite, mfl=limit)
    top = limit or 2**14
    # the very first flight of a client is sent before anything is negotiated
    check_sizes(peer, top, 'handshake')
    for n in ns:
        obs.state(role, suite, limit, n)
        since, before = len(peer.record_sizes), len(peer.app)
        dut.send(b'z' * n)
        peer.feed(dut.tx())
        check_sizes(peer, top, f'{role} sending {n}', since)
        need(len(peer.app) - before == n, f'{role}: {n} bytes sent, not received')
        obs.step()


def run_in(case, obs):
    _, role, suite, limit, content, pad = case
    if content < 0:
        return
    dut, peer = pairs.vs_ref(role, suite=suite, mfl=limit)
    top = limit or 2**14
    data = b'q' * content
    ok = dut.rx(peer.send(ref.APPDATA, data, pad=pad))
    obs.step()
    inner = content + 1 + pad
    if inner <= top + 1:
        need(ok, lambda: f'record of {content}+{pad} refused: {dut.error!r}')
        need(dut.read == data, 'wrong data')
    else:
        need(not ok, f'inner plaintext of {inner} bytes accepted, the limit is {top + 1}')
        overflow(dut, peer, '')


def run_declined(case, obs):
    _, suite, limit, sizes, pad = case
    for size in sizes:
        dut, peer = pairs.vs_ref('client', suite=suite,
                                 max_fragment_length=impl.MaxFragmentLengthOctets(limit))
        ok = dut.rx(peer.send(ref.APPDATA, b'q' * size, pad=pad))
        obs.step()
        if size + pad <= 2**14:
            need(ok, lambda: f'{size}+{pad} bytes refused, the server has no limit: {dut.error!r}')
            need(dut.read == b'q' * size, 'wrong data')
            since, before = len(peer.record_sizes), len(peer.app)
            dut.send(b'z' * (size * 2))
            peer.feed(dut.tx())
            check_sizes(peer, 2**14, 'limit declined', since)
            need(len(peer.app) - before == size * 2, 'data lost')
        else:
            need(not ok, f'{size}+{pad} bytes accepted')
            overflow(dut, peer, 'declined')
    # and a certificate in one large record
    key, chain = pki.leaf()
    dut = impl.Impl.client(max_fragment_length=impl.MaxFragmentLengthOctets(limit)).start()
    peer = ref.RefServer(key, chain + [pki.root().cert] * 10, suite=suite)
    peer.feed(dut.tx())
    need(dut.rx(peer.flight()), lambda: f'flight refused: {dut.error!r}')
    obs.step()
    need(dut.connected, 'not connected')


def overflow(dut, peer, what):
    need(dut.alert == ref.ALERTS['record_overflow'],
         lambda: f'{what}: expected record_overflow, got {dut.error!r}')
    out = dut.tx()
    peer.feed(out)
    need(peer.alerts == [(2, ref.ALERTS['record_overflow'])],
         f'{what}: expected a record_overflow alert, sent {peer.alerts}')
    dut.assert_dead(what, [b'\x17\x03\x03\0\1x'])


def run_header(case, obs):
    """ the header alone is enough to know that the record is too long """
    _, role, suite, limit, over = case
    dut, peer = pairs.vs_ref(role, suite=suite, mfl=limit)
    n = (limit or 2**14) + over
    ok = dut.rx(b'\x17\x03\x03' + ref.u16(n) + b'\0' * 100)
    obs.step()
    if over <= 256:
        need(ok, lambda: f'ciphertext length {n} refused: {dut.error!r}')
        # and it can't be deprotected
        need(not dut.rx(b'\0' * (n - 100)), 'forged record accepted')
        need(dut.alert == ref.ALERTS['bad_record_mac'], lambda: f'{dut.error!r}')
    else:
        need(not ok, f'ciphertext length {n} accepted')
        overflow(dut, peer, f'header {n}')


def run_plain(case, obs):
    _, role, limit, size = case
    if role == 'client':
        kw = {'max_fragment_length': impl.MaxFragmentLengthOctets(limit)} if limit else {}
        dut = impl.Impl.client(**kw).start()
        peer = ref.RefServer(*pki.leaf())
        peer.feed(dut.tx())
        check_sizes(peer, limit or 2**14, 'ClientHello')
        kind = 2
    else:
        dut = impl.Impl.server().start()
        peer = ref.RefClient()
        kind = 1
    # a handshake message which is longer than its first record, so it isn't parsed yet
    head = ref.u8(kind) + ref.u24(100000)
    data = (head + bytes(size))[:size]
    ok = dut.rx(b'\x16\x03\x03' + ref.u16(size) + data)
    obs.step()
    if size <= 2**14:
        need(ok, lambda: f'plaintext record of {size} refused: {dut.error!r}')
        need(not dut.connected, 'connected?')
    else:
        need(not ok, f'plaintext record of {size} accepted')
        need(dut.alert == ref.ALERTS['record_overflow'], lambda: f'{dut.error!r}')
        peer.feed(dut.tx())
        need(peer.alerts == [(2, 22)], 'no alert')


def run_flight(case, obs):
    """ outgoing certificate chains are fragmented as negotiated """
    _, limit, n = case
    key, chain = pki.leaf()
    dut = impl.Impl.server(certificate_chain=chain + [pki.root().cert] * (n - 1)).start()
    peer = ref.RefClient(mfl=impl.MFL_CODE.get(limit))
    need(dut.rx(peer.hello()), 'ClientHello refused')
    peer.feed(dut.tx())
    obs.step()
    need(peer.server_finished and len(peer.cert) == n, 'incomplete flight')
    sizes = [r for r in peer.record_sizes if r[0] != 'plain']
    check_sizes(peer, limit or 2**14, f'chain of {n}', len(peer.record_sizes) - len(sizes))
    need((peer.ee.get(ref.X_MFL) is not None) == (limit is not None), 'MFL not echoed')


def run_flight_in(case, obs):
    """ incoming certificate chains fragmented by the peer """
    _, limit, n, frag = case
    key, chain = pki.leaf()
    kw, ee = {}, []
    if limit:
        kw = {'max_fragment_length': impl.MaxFragmentLengthOctets(limit)}
        ee = [(ref.X_MFL, ref.u8(impl.MFL_CODE[limit]))]
    dut = impl.Impl.client(max_chain_depth=5, **kw).start()
    peer = ref.RefServer(key, chain + [pki.root().cert] * (n - 1), ee=ee)
    peer.feed(dut.tx())
    need(dut.rx(peer.flight(frag=frag)), lambda: f'flight refused: {dut.error!r}')
    obs.step()
    peer.feed(dut.tx())
    need(dut.connected and peer.client_finished, 'client not connected')

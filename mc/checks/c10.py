"""
C10: segmentation.  A scenario is a list of stages, each the bytes one puppet flight is made of;
whatever the way those bytes are cut (by the network) or the handshake stream is cut in records (by
the peer), everything observable is the same as with the plain delivery.
"""
import functools
import itertools

from .. import impl, pki, ref
from ..engine import need
from ..ref import ALERT, APPDATA, HANDSHAKE, rec

PROP = 'C10'
SERVER = ['ok', 'hrr', 'bad_fin', 'plain_fin', 'fatal', 'early_app', 'unknown', 'close', 'bad_ch',
          'big_record', 'no_share', 'bad_mac', 'max', 'ccs', 'bulk', 'close2', 'cancel', 'warn']
CLIENT = ['ok', 'hrr', 'bad_fin', 'bad_cv', 'plain_ee', 'fatal', 'early_app', 'unknown', 'close',
          'nst', 'bad_cert', 'bad_mac', 'cert_req_twice', 'double_sh', 'max', 'ccs', 'bulk', 'close2',
          'cancel', 'warn']
GROUPS = [ref.X25519, ref.P256]
# alerts that are not an error, at either level
LAST = {'close': b'\1\0', 'close2': b'\2\0', 'cancel': b'\1\x5a', 'cancel2': b'\2\x5a',
        'warn': b'\1\x28'}


# ------------------------------------------------------------------ scenarios
def layout(stream, cuts):
    cuts = [0, *sorted({c for c in cuts if 0 < c < len(stream)}), len(stream)]
    return [stream[a:b] for a, b in itertools.pairwise(cuts)]


def seal(tx, stream, cuts):
    return b''.join(tx.seal(HANDSHAKE, f) if tx else rec(HANDSHAKE, f)
                    for f in layout(stream, cuts))


def server_stages(name, peer, cutter):
    """ yields the bytes the client puppet sends; ``cutter(stage, messages)`` -> cuts """
    def hs_flight(stage, raws, tx):
        return seal(tx, b''.join(raws), cutter(stage, raws))
    if name == 'bad_ch':
        raw = peer.hello_raw()
        peer.t.add(raw)
        raw = ref.hs(1, raw[4:] + b'\0')         # a trailing byte
        yield hs_flight(0, [raw], None)
        return
    if name in ('no_share', 'hrr', 'hrr_late'):
        # late: the group is not the one the server prefers
        first, second = (ref.P384, ref.P256) if name == 'hrr_late' else (ref.P256, ref.X25519)
        raw = peer.hello_raw(share_groups=[first])
        peer.t.add(raw)
        yield hs_flight(0, [raw], None)
        if name == 'no_share':
            raw = peer.hello_raw()            # still the wrong share
            peer.t.add(raw)
            yield hs_flight(1, [raw], None)
            return
        raw = peer.hello_raw(share_groups=[second])
        peer.t.add(raw)
        yield ref.CCS_RECORD + hs_flight(1, [raw], None)
    else:
        raw = peer.hello_raw()
        if name == 'max':                        # as large as one record can be
            peer.extra = [(0x4a4a, bytes(2**14 - 4 - len(raw)))]
            raw = peer.hello_raw()
        peer.t.add(raw)
        yield hs_flight(0, [raw], None)
    if not peer.server_finished:
        return
    tx = peer.tx
    raw = peer.finished_raw()
    if name == 'bad_fin':
        raw = raw[:-1] + bytes([raw[-1] ^ 1])
    if name == 'plain_fin':
        yield ref.CCS_RECORD + rec(HANDSHAKE, raw)
        return
    if name == 'early_app':
        yield ref.CCS_RECORD + tx.seal(APPDATA, b'early') + hs_flight(2, [raw], tx)
        return
    if name == 'unknown':
        yield tx.seal(77, b'hey') + hs_flight(2, [raw], tx)
        return
    if name == 'big_record':
        yield ref.CCS_RECORD + rec(APPDATA, bytes(2**14 + 257))
        return
    flight = ref.CCS_RECORD * (3 if name == 'ccs' else 1) + hs_flight(2, [raw], tx)
    peer.t.add(raw)
    peer.use_app_keys()
    yield flight
    yield from after(name, peer, 3)


def client_stages(name, peer, cutter):
    def hs_flight(stage, raws, tx):
        return seal(tx, b''.join(raws), cutter(stage, raws))
    out = b''
    if name == 'hrr':
        raw = peer.hrr_raw(ref.P256)
        peer.t.hrr(peer.sched.h)
        peer.retried = True
        peer.t.add(raw)
        yield hs_flight(0, [raw], None) + ref.CCS_RECORD
        peer.want_group = ref.P256
    raw = peer.sh_raw()
    peer.t.add(raw)
    peer.sched.handshake(peer.shared, peer.th())
    out = hs_flight(0 if name != 'hrr' else 1, [raw], None)
    peer.start_hs_keys()
    if name == 'double_sh':
        yield out + out
        return
    out += ref.CCS_RECORD * (3 if name == 'ccs' else 1)
    tx = peer.tx

    def add(raw):
        peer.t.add(raw)
        return raw
    raws = [add(peer.ee_raw())]
    if name == 'plain_ee':
        yield out + rec(HANDSHAKE, raws[0])
        return
    if name == 'cert_req_twice':
        raws += [add(peer.cert_request_raw()), add(peer.cert_request_raw())]
    chain = [b'junk'] if name == 'bad_cert' else None
    raws.append(add(peer.cert_raw(chain)))
    cv = peer.cv_raw()
    if name == 'bad_cv':
        cv = cv[:-1] + bytes([cv[-1] ^ 1])
    raws.append(add(cv))
    fin = peer.fin_raw()
    if name == 'bad_fin':
        fin = fin[:-1] + bytes([fin[-1] ^ 1])
    if name == 'early_app':
        yield out + hs_flight(2, raws, tx) + tx.seal(APPDATA, b'early') + tx.seal(HANDSHAKE, fin)
        return
    if name == 'unknown':
        yield out + hs_flight(2, raws, tx) + tx.seal(77, b'hey')
        return
    raws.append(add(fin))
    peer.sent_finished = True
    peer.sched.master(peer.th())
    out += hs_flight(2, raws, tx)
    peer.tx, peer.tx_epoch = ref.Dir(peer.suite, peer.sched.s_ap), 'ap'
    yield out
    yield from after(name, peer, 3, cutter)


def after(name, peer, stage, cutter=None):
    tx = peer.tx
    out = tx.seal(APPDATA, b'first') + tx.seal(APPDATA, b'') + tx.seal(APPDATA, b'second', pad=40)
    if name == 'max':
        out += tx.seal(APPDATA, bytes(range(256)) * 64) + tx.seal(APPDATA, b'x', pad=2**14 - 1)
    if name == 'bulk':                           # more than any buffer would hold
        out += b''.join(tx.seal(APPDATA, bytes([i]) * 2**14) for i in range(17))
    if name == 'nst':
        nst = ref.hs(ref.NST, b'\0\0\1\0' + b'\0\0\0\1' + ref.v8(b'n') + ref.v16(b'ticket' * 9)
                     + ref.v16(b''))
        out += seal(tx, nst * 2, cutter(stage, [nst, nst]))
    if name == 'fatal':
        out += tx.seal(ALERT, b'\2\x28')
    if name in LAST:
        out += tx.seal(ALERT, LAST[name])
    if name == 'bad_mac':
        bad = bytearray(tx.seal(APPDATA, b'bad'))
        bad[-1] ^= 1
        out += bad
    out += tx.seal(APPDATA, b'third') + tx.seal(APPDATA, b'fourth' * 40)
    yield out


# ------------------------------------------------------------------ execution
def summary(dut, peer, ok):
    n = dut.conn.nconfig
    return {
        'ok': ok, 'alert': dut.alert, 'error': type(dut.error).__name__ if dut.error else None,
        'read': dut.read, 'connected': dut.connected, 'post': dut.post,
        'messages': list(peer.got_hs), 'alerts': list(peer.alerts),
        'events': [(c, e, len(f)) for c, f, e, _ in peer.events],
        'nconfig': n and [str(getattr(n, k)) for k in (
            'cipher_suite', 'key_exchange', 'signature_algorithm', 'alpn', 'max_fragment_length',
            'server_certificate_type')],
    }


def execute(role, name, segment, cutter=lambda stage, raws: ()):
    """ ``segment(stage, data)`` -> pieces """
    if role == 'server':
        dut = impl.Impl.server('ed25519', key_exchanges=impl.groups(GROUPS)).start()
        peer = ref.RefClient(groups=GROUPS)
        stages = server_stages(name, peer, cutter)
    else:
        dut = impl.Impl.client(key_exchanges=impl.groups(GROUPS)).start()
        peer = ref.RefServer(*pki.leaf('ed25519'))
        peer.feed(dut.tx())
        peer.pick()
        stages = client_stages(name, peer, cutter)
    ok, lengths = True, []
    for i, data in enumerate(stages):
        lengths.append(len(data))
        for piece in segment(i, data):
            if piece and ok:
                ok = dut.rx(piece)
                peer.feed(dut.tx())
        if not ok:
            break
    out = summary(dut, peer, ok)
    return out, lengths, dut


def whole(stage, data):
    return [data]


@functools.cache
def baseline(role, name):
    out, lengths, _ = execute(role, name, whole)
    return out, tuple(lengths)


def scenarios():
    return [('server', n) for n in SERVER] + [('client', n) for n in CLIENT]


def cases(tier):
    thorough = tier == 'thorough'
    for role, name in scenarios():
        _, lengths = baseline(role, name)
        for n in [*range(1, 65), 100, 255, 256, 257, 511, 512, 1000, 8192, 16383, 16384, 16385, 16388, 16389, 16390,
                  16644, 16645, 16646, 65535, 65536, 65537, 2**17, 2**18]:
            if name in ('max', 'bulk') and n < 100:
                continue
            yield [role, name, 'chunk', n]
        for stage, length in enumerate(lengths):
            if length >= 3000:
                yield [role, name, 'cut', stage, list(range(length - 24, length))]
                lo = length // 2
                yield [role, name, 'cut', stage, list(range(lo, lo + 16))]
                for edge in (2**14, 2**14 + 5, 2**14 + 256 + 5):
                    if edge - 8 < length - 24:
                        yield [role, name, 'cut', stage, list(range(edge - 8, min(edge + 8, length)))]
            step = 1 if thorough or length < 2500 else 3
            for lo in range(1, min(length, 3000), 32):
                yield [role, name, 'cut', stage, list(range(lo, min(lo + 32, length), step))]
            points = [p for p in range(1, length) if thorough and length < 700 and p % 7 == 0
                      or p <= 12 or p >= length - 6]
            pairs_ = list(itertools.combinations(points, 2))
            for i in range(0, len(pairs_), 32):
                yield [role, name, 'cuts', stage, pairs_[i:i + 32]]
        # the handshake stream in records
        if name in ('big_record', 'plain_fin', 'plain_ee'):
            continue
        for n in range(1, 65 if thorough else 40):
            if name not in ('max', 'bulk') or (role == 'client' and name == 'max') or n > 30:
                yield [role, name, 'frag', n]
        for stage in range(4):
            if (role, name) == ('client', 'nst') or stage < 3:
                for lo in range(1, 1200 if stage == 2 else 300, 32):
                    yield [role, name, 'fragcut', stage, lo, lo + 32]
        for groups in itertools.product((0, 1), repeat=5):
            yield [role, name, 'coalesce', list(groups)]


def compare(got, role, name, what):
    want = baseline(role, name)[0]
    for k, v in want.items():
        need(got[k] == v, lambda: f'{what}: {k} is {got[k]!r} instead of {v!r}')


def run(case, obs):
    role, name, kind, *args = case
    obs.state(*case[:3], str(args)[:60])

    def go(what, segment=whole, cutter=lambda stage, raws: ()):
        got, _, dut = execute(role, name, segment, cutter)
        compare(got, role, name, f'{role} {name} {what}')
        obs.step()
        obs.trace()
        obs.outcome(f'{role}/{name}/{got["error"]}')
    if kind == 'chunk':
        n = args[0]
        go(f'in chunks of {n}', lambda s, d: [d[i:i + n] for i in range(0, len(d), n)])
    elif kind == 'cut':
        stage, points = args
        for p in points:
            go(f'stage {stage} cut at {p}',
               lambda s, d, p=p: [d[:p], d[p:]] if s == stage else [d])
    elif kind == 'cuts':
        stage, pairs_ = args
        for a, b in pairs_:
            go(f'stage {stage} cut at {a} and {b}',
               lambda s, d, a=a, b=b: [d[:a], d[a:b], d[b:]] if s == stage else [d])
    elif kind == 'frag':
        n = args[0]
        go(f'fragments of {n}',
           cutter=lambda s, raws: range(n, sum(map(len, raws)), n))
    elif kind == 'fragcut':
        stage, lo, hi = args
        seen = []

        def cutter(s, raws):
            if s == stage:
                seen.append(sum(map(len, raws)))
                return [p]
            return []
        for p in range(lo, hi):
            seen.clear()
            go(f'stream {stage} split at {p}', cutter=cutter)
            if not seen or p > max(seen):
                break
    else:
        groups = args[0]

        def cutter(s, raws):
            ends = list(itertools.accumulate(map(len, raws)))
            return [e for e, g in zip(ends, groups, strict=False) if g]
        go(f'boundaries {groups}', cutter=cutter)


def describe(tier):
    return {'scenarios': len(scenarios())}

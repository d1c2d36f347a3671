"""
C05: whatever a network attacker does to the protected records, what is delivered is a prefix of
what was sent, and the first record which isn't the next genuine one ends the connection.
"""
import itertools

from .. import impl, pairs, pki, ref
from ..engine import need

PROP = 'C05'
N = 3                                     # genuine records, the script delivers them and more
FORGED = ['plain', 'other_dir', 'other_conn', 'hs_keys', 'empty', 'tiny', 'onlytag', 'zeros',
          'plain_hs', 'plain_alert', 'wrong_seq', 'swap', 'cat', 'plain_close']
GENUINE = list(range(N))
HS_FORGED = ['plain', 'plain_body', 'other_conn', 'ap_keys', 'other_dir', 'empty', 'tiny',
             'onlytag', 'zeros', 'early', 'wrong_seq', 'hole', 'plain_alert', 'ciphered_ccs']
HS_FLIGHT = {'client': 4, 'server': 1}    # protected records the dut gets during the handshake


def cases(tier):
    depth = 4 if tier == 'quick' else 5
    roles = ('client', 'server')
    for role in roles:
        # every order, omission and replay of the genuine records
        for d in range(1, depth + 1):
            for script in itertools.product(GENUINE, repeat=d):
                for si in range(len(ref.SUITES) if d <= 3 or tier == 'thorough' else 1):
                    yield ['order', role, si, list(script)]
        # every forgery after every legitimate prefix
        for si in range(len(ref.SUITES)):
            for prefix in range(N + 1):
                for forged in FORGED:
                    for glued in (False, True):
                        yield ['forge', role, si, prefix, forged, glued]
        # every bit of a record, header included
        for si in range(len(ref.SUITES)):
            for prefix in range(2 if tier == 'quick' else N):
                for pos in range(5 + 24 + 1 + 16):
                    for bit in range(8):
                        yield ['flip', role, si, prefix, pos, bit]
        # every truncation and extension of a record, length fixed or not
        for si in range(len(ref.SUITES)):
            for n in range(0, 5 + 24 + 1 + 16):
                for fix in (False, True):
                    yield ['cut', role, si, n, fix]
            for n in (1, 2, 16, 200):
                yield ['grow', role, si, n, True]
        # the padding and content type are authenticated too
        for si in range(len(ref.SUITES)):
            for n in (0, 1, 2, 255):
                yield ['allzero', role, si, n, False]
    # the protected records of the handshake
    for role in roles:
        for si in range(len(ref.SUITES)):
            for pos in range(HS_FLIGHT[role]):
                for glued in (False, True):
                    for forged in HS_FORGED:
                        yield ['hs', role, si, pos, forged, glued]
                    for other in range(HS_FLIGHT[role]):
                        if other != pos:
                            yield ['hs', role, si, pos, ['rec', other], glued]
                for byte in [*range(5), *range(5, 40 if tier == 'quick' else 90),
                             *range(-16, 0)]:
                    for bit in ((0, 7) if tier == 'quick' else range(8)):
                        yield ['hs', role, si, pos, ['flip', byte, bit], False]
                for n in (5, 6, 20, 21, 22, -17, -16, -1):
                    yield ['hs', role, si, pos, ['cut', n], False]
                yield ['hs', role, si, pos, ['grow', 1], False]
                yield ['hs', role, si, pos, ['grow', 16], False]
    for role in roles:
        for when in range(0, N + 1):
            for cut in ('eof', 'close_plain', 'eof_mid'):
                yield ['truncate', role, when, cut, 0]


def run(case, obs):
    kind, role, si = case[0], case[1], case[2]
    if kind == 'truncate':
        return run_truncate(case, obs)
    if kind == 'hs':
        return run_hs(case, obs)
    suite = list(ref.SUITES)[si]
    dut, peer = pairs.vs_ref(role, suite=suite)
    texts = [b'genuine record #%d .......' % i for i in range(N + 1)]
    recs = [peer.send(ref.APPDATA, t) for t in texts]
    what = f'{case}'
    if kind == 'order':
        expected, dead = b'', False
        for k, i in enumerate(case[3]):
            obs.state('order', k, i, tuple(case[3][:k]))
            ok = dut.rx(recs[i])
            obs.step()
            if not dead and i == k:
                need(ok, f'{what}: genuine record refused')
                expected += texts[i]
            elif not dead:
                need(not ok, f'{what}: reordered or replayed record accepted')
                dead = True
            need(dut.read == expected, f'{what}: delivered {dut.read[:60]!r}')
        if dead:
            over(dut, peer, recs, what)
        obs.outcome(f'order/{"failed" if dead else "ok"}')
        obs.trace()
        return
    if kind in ('forge', 'flip'):
        prefix = case[3]
    else:
        prefix = 1
    for r in recs[:prefix]:
        need(dut.rx(r), f'{what}: genuine record refused')
    expected = b''.join(texts[:prefix])
    good = recs[prefix] if prefix < len(recs) else peer.send(ref.APPDATA, b'more')
    obs.state(*case)
    obs.step()
    stalled_ok = False
    if kind == 'forge':
        bad = forge(dut, peer, role, suite, case[4], recs, prefix, good)
        if case[5]:
            bad = bad + good
    elif kind == 'flip':
        bad = bytearray(good)
        bad[case[4]] ^= 1 << case[5]
        stalled_ok = case[4] in (3, 4)    # the length, may wait for more data
        version = case[4] in (1, 2)       # legacy_record_version
    elif kind == 'cut':
        n, fix = case[3], case[4]
        bad = good[:n]
        if fix and n >= 5:
            bad = bad[:3] + ref.u16(n - 5) + bad[5:]
        else:
            stalled_ok = True
    elif kind == 'grow':
        body = good[5:] + b'\0' * case[3]
        bad = good[:3] + ref.u16(len(body)) + body
    elif kind == 'allzero':
        d = peer.tx
        d.seq = 1
        bad = d.seal(0, b'', raw_inner=bytes(case[3]))
    ok = dut.rx(bytes(bad))
    if kind == 'flip' and version and ok:
        # an implementation may ignore this field, it carries nothing
        need(dut.read == expected + texts[prefix], f'{what}: wrong data')
        obs.outcome('version ignored')
        obs.trace()
        return
    need(dut.read == expected, lambda: f'{what}: delivered {dut.read!r}')
    if ok:
        need(stalled_ok, f'{what}: a tampered record was swallowed')
        # let it fail on what follows
        for r in [*recs[prefix + 1:], b'\0' * 20000]:
            if not dut.rx(r):
                break
        need(dut.read == expected, lambda: f'{what}: delivered {dut.read!r}')
        obs.outcome(f'{kind}/stalled')
        if dut.error is None:
            obs.trace()
            return
    over(dut, peer, [good, *recs], what)
    obs.outcome(f'{kind}/{type(dut.error).__name__}')
    obs.trace()


def over(dut, peer, recs, what):
    out = dut.tx()
    peer.feed(out)
    need(len(peer.alerts) == 1 and peer.alerts[0][0] == 2, f'{what}: no fatal alert')
    dut.assert_dead(what, recs)


def forge(dut, peer, role, suite, name, recs, prefix, good):
    other = 'server' if role == 'client' else 'client'
    if name == 'plain': return ref.rec(ref.APPDATA, b'plaintext data')
    if name == 'plain_hs': return ref.rec(ref.HANDSHAKE, ref.hs(ref.KEY_UPDATE, b'\0'))
    if name == 'plain_alert': return ref.rec(ref.ALERT, b'\2\x28')
    if name == 'plain_close': return ref.rec(ref.ALERT, b'\1\0')
    if name == 'other_dir':                # its own record, reflected
        dut.send(b'reflect me')
        raw = dut.tx()
        peer.feed(raw)
        return raw
    if name == 'other_conn':               # same position of another connection
        _, p2 = pairs.vs_ref(role, suite=suite)
        for _ in range(prefix):
            p2.send(ref.APPDATA, b'x')
        return p2.send(ref.APPDATA, b'other connection')
    if name == 'hs_keys':
        s = peer.sched
        d = ref.Dir(suite, s.c_hs if role == 'server' else s.s_hs)
        d.seq = prefix
        return d.seal(ref.APPDATA, b'old keys')
    if name == 'empty': return b'\x17\x03\x03\0\0'
    if name == 'tiny': return b'\x17\x03\x03\0\1x'
    if name == 'onlytag': return b'\x17\x03\x03\0\x10' + good[-16:]
    if name == 'zeros': return b'\x17\x03\x03\0\x30' + bytes(48)
    if name == 'wrong_seq':
        d = ref.Dir(suite, peer.tx.secret)
        d.seq = prefix + 1
        return d.seal(ref.APPDATA, b'from the future')
    if name == 'swap':                     # ciphertext of one record, tag of another
        r = recs[(prefix + 1) % len(recs)]
        return good[:-16] + r[-16:]
    if name == 'cat':                      # two records merged into one
        r = recs[(prefix + 1) % len(recs)]
        body = good[5:] + r[5:]
        return good[:3] + ref.u16(len(body)) + body
    raise ValueError(name)


def start_hs(role, suite):
    """ (dut, peer, protected handshake records the dut is waiting for) """
    if role == 'server':
        dut = impl.Impl.server(cipher_suites=impl.suites([suite])).start()
        peer = ref.RefClient(suites=[suite])
        need(dut.rx(peer.hello()), 'ClientHello refused')
        peer.feed(dut.tx())
        secret, ap = peer.tx.secret, peer.sched.c_ap
        raws = [peer.finished_raw()]
        recs = [peer.finished(raws[0])]
    else:
        key, chain = pki.leaf('p256')
        dut = impl.Impl.client(cipher_suites=impl.suites([suite])).start()
        peer = ref.RefServer(key, chain, suite=suite)
        peer.feed(dut.tx())
        need(dut.rx(peer.sh()), 'ServerHello refused')
        secret = peer.tx.secret
        raws, recs = [], []
        for make in (peer.ee_raw, peer.cert_raw, peer.cv_raw, peer.fin_raw):
            raws.append(make())
            recs.append((peer.fin if make == peer.fin_raw else peer.send_hs)(raws[-1]))
        ap = peer.sched.s_ap
    return dut, peer, raws, recs, secret, ap


def run_hs(case, obs):
    """ one wrong record at a given place of the encrypted handshake """
    _, role, si, pos, attack, glued = case
    suite = list(ref.SUITES)[si]
    dut, peer, raws, recs, secret, ap = start_hs(role, suite)
    what = f'{case}'
    for r in recs[:pos]:
        need(dut.rx(r), f'{what}: genuine handshake record refused')
    need(not dut.connected, f'{what}: connected too early')
    good, ignorable, stalls = recs[pos], False, False
    d = ref.Dir(suite, secret)
    if isinstance(attack, list):
        name = attack[0]
        if name == 'rec':
            bad = recs[attack[1]]
        elif name == 'flip':
            if attack[1] >= len(good) - 16:
                return
            bad = bytearray(good)
            bad[attack[1]] ^= 1 << attack[2]
            ignorable = attack[1] in (1, 2)
            stalls = attack[1] in (3, 4)
        elif name == 'cut':
            bad = good[:attack[1]]
            bad = bad[:3] + ref.u16(len(bad) - 5) + bad[5:]
        elif name == 'grow':
            body = good[5:] + bytes(attack[1])
            bad = good[:3] + ref.u16(len(body)) + body
    else:
        name = attack
        if name == 'plain': bad = ref.rec(ref.HANDSHAKE, raws[pos])
        elif name == 'plain_body': bad = ref.rec(ref.APPDATA, raws[pos])
        elif name == 'other_conn': bad = start_hs(role, suite)[3][pos]
        elif name == 'ap_keys':
            d = ref.Dir(suite, ap)
            d.seq = pos
            bad = d.seal(ref.HANDSHAKE, raws[pos])
        elif name == 'other_dir':
            s = peer.sched
            d = ref.Dir(suite, s.s_hs if role == 'server' else s.c_hs)
            d.seq = pos
            bad = d.seal(ref.HANDSHAKE, raws[pos])
        elif name == 'empty': bad = b'\x17\x03\x03\0\0'
        elif name == 'tiny': bad = b'\x17\x03\x03\0\1x'
        elif name == 'onlytag': bad = b'\x17\x03\x03\0\x10' + good[-16:]
        elif name == 'zeros': bad = b'\x17\x03\x03\0\x30' + bytes(48)
        elif name == 'early': bad = ref.rec(ref.APPDATA, bytes(range(200)))
        elif name == 'wrong_seq':
            d.seq = pos + 1
            bad = d.seal(ref.HANDSHAKE, raws[pos])
        elif name == 'hole':               # sealed at the next place: a record is missing
            d.seq = pos + 1
            bad = d.seal(ref.HANDSHAKE, raws[pos]) + good
        elif name == 'plain_alert': bad = ref.rec(ref.ALERT, b'\1\x5a')
        elif name == 'ciphered_ccs': # change_cipher_spec is never protected
            d.seq = pos
            bad = d.seal(ref.CCS, b'\1')
    obs.state(*map(str, case))
    obs.step()
    if glued:
        bad = bytes(bad) + good
    ok = dut.rx(bytes(bad))
    if ok and ignorable:                   # legacy_record_version carries nothing
        obs.outcome('hs/version ignored')
        obs.trace()
        return
    if ok:
        need(stalls, f'{what}: a forged handshake record was swallowed')
        need(not dut.connected, f'{what}: connected')
        for r in [*recs[pos + 1:], bytes(20000)]:
            if not dut.rx(r):
                break
    need(dut.error is not None, f'{what}: still waiting')
    need(not dut.connected, f'{what}: connected')
    peer.feed(dut.tx())
    need(len(peer.alerts) == 1 and peer.alerts[0][0] == 2, f'{what}: no fatal alert')
    junk = [good, *recs[pos:], peer_data(suite, ap)]
    dut.assert_dead(what, junk)
    need(not dut.read, f'{what}: data delivered')
    obs.outcome(f'hs/{type(dut.error).__name__}')
    obs.trace()


def peer_data(suite, ap):
    return ref.Dir(suite, ap).seal(ref.APPDATA, b'never delivered')


def run_truncate(case, obs):
    """ the end of the stream can't be forged: only an authentic close_notify ends it """
    _, role, when, cut, _ = case
    dut, peer = pairs.vs_ref(role)
    texts = [b'record %d' % i for i in range(N)]
    recs = [peer.send(ref.APPDATA, t) for t in texts]
    for r in recs[:when]:
        need(dut.rx(r), 'genuine record refused')
    if cut == 'eof_mid' and when < N:
        dut.rx(recs[when][:-3])
    if cut == 'close_plain':
        need(not dut.rx(ref.rec(ref.ALERT, b'\1\0')), 'forged close_notify accepted')
    need(dut.read == b''.join(texts[:when]), 'wrong data')
    obs.state(*case)
    obs.step()
    obs.outcome(f'truncate/{cut}')
    obs.trace()

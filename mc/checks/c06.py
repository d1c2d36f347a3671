"""
C06: a network attacker who modifies the handshake in any way never gets the peer who received the
modification to complete it.
"""
from .. import impl, pairs, pki, ref
from ..engine import need

PROP = 'C06'
CONFIGS = [
    dict(),
    dict(client=dict(key_exchanges=[ref.P256, ref.X25519]),
         server=dict(key_exchanges=[ref.X25519])),            # with a HelloRetryRequest
    dict(client=dict(alpn=True, mfl=512), server=dict(alpn=True), kind='ed25519'),
]


def make(ci):
    def kw(d):
        d, out = dict(d), {}
        if 'key_exchanges' in d:
            out['key_exchanges'] = impl.groups(d['key_exchanges'])
        if d.get('alpn'):
            out['alpn'] = [impl.ALPNProtocol('h2'), impl.ALPNProtocol('http/1.1')]
        if d.get('mfl'):
            out['max_fragment_length'] = impl.MaxFragmentLengthOctets(d['mfl'])
        return out
    cfg = CONFIGS[ci]
    return pairs.siotls_pair(kw(cfg.get('client', {})), kw(cfg.get('server', {})),
                             cfg.get('kind', 'p256'))


def split(data):
    out = []
    while data:
        n = 5 + int.from_bytes(data[3:5], 'big')
        out.append(data[:n])
        data = data[n:]
    return out


def exchange(c, s, edit, obs):
    """
    Run the handshake record by record; ``edit(index, side, record)`` gives the records that are
    delivered instead of that one.  Returns the index of records per side.
    """
    log, i = [], 0
    for _ in range(12):
        moved = False
        for src, dst, side in ((c, s, 'c'), (s, c, 's')):
            for record in split(src.tx()):
                log.append((side, record))
                for r in edit(i, side, record):
                    if dst.error is None and r:
                        dst.rx(r)
                        obs.step()
                i += 1
                moved = True
        if not moved:
            break
    return log


def baseline(ci):
    class _O:
        def step(self): pass
    c, s = make(ci)
    log = exchange(c, s, lambda i, side, r: [r], _O())
    need(c.connected and s.connected, 'the untouched handshake fails')
    return log


def cases(tier):
    masks = (0x01, 0x80, 0xff) if tier == 'quick' else (1, 2, 4, 8, 16, 32, 64, 128, 255)
    for ci in range(len(CONFIGS)):
        log = baseline(ci)
        for i, (side, record) in enumerate(log):
            yield [ci, i, 'drop', 0, 0]
            yield [ci, i, 'dup', 0, 0]
            yield [ci, i, 'swap', 0, 0]
            yield [ci, i, 'trunc', 0, 0]
            yield [ci, i, 'empty', 0, 0]
            n = len(record)
            clear = record[0] == ref.HANDSHAKE
            for pos in range(n):
                if clear or pos < 32 or pos >= n - 20 or pos % 256 == 0 \
                   or (tier == 'thorough' and pos % 16 == 0):
                    for mask in masks if clear or tier == 'thorough' else (0x01,):
                        yield [ci, i, 'flip', pos, mask]
            if clear:
                for k in range(40):
                    yield [ci, i, 'edit', k, 0]
        for k in ('hrr', 'alien_sh', 'ccs_mid', 'sh_twice', 'replay_ch'):
            yield [ci, 0, 'inject', k, 0]


def neutral(record, op, pos, mask):
    """ modifications of the wire that do not change any message """
    if record[0] == ref.CCS:
        return True
    if op == 'flip' and record[0] == ref.HANDSHAKE and pos in (1, 2):
        return True                         # legacy_record_version is ignored
    return False


def run(case, obs):
    ci, idx, op, pos, mask = case
    c, s = make(ci)
    seen = {}

    def edit(i, side, record):
        if op == 'inject':
            return inject(i, side, record, pos, seen, c, s)
        if i == idx + 1 and op == 'swap' and 'held' in seen and seen['side'] == side:
            if record[0] == ref.CCS:
                seen['neutral'] = True
            return [record, seen.pop('held')]
        if i != idx:
            if 'held' in seen and seen['side'] != side:
                seen['late'] = True         # nothing to swap it with
            return [record]
        seen['record'], seen['side'] = record, side
        if op == 'drop': return []
        if op == 'dup': return [record, record]
        if op == 'trunc': return [record[:3] + ref.u16(len(record) - 6) + record[5:-1]]
        if op == 'empty': return [record[:3] + b'\0\0']
        if op == 'swap':
            seen['held'] = record
            return []
        if op == 'flip':
            bad = bytearray(record)
            bad[pos % len(record)] ^= mask
            return [bytes(bad)]
        if op == 'edit':
            new = structured(record, pos)
            if new is None or new == record:
                seen['same'] = True
                return [record]
            return [new]
        raise ValueError(op)

    exchange(c, s, edit, obs)
    obs.state(*case)
    what = f'{case}'
    record = seen.get('record')
    if seen.get('same') or record is None and op != 'inject':
        obs.outcome('not applicable')
        return
    if op == 'inject':
        victim = seen['victim']
    else:
        if neutral(record, op, pos, mask) or seen.get('neutral'):
            obs.outcome(f'{op}/neutral')
            obs.trace()
            return
        victim = s if seen['side'] == 'c' else c
    other = c if victim is s else s
    # duplicated last flights reach a peer which is done already: it may only fail
    complete_before = op == 'dup'
    if complete_before:
        need(victim.error is not None, f'{what}: duplicated record accepted')
        need(not victim.connected, f'{what}: connected')
    need(not victim.connected, f'{what}: completed although its peer sent something else')
    if victim is c:
        need(not other.connected, f'{what}: the server completed without its client')
    if other.connected:
        # the client may be done, only if what was modified is its very last message
        need(victim is s and victim.error is not None or op in ('drop', 'swap')
             or op == 'flip' and pos in (3, 4),
             f'{what}: the other one completed')
        last = seen['side'] == 'c' and record[0] == ref.APPDATA
        need(last, f'{what}: the client completed although its hello was modified')
    for dut in (c, s):
        need(not dut.read, f'{what}: data delivered')
        if dut.error is not None:
            dut.tx()
            dut.assert_dead(what)
    obs.outcome(f'{op}/{type(victim.error).__name__}')
    obs.trace()


def structured(record, k):
    """ the k-th modification that leaves the hello well formed """
    msg = record[5:]
    if msg[0] == ref.CLIENT_HELLO:
        ch = ref.parse_client_hello(msg[4:])
        exts, suites = list(ch['exts']), list(ch['suites'])
        n = len(exts)
        kw = {}
        if k < n:
            del exts[k]
        elif k == n:
            exts.reverse()
        elif k == n + 1:
            suites = suites[1:] or [0x1304]
        elif k == n + 2:
            suites = suites[-1:] if len(suites) > 1 else None
        elif k == n + 3:
            suites = suites[::-1] if len(suites) > 1 else None
        elif k == n + 4:
            kw['sid'] = bytes(32)
        elif k == n + 5:
            kw['random'] = bytes(32)
        elif k == n + 6:
            suites = [0x0a0a, *suites]
        elif k == n + 7:
            exts.append((0x0a0a, b''))
        elif k == n + 8:
            exts = [(t, ref.v16(b''.join(ref.u16(g) for g in ch['groups'][::-1])))
                    if t == ref.X_GROUPS else (t, d) for t, d in exts]
        elif k == n + 9:
            exts = [(t, ref.v16(b''.join(ref.u16(g) for g in ch['sigalgs'][::-1])))
                    if t == ref.X_SIGALGS else (t, d) for t, d in exts]
        elif k == n + 10:      # the attacker's own key share
            exts = [ref.x_shares([(g, ref.Share(g).pub) for g, _ in ch['shares']])
                    if t == ref.X_KEYSHARE else (t, d) for t, d in exts]
        elif k == n + 11:
            exts.append(ref.x_alpn([b'h2']) if 'alpn' not in ch else (0x1234, b'x'))
        elif k == n + 12:
            exts = [ref.x_versions(0x0304, 0x0303) if t == ref.X_VERSIONS else (t, d)
                    for t, d in exts]
        elif k == n + 13:      # no share, provokes a retry
            exts = [ref.x_shares([]) if t == ref.X_KEYSHARE else (t, d) for t, d in exts]
        elif k in (n + 14, n + 15, n + 16):      # the same extension, twice
            exts.append(exts[(k - n - 14) * (n - 1) // 2])
        else:
            return None
        if not suites:
            return None
        new = ref.client_hello(kw.get('random', ch['random']), suites, exts,
                               sid=kw.get('sid', ch['sid']))
        return ref.rec(ref.HANDSHAKE, new)
    if msg[0] == ref.SERVER_HELLO:
        sh = ref.parse_server_hello(msg[4:])
        exts = list(sh['exts'])
        n = len(exts)
        kw, suite = {'sid': sh['sid']}, sh['suite']
        random = sh['random']
        if k < n:
            del exts[k]
        elif k == n:
            exts.reverse()
        elif k in (n + 1, n + 2, n + 3):
            suite = list(ref.SUITES)[k - n - 1]
        elif k == n + 4:
            kw['sid'] = bytes(32)
        elif k == n + 5:
            random = bytes(32)
        elif k == n + 6:
            kw['comp'] = 1
        elif k == n + 7:
            exts.append((0x0a0a, b''))
        elif k == n + 8 and not sh['hrr']:
            g = int.from_bytes(sh['x'][ref.X_KEYSHARE][:2], 'big')
            exts = [(t, ref.u16(g) + ref.v16(ref.Share(g).pub))
                    if t == ref.X_KEYSHARE else (t, d) for t, d in exts]
        elif k == n + 9 and sh['hrr']:
            exts.append((ref.X_COOKIE, ref.v16(b'cookie')))
        elif k == n + 10:
            random = random[:24] + b'DOWNGRD\x01'
        elif k in (n + 11, n + 12):
            exts.append(exts[(k - n - 11) * (n - 1)])
        else:
            return None
        return ref.rec(ref.HANDSHAKE, ref.server_hello(random, suite, exts, **kw))
    return None


def inject(i, side, record, kind, seen, c, s):
    """ messages of the attacker on top of the genuine ones """
    if i == 0:
        seen['ch'] = record
        ch = ref.parse_client_hello(record[9:])
        seen['victim'] = c
        suite = ch['suites'][0]
        shared = [g for g, _ in ch['shares']]
        if kind == 'hrr':
            group = next(g for g in ch['groups'] if g not in shared)
            raw = ref.server_hello(ref.HRR_RANDOM, suite, [
                (ref.X_VERSIONS, ref.u16(0x0304)), (ref.X_KEYSHARE, ref.u16(group))])
            c.rx(ref.rec(ref.HANDSHAKE, raw))
            new = split(c.tx())
            return [r for r in new if r[0] == ref.HANDSHAKE]   # the server only sees the second
        if kind in ('alien_sh', 'sh_twice'):
            raw = ref.server_hello(bytes(32), suite, [
                (ref.X_VERSIONS, ref.u16(0x0304)),
                (ref.X_KEYSHARE, ref.u16(shared[0]) + ref.v16(ref.Share(shared[0]).pub))])
            c.rx(ref.rec(ref.HANDSHAKE, raw))
            return [record]
        if kind == 'ccs_mid':      # splitting a message around another record
            seen['victim'] = s
            body = record[5:]
            return [ref.rec(ref.HANDSHAKE, body[:20]) + ref.rec(ref.ALERT, b'\1\x5a')
                    + ref.rec(ref.HANDSHAKE, body[20:])]
        if kind == 'replay_ch':
            seen['victim'] = s
            return [record, record]
    return [record]

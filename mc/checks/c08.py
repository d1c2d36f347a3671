""" C08: HelloRetryRequest, both sides. """
import functools
import itertools

from .. import impl, pki, ref
from ..engine import need

PROP = 'C08'
A, B, C = ref.X25519, ref.P256, ref.P384
UNKNOWN = 0x2a2a
COOKIES = [None, b'c', b'cookie' * 10, b'k' * 2000, b' c\n', b'\0c\0', b'\0', bytes(range(256)),
           b'k' * 16385, b'k' * 60000]


def cases(tier):
    # ---- client: every HelloRetryRequest a server may send
    for ci in range(3):
        for group in ('unshared', 'shared', 'unoffered', 'unknown', 'none'):
            for suite in ('same', 'other', 'unoffered'):
                for version in (0x0304, 0x0303, 0, 0x7f1c):
                    for sid in (0, 32):
                        for cookie in range(len(COOKIES)):
                            if cookie > 1 and (version != 0x0304 or sid):
                                continue
                            yield ['client', ci, group, suite, version, sid, cookie]
    # and every answer to the second ClientHello
    for cookie in range(len(COOKIES)):
        for group in (B, C):
            for follow in ('ok', 'other_suite', 'old_group', 'third_group', 'hrr_again',
                           'hrr_other', 'bad_share', 'no_share', 'no_version', 'no_dance',
                           'version12', 'same_hash_suite', 'sid', 'sid_long'):
                for split in (False, True):
                    yield ['follow', cookie, group, follow, split]
    # ---- server: every first hello x every second hello
    firsts = ['other_share', 'empty_shares', 'two_shares', 'unknown_share']
    seconds = ['ok', 'same', 'empty', 'wrong_group', 'random', 'random_first', 'random_mid',
               'random_last', 'no_suite', 'other_suite_first',
               'two_shares', 'no_groups', 'other_groups', 'no_sigalgs', 'other_sigalgs',
               'no_versions', 'version12', 'bad_share', 'fin', 'suites_swapped']
    for ci in range(4):
        for f in firsts:
            for s in seconds:
                for split in (False, True):
                    yield ['server', ci, f, s, split]
        # every second hello made of subsets of the first one
        for groups in subsets([A, B, C]):
            for shares in subsets(groups):
                for suites in subsets([ref.AES128, ref.CHACHA, ref.AES256]):
                    for sig in range(len(SIGALGS)):
                        yield ['server2', ci, groups, shares, suites, sig]


SIGALGS = [ref.ALL_SIGALGS, ref.ALL_SIGALGS[::-1], [0x0403], [0x0804], [0x0807], [0x0805, 0x0403]]


def subsets(items):
    return [list(c) for n in range(len(items) + 1) for c in itertools.combinations(items, n)]


def run(case, obs):
    obs.state(*case)
    obs.step()
    name = {'client': run_client, 'follow': run_follow, 'server': run_server,
            'server2': run_server2}[case[0]](case, obs)
    obs.outcome(f'{case[0]}/{name}')
    obs.trace()


def dead(dut, peer, what, alerts=None):
    need(not dut.connected, f'{what}: connected')
    need(dut.error is not None, f'{what}: accepted')
    got, napp = len(peer.got_hs), peer.app
    peer.feed(dut.tx())
    need(len(peer.got_hs) == got and peer.app == napp, f'{what}: goes on after the failure')
    need(len(peer.alerts) == 1 and peer.alerts[0][0] == 2, f'{what}: {peer.alerts}')
    need(peer.alerts[0][1] != ref.ALERTS['internal_error'], f'{what}: {dut.error!r}')
    if alerts:
        need(peer.alerts[0][1] in [ref.ALERTS[a] for a in alerts],
             f'{what}: alert {peer.alerts[0][1]}, expected {alerts}')
    dut.assert_dead(what)
    return 'refused'


CLIENTS = [dict(suites=[ref.CHACHA, ref.AES256], groups=[A, B, C]),
           dict(suites=[ref.AES128, ref.CHACHA, ref.AES256], groups=[B, A, C], alpn=['h2']),
           dict(suites=[ref.AES256, ref.AES128], groups=[A, B, C], mfl=512)]


def client(ci):
    d = CLIENTS[ci]
    kw = dict(cipher_suites=impl.suites(d['suites']), key_exchanges=impl.groups(d['groups']))
    if 'alpn' in d:
        kw['alpn'] = [impl.ALPNProtocol(p) for p in d['alpn']]
    if 'mfl' in d:
        kw['max_fragment_length'] = impl.MaxFragmentLengthOctets(d['mfl'])
    dut = impl.Impl.client(**kw).start()
    ee = [(ref.X_MFL, b'\1')] if 'mfl' in d else []
    return d, dut, ee


def run_client(case, obs):
    _, ci, group, suite, version, sid, cookie = case
    d, dut, ee = client(ci)
    what = f'{case}'
    chosen = {'same': d['suites'][0], 'other': d['suites'][1], 'unoffered':
              next(s for s in [*ref.SUITES, 0x1304] if s not in d['suites'])}[suite]
    gid = {'unshared': d['groups'][1], 'shared': d['groups'][0], 'unoffered': ref.X448,
           'unknown': UNKNOWN, 'none': None}[group]
    peer = ref.RefServer(*pki.leaf(), ee=ee,
                         suite=chosen if chosen in ref.SUITES else ref.AES128)
    peer.feed(dut.tx())
    need([g for g, _ in peer.ch['shares']] == d['groups'][:1], f'{what}: unexpected shares')
    items = []
    if version:
        items.append((ref.X_VERSIONS, ref.u16(version)))
    if gid is not None:
        items.append((ref.X_KEYSHARE, ref.u16(gid)))
    if COOKIES[cookie] is not None:
        items.append((ref.X_COOKIE, ref.v16(COOKIES[cookie])))
    raw = ref.server_hello(ref.HRR_RANDOM, chosen, items, sid=bytes(sid))
    peer.pick()
    peer.t.hrr(peer.sched.h)
    peer.retried = True
    legal = group == 'unshared' and suite != 'unoffered' and version == 0x0304 and not sid
    ok = dut.rx(peer.send_hs(raw))
    if group == 'none' and suite != 'unoffered' and version == 0x0304 and not sid \
       and COOKIES[cookie] is not None:
        # legal, only a cookie: refusing it is conservative
        if not ok:
            return dead(dut, peer, what)
        group, gid, legal = 'cookie', d['groups'][0], True
    if not legal:
        return dead(dut, peer, what, ['illegal_parameter', 'protocol_version',
                                      'missing_extension', 'decode_error',
                                      'unexpected_message'])
    need(ok, lambda: f'{what}: refused {dut.error!r}')
    peer.feed(dut.tx())
    need(len(peer.hellos) == 2, f'{what}: no second ClientHello')
    check_second(peer, gid, COOKIES[cookie], what)
    need(dut.rx(peer.flight(frag=500)), lambda: f'{what}: {dut.error!r}')
    peer.feed(dut.tx())
    need(peer.client_finished and dut.connected, f'{what}: incomplete')
    need(dut.conn.nconfig.key_exchange == gid and dut.conn.nconfig.cipher_suite == chosen,
         f'{what}: wrong negotiated values')
    return 'retried'


def check_second(peer, gid, cookie, what):
    """ RFC 8446 4.1.2: the same hello, but for key_share and cookie """
    one, two = peer.hellos
    for field in ('version', 'random', 'sid', 'suites', 'comp'):
        need(one[field] == two[field], f'{what}: {field} changed in the second ClientHello')
    need([g for g, _ in two['shares']] == [gid], f'{what}: shares '
         f'{[g for g, _ in two["shares"]]} instead of {gid}')
    need(two.get('cookie') == cookie, f'{what}: cookie {two.get("cookie")!r}')
    strip = lambda ch: {t: v for t, v in ch['exts'] if t not in (ref.X_KEYSHARE, ref.X_COOKIE)}
    need(strip(one) == strip(two), f'{what}: extensions changed in the second ClientHello')


def run_follow(case, obs):
    _, cookie, group, follow, split = case
    what = f'{case}'
    ci = int(follow == 'same_hash_suite')
    d, dut, ee = client(ci)
    if group == d['groups'][0]:
        group = d['groups'][1]
    peer = ref.RefServer(*pki.leaf(), suite=d['suites'][0], group=group)
    peer.feed(dut.tx())
    old_share = peer.ch['shares'][0]
    first_hello = list(peer.t.msgs)
    ok = dut.rx(peer.hrr(group, cookie=COOKIES[cookie]))
    need(ok, lambda: f'{what}: {dut.error!r}')
    peer.feed(dut.tx())
    check_second(peer, group, COOKIES[cookie], what)
    if follow == 'ok':
        need(dut.rx(peer.flight(), 100 if split else None), lambda: f'{what}: {dut.error!r}')
        peer.feed(dut.tx())
        need(peer.client_finished and dut.connected, f'{what}: incomplete')
        return 'ok'
    if follow == 'no_dance':
        # a server that forgets the message_hash construction
        t = list(peer.t.msgs)
        peer.t.msgs = first_hello + t[1:]
        ok = dut.rx(peer.flight())
        need(not ok and not dut.connected, f'{what}: accepted')
        return 'refused'
    if follow.startswith('hrr'):
        raw = peer.hrr_raw(group if follow == 'hrr_again' else B + C - group)
    else:
        raw = peer.sh_raw()
        sh = ref.parse_server_hello(raw[4:])
        x, suite = dict(sh['exts']), sh['suite']
        if follow in ('other_suite', 'same_hash_suite'):
            suite = d['suites'][1]
        elif follow == 'old_group':
            x[ref.X_KEYSHARE] = ref.u16(old_share[0]) + ref.v16(ref.Share(old_share[0]).pub)
        elif follow == 'third_group':
            g = B + C - group
            x[ref.X_KEYSHARE] = ref.u16(g) + ref.v16(ref.Share(g).pub)
        elif follow == 'bad_share':
            x[ref.X_KEYSHARE] = ref.u16(group) + ref.v16(b'\4' + bytes(10))
        elif follow == 'no_share':
            del x[ref.X_KEYSHARE]
        elif follow == 'no_version':
            del x[ref.X_VERSIONS]
        elif follow == 'version12':
            x[ref.X_VERSIONS] = ref.u16(0x0303)
        sid = {'sid': b'x', 'sid_long': b'x' * 32}.get(follow, sh['sid'])
        raw = ref.server_hello(sh['random'], suite, list(x.items()), sid=sid)
    dut.rx(ref.rec(ref.HANDSHAKE, raw), 30 if split else None)
    return dead(dut, peer, what)


SERVERS = [dict(groups=[B], suites=[ref.CHACHA, ref.AES256]),
           dict(groups=[C, B], suites=[ref.AES256, ref.CHACHA]),
           dict(groups=[B], suites=[ref.AES128, ref.CHACHA], kind='rsa'),
           dict(groups=[B, C], suites=[ref.CHACHA, ref.AES256], kind='ed25519')]


def run_server(case, obs):
    _, ci, first, second, split = case
    what = f'{case}'
    d = SERVERS[ci]
    dut = impl.Impl.server(d.get('kind', 'p256'), cipher_suites=impl.suites(d['suites']),
                           key_exchanges=impl.groups(d['groups'])).start()
    chunk = 40 if split else None
    groups = [A, B, C]
    wanted = d['groups'][0]
    wrong = C if wanted == B else B
    peer = ref.RefClient(suites=[ref.AES128, ref.CHACHA, ref.AES256], groups=groups)
    shares = {'other_share': [A], 'empty_shares': [], 'two_shares': [A, wrong],
              'unknown_share': [A]}[first]
    if first == 'unknown_share':
        peer.groups = [UNKNOWN, *groups]
    need(dut.rx(peer.hello(share_groups=shares), chunk), lambda: f'{what}: {dut.error!r}')
    peer.feed(dut.tx())
    need(peer.hrr is not None, f'{what}: expected a HelloRetryRequest')
    need(peer.hrr_group == wanted, f'{what}: retries with {peer.hrr_group}')
    need(ref.X_COOKIE not in peer.hrr['x'] or True, '')
    need(not dut.connected, f'{what}: connected')
    legal = second in ('ok', 'two_shares', 'suites_swapped')
    either = second in ('other_suite_first',)
    kw = {'share_groups': [wanted]}
    if second == 'same': kw = {'share_groups': shares}
    elif second == 'empty': kw = {'share_groups': []}
    elif second == 'wrong_group': kw = {'share_groups': [wrong]}
    elif second == 'two_shares': kw = {'share_groups': [wanted, wrong]}
    elif second == 'random': kw['random'] = bytes(32)
    elif second.startswith('random_'):
        random = bytearray(peer.random)
        random[{'first': 0, 'mid': 16, 'last': 31}[second[7:]]] ^= 0x40
        kw['random'] = bytes(random)
    elif second == 'no_suite': kw['suites'] = [s for s in peer.suites if s != peer.suite]
    elif second == 'other_suite_first':
        kw['suites'] = [s for s in peer.suites if s != peer.suite] + [peer.suite]
    elif second == 'suites_swapped': kw['suites'] = peer.suites[::-1]
    elif second == 'no_groups': peer.drop = {ref.X_GROUPS}
    elif second == 'other_groups': peer.groups = [g for g in groups if g != wanted]
    elif second == 'no_sigalgs': peer.drop = {ref.X_SIGALGS}
    elif second == 'other_sigalgs': peer.sigalgs = [0x0201]
    elif second == 'no_versions': peer.drop = {ref.X_VERSIONS}
    elif second == 'version12': peer.versions = (0x0303,)
    if second == 'fin':
        raw = ref.rec(ref.HANDSHAKE, ref.hs(ref.FINISHED, bytes(peer.sched.hlen)))
    elif second == 'bad_share':
        good = ref.Share(wanted)
        peer.shares[wanted] = good
        good.pub = good.pub[:-1] + bytes([good.pub[-1] ^ 1])
        raw = peer.hello(**kw)
    else:
        raw = peer.hello(**kw)
    if second in ('other_suite_first', 'suites_swapped'):
        either = True              # the hello isn't allowed to change, but it is harmless
    ok = dut.rx(raw, chunk)
    if not ok and either:
        return dead(dut, peer, what)
    if not legal and not either:
        need(not ok, f'{what}: accepted')
        return dead(dut, peer, what)
    need(ok, lambda: f'{what}: {dut.error!r}')
    peer.feed(dut.tx())
    need(peer.server_finished and peer.group == wanted, f'{what}: incomplete flight')
    need(dut.rx(peer.finished(), chunk) and dut.connected, lambda: f'{what}: {dut.error!r}')
    need(dut.conn.nconfig.key_exchange == wanted
         and dut.conn.nconfig.cipher_suite == peer.suite, f'{what}: wrong negotiated values')
    return 'ok'


@functools.cache
def selected_scheme(ci):
    """ The scheme that server selects for the very same client, without a retry """
    d = SERVERS[ci]
    dut = impl.Impl.server(d.get('kind', 'p256'), cipher_suites=impl.suites(d['suites']),
                           key_exchanges=impl.groups(d['groups'])).start()
    peer = ref.RefClient(suites=[ref.AES128, ref.CHACHA, ref.AES256], groups=[A, B, C])
    need(dut.rx(peer.hello(share_groups=[d['groups'][0]])), lambda: repr(dut.error))
    peer.feed(dut.tx())
    need(peer.server_finished, 'no flight')
    return peer.cv_scheme


def run_server2(case, obs):
    """ The second hello keeps or drops groups, shares, suites and schemes of the first one """
    _, ci, groups, shares, suites, sig = case
    what = f'{case}'
    d = SERVERS[ci]
    dut = impl.Impl.server(d.get('kind', 'p256'), cipher_suites=impl.suites(d['suites']),
                           key_exchanges=impl.groups(d['groups'])).start()
    wanted = d['groups'][0]
    peer = ref.RefClient(suites=[ref.AES128, ref.CHACHA, ref.AES256], groups=[A, B, C],
                         sid=[ref.SID, b'', b'\7', bytes(31)][case[1] % 4])
    need(dut.rx(peer.hello(share_groups=[A])), lambda: f'{what}: {dut.error!r}')
    peer.feed(dut.tx())
    need(peer.hrr is not None and peer.hrr_group == wanted, f'{what}: no retry for {wanted}')
    peer.groups, peer.sigalgs = groups, SIGALGS[sig]
    suite = peer.suite
    ok = dut.rx(peer.hello(share_groups=shares, suites=suites))
    scheme = selected_scheme(ci)
    if (wanted not in groups or wanted not in shares or suite not in suites
            or scheme not in SIGALGS[sig]):
        need(not ok, f'{what}: accepted')
        return dead(dut, peer, what)
    if not ok:                     # anything else that changed may be refused
        same = groups == [A, B, C] and suites == [ref.AES128, ref.CHACHA, ref.AES256]
        need(not (same and shares == [wanted] and sig == 0), lambda: f'{what}: {dut.error!r}')
        return dead(dut, peer, what)
    peer.feed(dut.tx())
    need(peer.server_finished and peer.group == wanted, f'{what}: incomplete flight')
    need(peer.suite == suite, f'{what}: other cipher suite after the retry')
    need(dut.rx(peer.finished()) and dut.connected, lambda: f'{what}: {dut.error!r}')
    need(dut.conn.nconfig.key_exchange == wanted, f'{what}: wrong negotiated group')
    return 'ok'

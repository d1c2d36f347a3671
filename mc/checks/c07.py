"""
C07: negotiation.  For every combination of small preference lists, the outcome of a handshake is
the one of a one-line reference model: the server's most preferred value among those both sides
support, or a failure of both sides when there is none; and both sides agree on it.
"""
import itertools

from .. import impl, pairs, pki, ref
from ..engine import need

PROP = 'C07'
SUITES = [ref.CHACHA, ref.AES256, ref.AES128]
GROUPS3 = [ref.X25519, ref.P256, ref.P384]
PROTOS = ['h2', 'http/1.1', 'http/1.0']
CA_KINDS = ['p256', 'p384', 'p521', 'rsa']        # those a client verifies


def subsets(items, maxlen=None):
    return [list(p) for n in range(1, (maxlen or len(items)) + 1)
            for p in itertools.permutations(items, n)]


# a client that first shares a key of a group the server does not take
RETRY = (dict(key_exchanges=impl.groups([ref.P256, ref.X25519])),
         dict(key_exchanges=impl.groups([ref.X25519])))


def siotls_pair(retry, client_kw, server_kw, kind='p256'):
    if retry:
        client_kw, server_kw = {**client_kw, **RETRY[0]}, {**server_kw, **RETRY[1]}
    return pairs.siotls_pair(client_kw, server_kw, kind)


def cases(tier):
    for case in all_cases(tier):
        yield case
        if case[0] in ('suites', 'alpn', 'mfl', 'certtype', 'sigpair'):
            yield ['retry', *case]


def all_cases(tier):
    for cs in subsets(SUITES):
        for ss in subsets(SUITES):
            yield ['suites', cs, ss]
    gl = subsets(GROUPS3)
    for cg in gl:
        for sg in gl:
            yield ['groups', cg, sg]
    if tier == 'thorough':
        for cg in subsets(ref.FAST_GROUPS, 2):
            for sg in subsets(ref.FAST_GROUPS, 3):
                yield ['groups', cg, sg]
    for g1 in ref.ALL_GROUPS:
        for g2 in ref.ALL_GROUPS:
            if g1 in ref.FFDHE and g2 in ref.FFDHE and g1 != g2 and max(g1, g2) > 0x101 \
               and tier == 'quick':
                continue
            yield ['groups', [g1], [g2]]
            if g1 != g2 and (g1 not in ref.FFDHE or tier == 'thorough'):
                yield ['groups', [g1, g2], [g2]]
    lists = [[], *subsets(PROTOS, 2)]
    for ca in lists:
        for sa in lists:
            yield ['alpn', ca, sa]
    # names that look like those of the server
    for sa in [*subsets(PROTOS, 2), ['h2c'], ['h2c', 'http/1.1']]:
        yield ['near', sa, 0]
    # the key that signs is the one of the first certificate, whatever those that follow
    for kind in pki.KEY_KINDS:
        for above in pki.KEY_KINDS:
            for n in (1, 2):
                yield ['mixed', kind, above, n]
    # signature algorithms: per key kind, what the client offers x what the server allows
    for kind in pki.KEY_KINDS:
        mine = ref.algs_for(pki.key(kind, 'leaf'))
        foreign = [a for a in ref.ALL_SIGALGS if a not in mine]
        opts = subsets(mine) + [[foreign[0]], [foreign[0], mine[0]], [mine[0], foreign[1]],
                                ref.ALL_SIGALGS, ref.ALL_SIGALGS[::-1], foreign]
        for co in opts:
            for so in opts:
                yield ['sig', kind, co, so]
    for mfl in (512, 1024, 2048, 4096, 16384):
        for hb in (0, 1, 2, 3):
            yield ['mfl', mfl, hb]
    # certificate types
    for sx, sr in itertools.product((0, 1), repeat=2):
        for cx, cr in itertools.product((0, 1), repeat=2):
            if sx or sr:
                yield ['certtype', sx, sr, cx, cr]
    for kind in pki.KEY_KINDS:
        mine = ref.algs_for(pki.key(kind, 'leaf'))
        for co in subsets(mine):
            for so in subsets(mine):
                yield ['sigpair', kind, co, so]
    # the certificate types of an encrypted extensions, for every client
    for own in ('none', 'x509', 'raw', 'both'):
        for peer in ('none', 'x509', 'raw', 'both'):
            for cct in (None, 0, 1, 2, 3):
                for sct in (None, 0, 1, 2, 3):
                    yield ['answer', own, peer, cct, sct]
    # wildly unusual but legal hellos of a reference client
    for name in ('grease', 'sid', 'shares_all', 'shares_unknown', 'versions_many', 'no_alpn_match',
                 'psk_modes', 'unknown_ext', 'sni', 'padding', 'dup_suites'):
        yield ['hello', name, 0]
    for drop in (ref.X_VERSIONS, ref.X_SIGALGS, ref.X_GROUPS):
        yield ['missing', drop, 0]
    for vs in ([0x0303], [0x0303, 0x0302], [0x0305], [0x7f1c]):
        yield ['versions', vs, 0]


def run(case, obs):
    obs.state(*case)
    retry = case[0] == 'retry'
    case = case[retry:]
    run_ = globals()['run_' + case[0]]
    name = run_(case, obs, True) if retry else run_(case, obs)
    obs.outcome(f'{case[0]}/{name}')
    obs.trace()


def first(server, client):
    return next((x for x in server if x in client), None)


def outcome(c, s, expected, what, alert=None):
    pairs.pump(c, s)
    if expected is None:
        need(not c.connected and not s.connected, f'{what}: connected without anything in common')
        need(c.error is not None and s.error is not None, f'{what}: no failure')
        if alert:
            need(s.alert in alert and c.alert in alert,
                 lambda: f'{what}: failed with {s.error!r} / {c.error!r}')
        c.tx(), s.tx()
        c.assert_dead(what)
        s.assert_dead(what)
        return False
    need(c.error is None and s.error is None,
         lambda: f'{what}: expected {expected}, failed: {c.error!r} / {s.error!r}')
    need(c.connected and s.connected, f'{what}: incomplete')
    c.send(b'ping')
    s.rx(c.tx())
    s.send(b'pong')
    c.rx(s.tx())
    need(s.read == b'ping' and c.read == b'pong', f'{what}: no data')
    return True


def agree(c, s, field, expected, what, sides='cs'):
    for dut, side in ((c, 'c'), (s, 's')):
        if side in sides:
            got = getattr(dut.conn.nconfig, field)
            need(got == expected, f'{what}: {dut.side} {field} is {got!r}, expected {expected!r}')


def run_suites(case, obs, retry=False):
    _, cs, ss = case
    c, s = siotls_pair(retry, dict(cipher_suites=impl.suites(cs)),
                       dict(cipher_suites=impl.suites(ss)))
    expected = first(ss, cs)
    obs.step()
    if outcome(c, s, expected, f'{case}', [ref.ALERTS['handshake_failure'],
                                           ref.ALERTS['insufficient_security']]):
        agree(c, s, 'cipher_suite', expected, f'{case}')
    # and against the reference client, who computes everything itself
    s = impl.Impl.server(cipher_suites=impl.suites(ss)).start()
    peer = ref.RefClient(suites=cs)
    ok = s.rx(peer.hello())
    obs.step()
    peer.feed(s.tx())
    need(ok == (expected is not None), f'{case}: {s.error!r}')
    if ok:
        need(peer.suite == expected and s.rx(peer.finished()) and s.connected, f'{case}: ref')
    else:
        need(len(peer.alerts) == 1, 'no alert')
    return 'ok' if expected else 'failure'


def run_groups(case, obs):
    _, cg, sg = case
    c, s = pairs.siotls_pair(dict(key_exchanges=impl.groups(cg)),
                             dict(key_exchanges=impl.groups(sg)))
    expected = first(sg, cg)
    obs.step()
    if outcome(c, s, expected, f'{case}', [ref.ALERTS['handshake_failure'],
                                           ref.ALERTS['insufficient_security']]):
        agree(c, s, 'key_exchange', expected, f'{case}')
    if expected is None:
        return 'failure'
    s = impl.Impl.server(key_exchanges=impl.groups(sg)).start()
    for shares in ([cg[-1]], cg[::1], []):
        s = impl.Impl.server(key_exchanges=impl.groups(sg)).start()
        peer = ref.RefClient(groups=cg, shares=shares)
        need(s.rx(peer.hello()), lambda: f'{case} {shares}: {s.error!r}')
        peer.feed(s.tx())
        obs.step()
        if expected not in shares:
            need(peer.hrr and peer.hrr_group == expected, f'{case} {shares}: expected HRR')
            need(s.rx(peer.hello(share_groups=[expected])), lambda: f'{case}: {s.error!r}')
            peer.feed(s.tx())
        else:
            need(not peer.hrr, f'{case} {shares}: useless HelloRetryRequest')
        need(peer.group == expected and s.rx(peer.finished()) and s.connected, f'{case}: ref')
    return 'ok'


def run_alpn(case, obs, retry=False):
    _, ca, sa = case
    c, s = siotls_pair(retry, dict(alpn=[impl.ALPNProtocol(p) for p in ca]),
                       dict(alpn=[impl.ALPNProtocol(p) for p in sa]))
    expected = first(sa, ca)
    obs.step()
    if ca and sa and expected is None:
        outcome(c, s, None, f'{case}', [ref.ALERTS['no_application_protocol']])
        return 'failure'
    outcome(c, s, 'connect', f'{case}')
    agree(c, s, 'alpn', expected and impl.ALPNProtocol(expected), f'{case}')
    # a client refuses a protocol it didn't offer, or several
    for answer in ([p.encode() for p in PROTOS if p not in ca][:1], [b'h2', b'http/1.1'], []):
        if not ca and answer == []:
            continue
        c = impl.Impl.client(alpn=[impl.ALPNProtocol(p) for p in ca]).start()
        key, chain = pki.leaf()
        peer = ref.RefServer(key, chain, ee=[ref.x_alpn(answer)])
        peer.feed(c.tx())
        if answer == [] and not ca:
            continue
        if len(answer) == 1 and answer[0].decode() in ca:
            continue
        if not answer and ca and len(ca) == 3:
            pass
        obs.step()
        need(not c.rx(peer.flight()) and not c.connected,
             f'{case}: ALPN answer {answer} accepted')
    return 'ok'


NEAR = [b'', b'h', b'2', b'h2', b'h2c', b'H2', b'h2 ', b' h2', b'h2\0', b'\0h2', b'h22', b'h3',
        b'http', b'http/', b'http/1', b'http/1.', b'http/1.1', b'http/1.0', b'http/1.10', b'HTTP/1.1',
        b'Http/1.1', b'http/1.1 ', b'http/1.1\0', b'xhttp/1.1', b'ttp/1.1', b'h2,http/1.1',
        b'http/1.1h2', b'\xe8\xb3', b'\xff', b'1', bytes(255).replace(b'\0', b'h')]


def run_near(case, obs):
    """ protocol names are compared as they are """
    _, sa, _ = case
    mine = [p.encode() for p in sa]
    for offer in [*([n] for n in NEAR if n),
                  *([a, b] for a in NEAR[1:] for b in (b'h2', b'http/1.1', b'http/1.0') if a != b),
                  [n for n in NEAR if n and n not in mine],
                  [*(n for n in NEAR if n and n not in mine), mine[-1]]]:
        s = impl.Impl.server(alpn=[impl.ALPNProtocol(p) for p in sa]).start()
        peer = ref.RefClient(alpn=offer)
        ok = s.rx(peer.hello())
        peer.feed(s.tx())
        obs.step()
        expected = first(mine, offer)
        if expected is None:
            need(not ok and s.alert == ref.ALERTS['no_application_protocol'],
                 lambda: f'{case}: offered {offer}: {s.error!r}, {s.conn.nconfig.alpn}')
            need(peer.alerts == [(2, 120)], f'{case}: {offer}: {peer.alerts}')
            continue
        need(ok, lambda: f'{case}: offered {offer}: {s.error!r}')
        need(peer.ee.get(ref.X_ALPN) == ref.x_alpn([expected])[1],
             lambda: f'{case}: offered {offer}: {peer.ee.get(ref.X_ALPN)}')
        agree(None, s, 'alpn', impl.ALPNProtocol(expected.decode()), f'{case}', 's')
    return 'ok'


def run_mixed(case, obs):
    """ a chain of keys of two kinds """
    _, kind, above, n = case
    top = pki.CA('Mixed root', kind=above)
    issuer = top if n == 1 else pki.CA('Mixed I', kind=above, parent=top)
    key = pki.key(kind, 'leaf')
    chain = [issuer.issue(kind=kind), *([issuer.cert] if n == 2 else []), top.cert]
    mine = ref.algs_for(key)
    for co in (ref.ALL_SIGALGS, ref.ALL_SIGALGS[::-1], mine, mine[-1:]):
        for so in (ref.ALL_SIGALGS, ref.ALL_SIGALGS[::-1]):
            s = impl.Impl(impl.TLSConfiguration(
                'server', private_key=key, certificate_chain=chain,
                signature_algorithms=impl.sigalgs(so))).start()
            peer = ref.RefClient(sigalgs=co)
            expected = next(a for a in so if a in mine and a in co)
            obs.step()
            need(s.rx(peer.hello()), lambda: f'{case}: {s.error!r}')
            peer.feed(s.tx())
            need(peer.cv_alg == expected, f'{case}: 0x{peer.cv_alg:04x}, not 0x{expected:04x}')
            need(s.rx(peer.finished()) and s.connected, f'{case}: incomplete')
    if kind in CA_KINDS and above in CA_KINDS:
        c = impl.Impl(impl.TLSConfiguration('client', trust_store=impl.Store([top.cert])),
                      server_hostname=pki.HOST).start()
        s = impl.Impl(impl.TLSConfiguration('server', private_key=key,
                                            certificate_chain=chain)).start()
        outcome(c, s, 'connect', f'{case}')
        agree(c, s, 'peer_certificate', chain[0], f'{case}', 'c')
    return 'ok'


def run_sig(case, obs):
    _, kind, co, so = case
    key, chain = pki.leaf(kind)
    mine = ref.algs_for(key)
    expected = next((a for a in so if a in mine and a in co), None)
    s = impl.Impl.server(kind, signature_algorithms=impl.sigalgs(so)).start()
    peer = ref.RefClient(sigalgs=co)
    ok = s.rx(peer.hello())
    obs.step()
    peer.feed(s.tx())
    if expected is None:
        need(not ok and not s.connected, f'{case}: no common signature algorithm, yet it goes on')
        need(s.alert == ref.ALERTS['handshake_failure'], lambda: f'{case}: {s.error!r}')
        return 'failure'
    need(ok, lambda: f'{case}: {s.error!r}')
    need(peer.cv_alg == expected, f'{case}: 0x{peer.cv_alg:04x}, expected 0x{expected:04x}')
    need(s.rx(peer.finished()) and s.connected, f'{case}: incomplete')
    agree(None, s, 'signature_algorithm', expected, f'{case}', 's')
    # a client only accepts schemes it offered, and that fit the key of the certificate
    for alg in mine:
        c = impl.Impl.client(signature_algorithms=impl.sigalgs(co)).start()
        peer = ref.RefServer(key, chain, alg=alg)
        peer.feed(c.tx())
        need(peer.ch['sigalgs'] == co, f'{case}: the client offers {peer.ch["sigalgs"]}')
        ok = c.rx(peer.flight())
        obs.step()
        need(ok == (alg in co) == c.connected, f'{case}: {alg:04x} {c.error!r}')
    return 'ok'


def run_mfl(case, obs, retry=False):
    _, mfl, hb = case
    c, s = siotls_pair(
        retry, dict(max_fragment_length=impl.MaxFragmentLengthOctets(mfl),
             can_echo_heartbeat=bool(hb & 1)),
        dict(can_echo_heartbeat=bool(hb & 2)))
    obs.step()
    outcome(c, s, 'connect', f'{case}')
    agree(c, s, 'max_fragment_length', mfl, f'{case}')
    need(c.conn.max_fragment_length == s.conn.max_fragment_length == mfl, f'{case}: {mfl}')
    agree(c, s, 'can_send_heartbeat', bool(hb & 2), f'{case}', 'c')
    agree(c, s, 'can_send_heartbeat', bool(hb & 1), f'{case}', 's')
    agree(c, s, 'can_echo_heartbeat', bool(hb & 1), f'{case}', 'c')
    agree(c, s, 'can_echo_heartbeat', bool(hb & 2), f'{case}', 's')
    # the client refuses any other answer
    for code in (1, 2, 3, 4, 5, 0, 255):
        kw = dict(max_fragment_length=impl.MaxFragmentLengthOctets(mfl))
        c = impl.Impl.client(**kw).start()
        key, chain = pki.leaf()
        peer = ref.RefServer(key, chain, ee=[(ref.X_MFL, ref.u8(code))])
        peer.feed(c.tx())
        need(peer.ch.get('mfl') == impl.MFL_CODE.get(mfl), f'{case}: offers {peer.ch.get("mfl")}')
        ok = c.rx(peer.flight(frag=400))
        obs.step()
        fine = impl.MFL_CODE.get(mfl) == code
        need(ok == fine and c.connected == fine, f'{case}: answer {code} {c.error!r}')
    # the server refuses unknown codes
    for code in (0, 5, 255):
        s = impl.Impl.server().start()
        peer = ref.RefClient(extra=[(ref.X_MFL, ref.u8(code))])
        need(not s.rx(peer.hello()), f'{case}: max fragment length code {code} accepted')
        need(s.alert == ref.ALERTS['illegal_parameter'], lambda: f'{s.error!r}')
    return 'ok'


def run_certtype(case, obs, retry=False):
    _, sx, sr, cx, cr = case
    key, chain = pki.leaf()
    kw = dict(private_key=key, **(RETRY[1] if retry else {}))
    if sx: kw['certificate_chain'] = chain
    if sr: kw['public_key'] = key.public_key()
    s = impl.Impl(impl.TLSConfiguration('server', **kw)).start()
    ckw = dict(RETRY[0] if retry else {})
    if cx: ckw['trust_store'] = impl.Store([pki.root().cert])
    if cr: ckw['trusted_public_keys'] = [key.public_key()]
    c = impl.Impl(impl.TLSConfiguration('client', **ckw), server_hostname=pki.HOST).start()
    offers = ([0] if cx else []) + ([2] if cr else []) or [0]   # x509 by default
    has = ([0] if sx else []) + ([2] if sr else [])
    expected = first(has, offers)
    obs.step()
    if not outcome(c, s, None if expected is None else 'connect', f'{case}',
                   [ref.ALERTS['unsupported_certificate']]):
        return 'failure'
    agree(c, s, 'server_certificate_type', expected, f'{case}')
    if expected == 2:
        need(c.conn.nconfig.peer_public_key == key.public_key(), f'{case}: wrong key')
    else:
        need(c.conn.nconfig.peer_certificate == chain[0], f'{case}: wrong certificate')
    return 'ok'


def run_sigpair(case, obs, retry=False):
    _, kind, co, so = case
    mine = ref.algs_for(pki.key(kind, 'leaf'))
    c, s = siotls_pair(retry, dict(signature_algorithms=impl.sigalgs(co)),
                       dict(signature_algorithms=impl.sigalgs(so)), kind)
    expected = next((a for a in so if a in mine and a in co), None)
    obs.step()
    if not outcome(c, s, expected, f'{case}', [ref.ALERTS['handshake_failure']]):
        return 'failure'
    agree(c, s, 'signature_algorithm', expected, f'{case}', 's')
    return 'ok'


def run_answer(case, obs):
    """ what a client offered is all it accepts, for its certificate and for the server's """
    _, own, trust, cct, sct = case
    key, chain = pki.leaf()
    mine, mine_chain = pki.leaf('ed25519')
    kw = {}
    if own != 'none': kw['private_key'] = mine
    if own in ('x509', 'both'): kw['certificate_chain'] = mine_chain
    if own in ('raw', 'both'): kw['public_key'] = mine.public_key()
    if trust in ('x509', 'both'): kw['trust_store'] = impl.Store([pki.root().cert])
    if trust in ('raw', 'both'): kw['trusted_public_keys'] = [key.public_key()]
    c = impl.Impl(impl.TLSConfiguration('client', **kw), server_hostname=pki.HOST).start()
    raw = sct == 2
    ee = [(t, ref.u8(v)) for t, v in ((ref.X_CCT, cct), (ref.X_SCT, sct)) if v is not None]
    peer = ref.RefServer(key, [key.public_key()] if raw else chain, raw_key=raw, ee=ee)
    peer.feed(c.tx())
    offers = dict(ref.parse_client_hello(peer.t.msgs[0][4:])['exts'])
    what = f'{case}'
    ok = c.rx(peer.flight())
    obs.step()
    fine = True
    for t, value in ((ref.X_CCT, cct), (ref.X_SCT, sct)):
        offered = list(offers[t][1:]) if t in offers else [0]
        if (0 if value is None else value) not in offered:
            fine = False
        elif t not in offers and value is not None and fine:
            fine = None             # unsolicited, yet the default
    if cct is None and fine is False:
        # nothing is asked from the client, the default does not commit it
        offered = list(offers[ref.X_SCT][1:]) if ref.X_SCT in offers else [0]
        fine = None if (sct or 0) in offered else False
    need(not (ok and fine is False), f'{what}: accepted, offers were {offers}')
    need(ok or fine is not True, lambda: f'{what}: refused {c.error!r}')
    need(c.connected == ok, f'{what}: connected')
    if ok:
        agree(c, None, 'server_certificate_type', sct or 0, what, 'c')
    else:
        c.tx()
        c.assert_dead(what)
    return 'accepted' if ok else 'refused'


def run_hello(case, obs):
    _, name, _ = case
    kw, extra = {}, []
    s_kw = {}
    if name == 'grease':
        kw = dict(suites=[0x0a0a, 0x1a1a, ref.AES128, 0x00ff],
                  groups=[0x2a2a, ref.X25519], shares=[ref.X25519],
                  sigalgs=[0x0201, 0x0a0a, *ref.ALL_SIGALGS], versions=(0x3a3a, 0x0304))
        extra = [(0x4a4a, b''), (0x5a5a, b'\0')]
    elif name == 'sid':
        kw = dict(sid=bytes(range(32)))
    elif name == 'shares_all':
        kw = dict(groups=ref.FAST_GROUPS, shares=ref.FAST_GROUPS)
    elif name == 'shares_unknown':
        kw = dict(groups=[0x2a2a, ref.X25519], shares=[ref.X25519])
    elif name == 'versions_many':
        kw = dict(versions=(0x7f1c, 0x0301, 0x0302, 0x0303, 0x0304))
    elif name == 'no_alpn_match':
        kw = dict(alpn=[b'unknown/1', b'h2'])
        s_kw = dict(alpn=[impl.ALPNProtocol('h2')])
    elif name == 'psk_modes':
        extra = [(ref.X_PSKMODES, ref.v8(b'\1'))]
    elif name == 'unknown_ext':
        extra = [(i, bytes(i % 7)) for i in (0x1234, 0x7777, 0xff01, 0xfe0d, 17, 23, 27, 35)]
    elif name == 'sni':
        extra = [ref.x_sni(b'server.example')]
    elif name == 'padding':
        extra = [(21, bytes(700))]
    elif name == 'dup_suites':
        kw = dict(suites=[ref.AES128, ref.AES128, ref.CHACHA])
    s = impl.Impl.server(**s_kw).start()
    peer = ref.RefClient(extra=extra, **kw)
    obs.step()
    need(s.rx(peer.hello()), lambda: f'{case}: {s.error!r}')
    peer.feed(s.tx())
    need(peer.server_finished and s.rx(peer.finished()) and s.connected, f'{case}: {s.error!r}')
    # every extension that is answered was requested
    sent = {t for t, _ in ref.parse_client_hello(peer.t.msgs[0][4:])['exts']}
    need(set(peer.ee) <= sent, f'{case}: unsolicited {set(peer.ee) - sent}')
    return 'ok'


def run_missing(case, obs):
    _, drop, _ = case
    s = impl.Impl.server().start()
    peer = ref.RefClient(drop=[drop])
    ok = s.rx(peer.hello())
    obs.step()
    need(not ok and not s.connected, f'{case}: accepted')
    fine = {ref.X_VERSIONS: ['protocol_version'],
            ref.X_SIGALGS: ['missing_extension'],
            ref.X_GROUPS: ['missing_extension']}[drop]
    need(s.alert in [ref.ALERTS[a] for a in fine], lambda: f'{case}: {s.error!r}')
    return 'failure'


def run_versions(case, obs):
    _, vs, _ = case
    s = impl.Impl.server().start()
    peer = ref.RefClient(versions=vs)
    obs.step()
    need(not s.rx(peer.hello()) and not s.connected, f'{case}: accepted')
    need(s.alert == ref.ALERTS['protocol_version'], lambda: f'{case}: {s.error!r}')
    out = s.tx()
    peer.feed(out)
    need(peer.alerts == [(2, 70)], 'no protocol_version alert')
    # and a client refuses any other version from a server
    for v in [*vs, None]:
        c = impl.Impl.client().start()
        srv = ref.RefServer(*pki.leaf())
        srv.feed(c.tx())
        srv.pick()
        raw = srv.sh_raw()
        sh = ref.parse_server_hello(raw[4:])
        items = [(t, ref.u16(v) if t == ref.X_VERSIONS and v else d) for t, d in sh['exts']
                 if v or t != ref.X_VERSIONS]
        raw = ref.server_hello(sh['random'], sh['suite'], items, sid=sh['sid'])
        need(not c.rx(srv.send_hs(raw)) and not c.connected, f'{case}: version {v} accepted')
    return 'failure'

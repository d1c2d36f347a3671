"""
C30: a client offers exactly what its configuration allows, a server answers nothing that was not
offered.  The hellos are predicted from the configuration by a model of its own, and compared
extension by extension; the answers of the server likewise, over every subset of the extensions a
client may offer.
"""
import functools
import itertools

from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat
from cryptography.x509.verification import Store

from .. import impl, pki, ref
from ..engine import need

PROP = 'C30'
CHUNK = 16
SUITES = [ref.AES128, ref.AES256, ref.CHACHA]


def orders(items, lengths):
    return [list(p) for n in lengths for p in itertools.permutations(items, n)]


HOSTS = {
    None: None, 'server.example': b'server.example', 'localhost': b'localhost',
    'Server.EXAMPLE': b'server.example', 'a.b.c.d.e.server.example': b'a.b.c.d.e.server.example',
    'server.example.': b'server.example', 'b\xfccher.example': b'xn--bcher-kva.example',
    'xn--bcher-kva.example': b'xn--bcher-kva.example',
    '\u4f8b\u3048.\u30c6\u30b9\u30c8': b'xn--r8jz45g.xn--zckzah',
    'x' * 63 + '.example': b'x' * 63 + b'.example', 'x-1.example': b'x-1.example',
    '192.0.2.1': None, '255.255.255.255': None, '::1': None, '2001:db8::7': None,
    '2001:0DB8:0:0:0:0:0:7': None, '::ffff:192.0.2.1': None,
    'x' * 64 + '.example': ..., 'a..example': ..., '.example': ...,
    '.'.join(['abcdefgh'] * 30): ...,
}
SIGALGS = [list(ref.ALL_SIGALGS), list(ref.ALL_SIGALGS[::-1]),
           *orders([0x0403, 0x0807, 0x0804], (1, 2)), [0x0808], [0x0603, 0x0503, 0x0403]]
ALPN = [[], ['h2'], ['http/1.1', 'http/1.0'], ['http/1.0', 'http/1.1'], ['h2', 'http/1.1', 'imap'],
        ['stun.nat-discovery'], 'all']
DIMS = {
    'suites': orders(SUITES, (1, 2, 3)),
    'groups': [*orders([ref.X25519, ref.P256, ref.P384, ref.X448], (1, 2)),
               *orders([ref.X25519, ref.P256, ref.P521], (3,)), [0x100], [ref.P256, 0x101, 0x100],
               list(ref.ALL_GROUPS)],
    'sigalgs': SIGALGS,
    'alpn': ALPN,
    'mfl': [16384, 512, 1024, 2048, 4096],
    'trust': ['store', 'none', 'keys', 'both'],
    'own': ['none', 'chain', 'key', 'both'],
    'echo': [True, False],
    'host': list(HOSTS),
    'retry': ['no', 'second', 'last', 'second cookie', 'second long cookie'],
}
BASE = {k: v[0] for k, v in DIMS.items()} | {
    'suites': SUITES, 'groups': [ref.X25519, ref.P256], 'host': 'server.example'}
COOKIES = {'second cookie': b'c', 'second long cookie': b'cookie' * 300}

# the server: extensions a client may offer
OFFER = {
    'sni': ref.x_sni(b'server.example'), 'mfl': (ref.X_MFL, b'\1'),
    'status': (ref.X_STATUS, b'\1\0\0\0\0'), 'alpn': ref.x_alpn([b'h2', b'http/1.1']),
    'heartbeat': (ref.X_HEARTBEAT, b'\1'), 'sct': (ref.X_SCT, b'\2\0\2'),
    'cct': (ref.X_CCT, b'\2\0\2'), 'pskmodes': (ref.X_PSKMODES, b'\1\1'),
    'other': (0x4a4a, b'what'), 'timestamp': (18, b''),
}
SERVERS = {
    'plain': {}, 'alpn': {'alpn': ['http/1.1', 'h2']}, 'other alpn': {'alpn': ['imap']},
    'raw': {'raw': 'key'}, 'both': {'raw': 'both'},
    'staple': {'staple': 'good'}, 'staple down': {'staple': 'down'}, 'quiet': {'echo': False},
    'all': {'alpn': ['h2'], 'raw': 'both', 'staple': 'good'},
}
# the values a client may offer for them
VALUES = {
    'mfl': [1, 2, 3, 4], 'heartbeat': [1, 2],
    'alpn': [['h2', 'http/1.1'], ['imap', 'http/1.1', 'h2'], ['imap'], ['what', 'h2']],
    'sct': [[0, 2], [2], [0], [2, 0], [1, 2]],
    'status': [b'\1\0\0\0\0', b'\1' + ref.v16(ref.v16(b'responder') * 3) + ref.v16(b'0\0')],
}
ENCRYPTED = {ref.X_SNI, ref.X_MFL, ref.X_GROUPS, ref.X_HEARTBEAT, ref.X_ALPN, ref.X_CCT, ref.X_SCT}


def cases(tier):
    for (d1, v1), (d2, v2) in itertools.combinations(DIMS.items(), 2):
        for i in range(len(v1)):
            yield ['client', {d1: i}, d2]
    if tier == 'thorough':
        small = [d for d in DIMS if d not in ('groups', 'host')]
        for d1, d2, d3 in itertools.combinations(small, 3):
            for i in range(len(DIMS[d1])):
                for j in range(len(DIMS[d2])):
                    yield ['client', {d1: i, d2: j}, d3]
    for server in SERVERS:
        for retry in (False, True):
            for n in range(0, 1 << len(OFFER), 32):
                yield ['server', server, retry, n]
            for mfl, echo in itertools.product(VALUES['mfl'], VALUES['heartbeat']):
                yield ['values', server, retry, mfl, echo]


def run(case, obs):
    if case[0] == 'client':
        _, fixed, dim = case
        for value in DIMS[dim]:
            cfg = BASE | {d: DIMS[d][i] for d, i in fixed.items()} | {dim: value}
            client_case(cfg, obs)
    elif case[0] == 'values':
        _, server, retry, mfl, echo = case
        for alpn, sct, status in itertools.product(*map(VALUES.get, ('alpn', 'sct', 'status'))):
            server_case(server, retry, list(OFFER), obs, {
                'mfl': mfl, 'heartbeat': echo, 'alpn': alpn, 'sct': sct, 'status': status})
    else:
        _, server, retry, n = case
        for bits in range(n, n + 32):
            offered = [name for i, name in enumerate(OFFER) if bits >> i & 1]
            server_case(server, retry, offered, obs)


# ------------------------------------------------------------------ client
@functools.cache
def trusted(which):
    kw = {}
    if which in ('store', 'both'):
        kw['trust_store'] = Store([pki.root().cert])
    if which in ('keys', 'both'):
        kw['trusted_public_keys'] = [pki.key('p256', 'leaf').public_key()]
    return kw


def configure(cfg):
    kw = dict(cipher_suites=impl.suites(cfg['suites']), key_exchanges=impl.groups(cfg['groups']),
              signature_algorithms=impl.sigalgs(cfg['sigalgs']),
              max_fragment_length=impl.MaxFragmentLengthOctets(cfg['mfl']),
              can_echo_heartbeat=cfg['echo'], **trusted(cfg['trust']))
    names = [str(p) for p in impl.ALPNProtocol] if cfg['alpn'] == 'all' else cfg['alpn']
    if names:
        kw['alpn'] = [impl.ALPNProtocol(n) for n in names]
    if cfg['own'] != 'none':
        key, chain = pki.leaf('ed25519')
        kw['private_key'] = key
        if cfg['own'] in ('chain', 'both'):
            kw['certificate_chain'] = chain
        if cfg['own'] in ('key', 'both'):
            kw['public_key'] = key.public_key()
    return kw, names


def predict(cfg, names, group, cookie):
    """ the extensions of the hello: {type: data}, ... where it isn't predictable """
    out = dict([ref.x_versions(0x0304), ref.x_sigalgs(cfg['sigalgs']), ref.x_groups(cfg['groups']),
                (ref.X_KEYSHARE, ...),
                (ref.X_HEARTBEAT, b'\1' if cfg['echo'] else b'\2')])
    if HOSTS[cfg['host']]:
        out.update([ref.x_sni(HOSTS[cfg['host']])])
    if cfg['mfl'] != 16384:
        out[ref.X_MFL] = bytes([[512, 1024, 2048, 4096].index(cfg['mfl']) + 1])
    if names:
        out.update([ref.x_alpn([n.encode() for n in names])])
    if cfg['own'] in ('key', 'both'):
        out[ref.X_CCT] = ref.v8(b'\0\2' if cfg['own'] == 'both' else b'\2')
    if cfg['trust'] in ('keys', 'both'):
        out[ref.X_SCT] = ref.v8(b'\0\2' if cfg['trust'] == 'both' else b'\2')
    if cfg['trust'] in ('store', 'both'):
        out[ref.X_STATUS] = b'\1\0\0\0\0'
    if cookie is not None:
        out[ref.X_COOKIE] = ref.v16(cookie)
    return out


def check_hello(peer, cfg, names, group, cookie, what):
    ch = peer.hellos[-1]
    need(ch['version'] == 0x0303 and ch['comp'] == b'\0', f'{what}: legacy fields')
    need(ch['suites'] == cfg['suites'], f'{what}: cipher suites {ch["suites"]}')
    types = [t for t, _ in ch['exts']]
    need(len(types) == len(set(types)), f'{what}: an extension twice: {types}')
    want = predict(cfg, names, group, cookie)
    got = dict(ch['exts'])
    need(set(got) == set(want), lambda: f'{what}: extensions {sorted(set(got) ^ set(want))} '
         'missing or not allowed by the configuration')
    for t, data in want.items():
        if data is ...:
            continue
        need(got[t] == data or t == ref.X_SNI and got[t].lower() == data,
             lambda t=t, data=data: f'{what}: extension {t} is {got[t].hex()}, not {data.hex()}')
    need([g for g, _ in ch['shares']] == [group], lambda: f'{what}: shares of '
         f'{[g for g, _ in ch["shares"]]}, not of {group}')
    share = ch['shares'][0][1]
    size = {ref.X25519: 32, ref.X448: 56, ref.P256: 65, ref.P384: 97, ref.P521: 133}.get(group)
    need(len(share) == (size or ref.FFDHE[group] // 8), f'{what}: share of {len(share)} bytes')
    return ch['random'], share


def client_case(cfg, obs):
    what = ' '.join(f'{k}={v}' for k, v in cfg.items() if v != BASE[k]) or 'base'
    obs.state(what)
    obs.step()
    kw, names = configure(cfg)
    config = impl.TLSConfiguration('client', **kw)
    if HOSTS[cfg['host']] is ...:
        dut = impl.Impl(config, server_hostname=cfg['host'])
        try:
            dut.start()
        except Exception:
            pass
        else:
            need(False, f'{what}: sends a name that is none')
        need(not dut.tx() and not dut.connected, f'{what}: sends something')
        obs.outcome('no such name')
        obs.trace()
        return
    seen = []
    for _ in range(2):
        dut = impl.Impl(config, server_hostname=cfg['host']).start()
        peer = ref.RefServer(*pki.leaf(), suite=cfg['suites'][0])
        peer.feed(dut.tx())
        seen.append(check_hello(peer, cfg, names, cfg['groups'][0], None, what))
    need(seen[0][0] != seen[1][0], f'{what}: the same random twice')
    need(seen[0][1] != seen[1][1], f'{what}: the same share twice')
    if cfg['retry'] != 'no' and len(cfg['groups']) > 1:
        group = cfg['groups'][-1 if cfg['retry'] == 'last' else 1]
        cookie = COOKIES.get(cfg['retry'])
        need(dut.rx(peer.hrr(group, cookie=cookie)), lambda: f'{what}: {dut.error!r}')
        peer.feed(dut.tx())
        need(len(peer.hellos) == 2, f'{what}: no second hello')
        random, share = check_hello(peer, cfg, names, group, cookie, f'{what} (second)')
        need(random == seen[1][0], f'{what}: another random')
        need(share != seen[1][1], f'{what}: the same share')
    obs.outcome(f'client {cfg["retry"]}')
    obs.trace()


# ------------------------------------------------------------------ server
class Service:
    def __init__(self, answer):
        self.answer = answer

    def request(self, url, req):
        if self.answer is None:
            raise OSError('down')
        return self.answer

    def cache(self, until, req, res):
        pass

    def uncache(self, req):
        pass


@functools.cache
def stapling():
    ca = pki.CA('Stapling', parent=pki.root())
    key = pki.key('p256', 'leaf')
    leaf = ca.issue(leaf_key=key, ocsp_url=pki.OCSP_URL)
    return key, [leaf, ca.cert], ca.ocsp(leaf)


def server_case(name, retry, offered, obs, values=None):
    what = f'{name} server, the client offers {values or offered}{", retried" if retry else ""}'
    values = values or {k: v[0] for k, v in VALUES.items()}
    offer = OFFER | {
        'mfl': (ref.X_MFL, bytes([values['mfl']])),
        'heartbeat': (ref.X_HEARTBEAT, bytes([values['heartbeat']])),
        'alpn': ref.x_alpn([n.encode() for n in values['alpn']]),
        'sct': (ref.X_SCT, ref.v8(bytes(values['sct']))),
        'status': (ref.X_STATUS, values['status'])}
    d = SERVERS[name]
    obs.state(name, retry, *offered, str(values))
    obs.step()
    key, chain, answer = stapling()
    kw = {'key_exchanges': impl.groups([ref.X25519]), 'private_key': key}
    if 'alpn' in d:
        kw['alpn'] = [impl.ALPNProtocol(n) for n in d['alpn']]
    if 'raw' in d:
        kw['public_key'] = key.public_key()
    kw['certificate_chain'] = chain if d.get('raw') != 'key' else None
    if 'echo' in d:
        kw['can_echo_heartbeat'] = d['echo']
    service = None
    if 'staple' in d:
        service = Service(answer if d['staple'] == 'good' else None)
    dut = impl.Impl(impl.TLSConfiguration('server', **kw), ocsp_service=service).start()
    peer = ref.RefClient(groups=[ref.X25519, ref.P256], extra=[offer[n] for n in offered])
    ok = dut.rx(peer.hello(share_groups=[ref.P256 if retry else ref.X25519]))
    peer.feed(dut.tx())
    if retry:
        need(peer.hrr and set(peer.hrr['x']) <= {ref.X_VERSIONS, ref.X_KEYSHARE, ref.X_COOKIE},
             f'{what}: extensions of the retry')
        ok = ok and dut.rx(ref.CCS_RECORD + peer.hello(share_groups=[ref.X25519]))
        peer.feed(dut.tx())
    types = values['sct'] if 'sct' in offered else [0]
    kind = next((t for t in {'key': [2], 'both': [0, 2]}.get(d.get('raw'), [0]) if t in types), None)
    alpn = None
    if 'alpn' in d and 'alpn' in offered:
        alpn = next((n for n in d['alpn'] if n in values['alpn']), None)
        if alpn is None:
            refused(dut, peer, ok, ('no_application_protocol',
                                    *['unsupported_certificate'] * (kind is None)), what)
            obs.outcome('no protocol')
            obs.trace()
            return
    if kind is None:
        refused(dut, peer, ok, ('unsupported_certificate',), what)
        obs.outcome('no certificate type')
        obs.trace()
        return
    need(ok and peer.server_finished, lambda: f'{what}: {dut.error!r}')
    # ServerHello was checked by the puppet: versions and key share, nothing else
    got = dict(peer.ee)
    sent = {OFFER[n][0] for n in offered} | {ref.X_GROUPS}
    need(set(got) <= sent, lambda: f'{what}: unsolicited extensions {sorted(set(got) - sent)}')
    need(set(got) <= ENCRYPTED, lambda: f'{what}: extensions {sorted(set(got) - ENCRYPTED)} are '
         'not for EncryptedExtensions')
    need(got.get(ref.X_SNI, b'') == b'', f'{what}: server_name not empty')
    need(got.get(ref.X_MFL) == (bytes([values['mfl']]) if 'mfl' in offered else None),
         f'{what}: fragment limit {got.get(ref.X_MFL)}')
    need(got.get(ref.X_ALPN) == (ref.x_alpn([alpn.encode()])[1] if alpn else None),
         f'{what}: protocol {got.get(ref.X_ALPN)}')
    if ref.X_HEARTBEAT in got:
        need(got[ref.X_HEARTBEAT] == (b'\2' if d.get('echo') is False else b'\1'),
             f'{what}: heartbeat mode {got[ref.X_HEARTBEAT]}')
    need('heartbeat' not in offered or ref.X_HEARTBEAT in got, f'{what}: heartbeat not answered')
    raw = kind == 2
    need(got.get(ref.X_SCT, b'\0') == (b'\2' if raw else b'\0'), f'{what}: certificate type')
    need(not raw or ref.X_SCT in got, f'{what}: certificate type not answered')
    # no client certificate is requested
    need(not peer.cert_request, f'{what}: certificate requested')
    need(got.get(ref.X_CCT, b'\0') == b'\0', f'{what}: client certificate type')
    # certificates
    ders = [der for der, _ in peer.cert]
    if raw:
        spki = key.public_key().public_bytes(Encoding.DER, PublicFormat.SubjectPublicKeyInfo)
        need(ders == [spki], f'{what}: not the raw key')
    else:
        need(ders == [c.public_bytes(Encoding.DER) for c in chain], f'{what}: not the chain')
    for i, (_, exts) in enumerate(peer.cert):
        want = {}
        if i == 0 and not raw and d.get('staple') == 'good' and 'status' in offered:
            want = {ref.X_STATUS: ref.u8(1) + ref.v24(answer)}
        need(dict(exts) == want and len(exts) == len(want),
             lambda i=i, exts=exts: f'{what}: extensions {[t for t, _ in exts]} of entry {i}')
    need(dut.rx(ref.CCS_RECORD + peer.finished()) and dut.connected,
         lambda: f'{what}: {dut.error!r}')
    n = dut.conn.nconfig
    need(bool(n.can_send_heartbeat) == ('heartbeat' in offered and values['heartbeat'] == 1),
         f'{what}: heartbeats may be sent: {n.can_send_heartbeat}')
    need(int(n.server_certificate_type) == kind, f'{what}: {n.server_certificate_type} reported')
    need((str(n.alpn) if n.alpn else None) == alpn, f'{what}: protocol {n.alpn} reported')
    need(int(n.max_fragment_length) == (256 << values['mfl'] if 'mfl' in offered else 16384),
         f'{what}: fragment limit {n.max_fragment_length} reported')
    obs.outcome(f'server {sorted(got)}')
    obs.trace()


def refused(dut, peer, ok, alerts, what):
    need(not ok and not dut.connected and not peer.server_finished, f'{what}: accepted')
    need(peer.alerts in [[(2, ref.ALERTS[a])] for a in alerts], f'{what}: alerts {peer.alerts}')
    dut.assert_dead(what)


ASSUMPTIONS = ['the order of the extensions is free']

"""
C18: both sides derive exactly the keys of the RFC.

The puppet computes the secrets on its own over the bytes that really travelled: that records
open and Finished verify in both directions decides the traffic secrets; the key log gives the
values themselves (exporter included).  The puppet's schedule is itself checked on the trace of
RFC 8448 section 3.
"""
import functools
import logging

from .. import env, impl, pki, ref
from ..engine import Violation, need
from siotls import key_logger
from siotls.crypto import TLSKeyExchange
from siotls.iana import NamedGroup

PROP = 'C18'
CHUNK = 8
ALL_SUITES = [ref.AES128, ref.AES256, ref.CHACHA]
ASSUMPTIONS = ['The secrets are compared through the key log and through every protected record '
               'exchanged with the reference.']


class Tap(logging.Handler):
    def __init__(self):
        super().__init__()
        self.lines = []

    def emit(self, record):
        self.lines.append(record.getMessage())

    def __enter__(self):
        self.before = key_logger.handlers[:]
        key_logger.addHandler(self)
        logging.disable(logging.NOTSET)
        return self

    def __exit__(self, *exc):
        key_logger.removeHandler(self)


# -- RFC 8448 section 3, as a test of the reference itself
RFC8448 = {
    'derived': '6f2615a108c702c5678f54fc9dbab69716c076189c48250cebeac3576c3611ba',
    'shared': '8bd4054fb55b9d63fdfbacf9f04b9f0d35e6d63f537563efd46272900f89492d',
    'handshake': '1dc826e93606aa6fdc0aadc12f741b01046aa6b99f691ed221a9f0ca043fbeac',
    's_hs': 'b67b7d690cc16c4e75e54213cb2d37b4e9c912bcded9105d42befd59d391ad38',
    's_key': '3fce516009c21727d0f2e4e86ee403bc', 's_iv': '5d313eb2671276ee13000b30',
    'finished': '008d3b66f816ea559f96b537e885c31fc068bf492c652f01f288a1d8cdc19fc8',
    'master': '18df06843d13a08bf2a449844c5f8a478001bc4d4c627984d5a41da8d0402919',
    'th_sf': '9608102a0f1ccc6db6250b7b7e417b1a000eaada3daae4777a7686c9ff83df13',
    'c_ap': '9e40646ce79a7f9dc05af8889bce6552875afa0b06df0087f792ebb7c17504a5',
    's_ap': 'a11af9f05531f856ad47116b45a950328204b4f44bfb6b3a4b4f1f3fcb631643',
    'exp': 'fe22f881176eda18eb8f44529e6792c50c9a3f89452f68d8ae311b4309d3cf50',
}


def reference_vectors():
    def same(got, name):
        assert got.hex() == RFC8448[name], f'reference {name}'
    x = bytes.fromhex
    s = ref.Schedule(ref.AES128)
    same(s._s, 'derived')
    same(ref.hkdf_extract(s.h, s._s, x(RFC8448['shared'])), 'handshake')
    s.handshake(x(RFC8448['shared']), bytes(32))
    same(s._m, 'master')
    d = ref.Dir(ref.AES128, x(RFC8448['s_hs']))
    same(d.key, 's_key')
    same(d.iv, 's_iv')
    same(s.d(x(RFC8448['s_hs']), b'finished', b''), 'finished')
    s.master(x(RFC8448['th_sf']))
    for name in ('c_ap', 's_ap', 'exp'):
        same(getattr(s, name), name)


def spare(group):
    return ref.P256 if group != ref.P256 else ref.X25519


def cases(tier):
    yield ['reference']
    thorough = tier == 'thorough'
    small = [*ref.FAST_GROUPS, 0x100]
    groups = ref.ALL_GROUPS if thorough else [*small, 0x101]
    shapes = [('plain', 0), ('hrr', 0), ('sid', 0), ('plain', 1), ('hrr', 7), ('long', 0),
              ('odd', 0), ('hrrodd', 0), ('dup', 0)]
    for role in ('client', 'server'):
        for suite in ALL_SUITES:
            for group in groups:
                for shape, frag in shapes:
                    if role == 'client' and shape in ('odd', 'hrrodd', 'dup'):
                        continue
                    if group not in small and not thorough and shape != 'plain':
                        continue
                    yield ['hs', role, suite, group, shape, frag, 'p256']
                if thorough and group in ref.FAST_GROUPS:
                    for other in ref.FAST_GROUPS:
                        if other != group:
                            yield ['hs', role, suite, group, f'hrr{other}', 0, 'p256']
            for n in (65535, 65536, 65537, 90_000):
                yield ['hs', role, suite, ref.X25519, f'huge{n}', 0, 'p256']
            for kind in pki.KEY_KINDS:
                for group in (groups if thorough else [ref.X25519]):
                    for shape, frag in (shapes[:6] if thorough else shapes[:2]):
                        yield ['hs', role, suite, group, shape, frag, kind]
            for frag in (range(1, 300) if thorough else (1, 2, 3, 5, 63, 64, 200)):
                for shape in ('plain', 'hrr', 'long'):
                    yield ['hs', role, suite, ref.X25519, shape, frag, 'p256']
        # shared secrets with zeros in front and behind
        zgroups = [*small, *([0x101, 0x102] if thorough else [])]
        for suite in (ALL_SUITES if thorough else [ref.AES256, ref.CHACHA]):
            for group in zgroups:
                for where in ('front', 'back'):
                    yield ['zero', role, suite, group, where]
    for group in groups:
        for where in ('front', 'back'):
            for count in ((1, 2) if thorough and group in (ref.X25519, ref.P256, 0x100)
                          else (1,)):
                yield ['api', group, where, count]


def zeros(shared, where, count=1):
    part = shared[:count] if where == 'front' else shared[-count:]
    return not any(part)


class GivenShare(ref.Share):
    """ Finite field share of a chosen exponent. """
    def __init__(self, group, priv):
        self.group, self.priv = group, priv
        n = ref.FFDHE[group]
        self.pub = pow(2, priv, ref.ffdhe_p(n)).to_bytes(n // 8, 'big')


def find_share(group, peer_pub, where, count=1):
    """ A share of the puppet whose secret with this public key has zeros where asked. """
    if group in ref.FFDHE:
        n = ref.FFDHE[group]
        p, y = ref.ffdhe_p(n), int.from_bytes(peer_pub, 'big')
        k = 2**224 + 1
        z = pow(y, k, p)
        while not zeros(z.to_bytes(n // 8, 'big'), where, count):
            z, k = z * y % p, k + 1
        return GivenShare(group, k)
    while True:
        mine = ref.Share(group)
        if zeros(mine.shared(peer_pub), where, count):
            return mine


def compare_log(tap, client_random, sched, what):
    expected = {
        'CLIENT_HANDSHAKE_TRAFFIC_SECRET': sched.c_hs, 'SERVER_HANDSHAKE_TRAFFIC_SECRET': sched.s_hs,
        'CLIENT_TRAFFIC_SECRET_0': sched.c_ap, 'SERVER_TRAFFIC_SECRET_0': sched.s_ap,
        'EXPORTER_SECRET': sched.exp,
    }
    seen = set()
    for line in tap.lines:
        label, random, secret = line.split(' ')
        need(label in expected, f'{what}: {label} logged')
        need(random == client_random.hex(), f'{what}: {label} logged for another client random')
        need(secret == expected[label].hex(), f'{what}: {label} is not the secret of the RFC')
        seen.add(label)
    need(seen == set(expected), f'{what}: only {sorted(seen)} were derived')


class OddClient(ref.RefClient):
    """ Reserved values (RFC 8701) in every list, an unusual order of extensions. """
    def hello_raw(self, **kw):
        raw = super().hello_raw(**kw)
        ch = ref.parse_client_hello(raw[4:])
        items = [(0x1a1a, b''), (0x2a2a, b'\0')]
        for t, d in reversed(ch['exts']):
            if t == ref.X_VERSIONS:
                d = ref.x_versions(0x3a3a, 0x0304, 0x0303)[1]
            elif t == ref.X_GROUPS:
                d = ref.x_groups([0x4a4a, *ch['groups'], 0x5a5a])[1]
            elif t == ref.X_SIGALGS:
                d = ref.x_sigalgs([0x6a6a, *ch['sigalgs'], 0x7a7a])[1]
            elif t == ref.X_KEYSHARE and ch['shares']:
                d = ref.x_shares([(0x4a4a, b'\0'), *ch['shares']])[1]
            items.append((t, d))
        items += [(5, b'\1\0\0\0\0'), (21, bytes(33)), (0x23, b''), (0x17, b''),
                  (0x2d, b'\1\1'), (0x8a8a, b'x')]
        return ref.client_hello(ch['random'], [0x9a9a, *ch['suites'], 0x00ff], items,
                                sid=self.sid)


class RepeatingClient(ref.RefClient):
    """ Sends an extension twice. """
    def hello_raw(self, **kw):
        raw = super().hello_raw(**kw)
        ch = ref.parse_client_hello(raw[4:])
        return ref.client_hello(ch['random'], ch['suites'], ch['exts'] + ch['exts'][-1:],
                                sid=self.sid)


def client(cls=ref.RefClient, **kw):
    return cls(**kw)


def handshake(role, suite, group, shape='plain', frag=0, kind='p256', share=None):
    """ Complete handshake with the puppet and data both ways; the secrets must agree. """
    what = f'{role} {suite:#x} {group:#x} {shape} frag={frag} {kind}'
    kw = {'log_keys': True, 'cipher_suites': impl.suites([suite])}
    hrr, odd, dup = shape.startswith('hrr'), shape.endswith('odd'), shape == 'dup'
    other = int(shape[3:].removesuffix('odd') or spare(group)) if hrr else None
    huge = int(shape[4:]) if shape.startswith('huge') else 0
    frag = frag or None
    with Tap() as tap:
        if role == 'server':
            dut = impl.Impl.server(kind, key_exchanges=impl.groups([group]), **kw).start()
            peer = client(suites=[suite], groups=[group, other] if hrr else [group],
                                 sid=b's' * 32 if hrr or shape == 'sid' else b'',
                                 extra=[(0x4a4a, bytes(2000))] if shape == 'long' else [],
                                 cls=OddClient if odd else RepeatingClient if dup
                                 else ref.RefClient)
            if huge:       # a hello which is that long, to the byte
                peer.suites += [0x1a00 + i % 200 for i in range(20_000)]
                peer.extra = [(0x4a4a, bytes(20_000)), (0x5a5a, b'')]
                raw = peer.hello_raw(share_groups=[group])
                peer.extra[1] = (0x5a5a, bytes(huge - len(raw)))
                need(len(peer.hello_raw(share_groups=[group])) == huge, 'harness')
            if hrr:
                need(dut.rx(peer.hello(share_groups=[other])), lambda: f'{what}: {dut.error!r}')
                peer.feed(dut.tx())
                need(peer.hrr, f'{what}: no retry')
            raw = peer.hello_raw(share_groups=[group])
            ok = dut.rx(peer.send_hs(raw, frag=frag))
            if dup and not ok and dut.alert is not None:
                return None            # it isn't obliged to put up with it
            need(ok, lambda: f'{what}: {dut.error!r}')
            peer.feed(dut.tx())
            need(peer.server_finished, f'{what}: incomplete server flight')
            need(dut.rx(peer.finished(frag=frag)), lambda: f'{what}: {dut.error!r}')
            peer.feed(dut.tx())
            random = peer.random
            secret = peer.shares[group].shared(peer.server_pub)
        else:
            key, chain = pki.leaf(kind)
            if shape == 'long':
                kw['alpn'] = list(impl.ALPNProtocol)
            dut = impl.Impl.client(
                key_exchanges=impl.groups([other, group] if hrr else [group]), **kw).start()
            peer = ref.RefServer(key, chain, suite=suite, group=group)
            peer.feed(dut.tx())
            if hrr:
                need(dut.rx(peer.hrr(group)), lambda: f'{what}: {dut.error!r}')
                peer.feed(dut.tx())
            if huge:
                peer.chain = list(chain)
                while len(peer.cert_raw()) < huge:
                    peer.chain.append(chain[-1])
            if share:
                peer.my_share = share(dict(peer.ch['shares'])[group])
            need(dut.rx(peer.flight(frag=frag, ccs=frag is None)),
                 lambda: f'{what}: {dut.error!r}')
            peer.feed(dut.tx())
            need(peer.client_finished, f'{what}: no client Finished')
            random = peer.hellos[0]['random']
            secret = peer.shared
        need(dut.connected, f'{what}: not connected')
        for i in range(2):
            dut.send(b'data %d' % i)
            peer.feed(dut.tx())
            need(dut.rx(peer.send(ref.APPDATA, b'answer %d' % i)), f'{what}: {dut.error!r}')
        need(peer.app == b'data 0data 1' and dut.read == b'answer 0answer 1', f'{what}: data')
    compare_log(tap, random, peer.sched, what)
    return secret


def run(case, obs):
    obs.state(*case)
    kind, *rest = case
    if kind == 'reference':
        reference_vectors()
        obs.step()
    elif kind == 'hs':
        handshake(*rest)
        obs.step(4)
        obs.outcome('handshake')
    elif kind == 'zero':
        role, suite, group, where = rest
        if role == 'client':
            secret = handshake(role, suite, group,
                               share=functools.partial(lambda g, w, pub: find_share(g, pub, w),
                                                       group, where))
            need(zeros(secret, where), 'harness')
            obs.step(4)
        else:
            # the secret of the server isn't ours to choose: as many handshakes as it takes
            for n in range(20000):
                obs.step(4)
                if zeros(handshake(role, suite, group), where):
                    break
            else:
                raise Violation('no shared secret ever has a zero byte')
        obs.outcome(f'zeros in {where}')
    else:
        group, where, count = rest
        kx = TLSKeyExchange[NamedGroup(group)]
        priv, pub = kx.init()
        mine = find_share(group, bytes(pub), where, count)
        expected = mine.shared(bytes(pub))
        got = kx.resume(priv, mine.pub)
        need(got == expected, f'{group:#x}: wrong shared secret with {count} zeros in {where}')
        obs.step()
        obs.outcome(f'api zeros in {where}')
    obs.trace()

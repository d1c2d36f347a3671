""" C28: the configurations. """
import dataclasses
import functools
import itertools
import logging

from cryptography.x509.verification import Store

from .. import impl, pairs, pki, ref
from ..engine import need
from .c23 import snapshot

PROP = 'C28'
CHUNK = 40
D = object()            # not given
MFL = impl.MaxFragmentLengthOctets


@functools.cache
def things():
    key, chain = pki.leaf('p256')
    other_key = pki.key('ed25519', 'leaf')
    return {
        'suites': ([], impl.suites([ref.AES128]), impl.suites(ref.SUITES)),
        'groups': ([], impl.groups([ref.P256]), impl.groups([ref.P256, ref.X25519])),
        'algs': ([], impl.sigalgs([ref.EC256]), impl.sigalgs(ref.ALL_SIGALGS)),
        'store': Store([pki.root().cert]), 'keys': [other_key.public_key()],
        'stranger': pki.CA('Stranger'), 'key': key, 'pub': key.public_key(), 'chain': chain,
        'crl': pki.root().crl([12345]),
    }


SETTINGS = {
    'cipher_suites': lambda t: (D, *t['suites']),
    'key_exchanges': lambda t: (D, *t['groups']),
    'signature_algorithms': lambda t: (D, *t['algs']),
    'trust_store': lambda t: (D, None, t['store']),
    'trusted_public_keys': lambda t: (D, [], t['keys']),
    'private_key': lambda t: (D, None, t['key']),
    'public_key': lambda t: (D, None, t['pub']),
    'certificate_chain': lambda t: (D, None, [], t['chain']),
    'max_fragment_length': lambda t: (D, MFL.MAX_16384, MFL.MAX_512, MFL.MAX_4096),
    'server_hostnames': lambda t: (D, [], ['server.example']),
    'alpn': lambda t: (D, [], [impl.ALPNProtocol('h2')]),
    'log_keys': lambda t: (D, False, True),
    'can_echo_heartbeat': lambda t: (D, False),
    'revocation_list': lambda t: (D, None, t['crl']),
    'max_chain_depth': lambda t: (D, 1),
}
# those whose validity depends on each other, the others are combined two at a time with them
CORE = ['trust_store', 'trusted_public_keys', 'private_key', 'public_key', 'certificate_chain']
REST = [name for name in SETTINGS if name not in CORE]
N = {name: len(SETTINGS[name](things())) for name in SETTINGS}


def valid(side, given):
    """ whether such a configuration is to be accepted """
    for name in ('cipher_suites', 'key_exchanges', 'signature_algorithms'):
        if given.get(name, 'default') == []:
            return False
    if side == 'server':
        if given.get('max_fragment_length', MFL.MAX_16384) != MFL.MAX_16384:
            return False
        return bool(given.get('private_key')
                    and (given.get('certificate_chain') or given.get('public_key')))
    return not given.get('server_hostnames')


def build_case(side, indexes, obs):
    given = {}
    for name, i in indexes.items():
        value = SETTINGS[name](things())[i]
        if value is not D:
            given[name] = list(value) if isinstance(value, list) else value
    what = f'{side} {({k: v for k, v in indexes.items() if v})}'
    before = {k: list(v) if isinstance(v, list) else v for k, v in given.items()}
    try:
        conf = impl.TLSConfiguration(side, **given)
    except ValueError as exc:
        need(not valid(side, given), lambda: f'{what}: refused: {exc}')
        obs.outcome(f'{side}/refused')
        return
    need(valid(side, given), f'{what}: accepted')
    obs.outcome(f'{side}/accepted')
    need(given == before, f'{what}: the settings were modified')
    for k, v in given.items():
        need(getattr(conf, k) == v, f'{what}: {k} is not what was given')
    check_derived(what, side, conf)
    # frozen
    for field in dataclasses.fields(conf):
        old = getattr(conf, field.name)
        try:
            setattr(conf, field.name, None)
        except dataclasses.FrozenInstanceError:
            pass
        else:
            need(False, f'{what}: {field.name} can be changed')
        need(getattr(conf, field.name) is old, f'{what}: {field.name} changed')
    # defaults are not shared
    fresh = impl.TLSConfiguration(side, **given)
    for field in dataclasses.fields(conf):
        value = getattr(conf, field.name)
        if isinstance(value, list) and field.name not in given:
            need(getattr(fresh, field.name) is not value, f'{what}: {field.name} shared')
            need(getattr(fresh, field.name) == value, f'{what}: {field.name} differs')
    # derived configurations are the same
    again = dataclasses.replace(conf)
    need(snapshot(again) == snapshot(conf), f'{what}: copy differs')
    # usable by a connection, one name at a time
    for host in (None, 'server.example', ''):
        try:
            impl.TLSConnection(conf, server_hostname=host)
        except ValueError:
            need(side == 'server' and host, f'{what}: no connection for host {host!r}')
        else:
            need(side == 'client' or not host, f'{what}: server connection with a host name')


def check_derived(what, side, conf):
    auth = bool(conf.trust_store or conf.trusted_public_keys)
    need(bool(conf.require_peer_authentication) == auth, f'{what}: require_peer_authentication')
    need([int(t) for t in conf.certificate_types]
         == [0] * bool(conf.certificate_chain) + [2] * bool(conf.public_key),
         f'{what}: certificate_types')
    need([int(t) for t in conf.peer_certificate_types]
         == [0] * bool(conf.trust_store) + [2] * bool(conf.trusted_public_keys),
         f'{what}: peer_certificate_types')
    need(conf.side == side and {conf.side, conf.other_side} == {'client', 'server'},
         f'{what}: sides')


# ---------------------------------------------------------------- authentication
# settings that have nothing to do with authentication
OTHER = {
    'alpn': [None, impl.ALPNProtocol('http/1.1')], 'log_keys': [False, True],
    'max_fragment_length': [MFL.MAX_16384, MFL.MAX_512], 'can_echo_heartbeat': [True, False],
    'max_chain_depth': [5, 0], 'revocation_list': [0, 1], 'key_exchanges': [0, 1],
    'private_key': [0, 1], 'public_key': [0, 1], 'certificate_chain': [0, 1],
    'cipher_suites': [0, 1],
}


def other_settings(bits):
    t, out = things(), {}
    for name, bit in zip(OTHER, bits, strict=True):
        if not bit:
            continue
        out[name] = {
            'alpn': [impl.ALPNProtocol('http/1.1')], 'log_keys': True,
            'max_fragment_length': MFL.MAX_512, 'can_echo_heartbeat': False,
            'max_chain_depth': 0, 'revocation_list': t['crl'],
            'key_exchanges': impl.groups([ref.P256]), 'private_key': t['key'],
            'public_key': t['pub'], 'certificate_chain': t['chain'],
            'cipher_suites': impl.suites([ref.AES256]),
        }[name]
    return out


PEERS = ['good', 'stranger', 'expired', 'trusted key', 'other key']


@functools.cache
def peer_server(name):
    """ (private key, entries, type) """
    t = things()
    if name == 'good':
        return (*pki.leaf('p256'), 0)
    if name == 'stranger':
        return pki.key('p256', 'leaf'), [t['stranger'].issue()], 0
    if name == 'expired':
        return pki.key('p256', 'leaf'), [pki.root().issue(
            not_before=pki.NOW - 3 * pki.DAY, not_after=pki.NOW - pki.DAY)], 0
    key = pki.key('ed25519', 'leaf') if name == 'trusted key' else pki.key('ed25519', 'nobody')
    return key, [key.public_key()], 2


def client_auth(bits, store, keys, host, peer_name, obs):
    t = things()
    kw = other_settings(bits)
    if store:
        kw['trust_store'] = t['store']
    if keys:
        kw['trusted_public_keys'] = t['keys']
    what = f'client with {sorted(kw)}, host {host}, {peer_name} server'
    conf = impl.TLSConfiguration('client', **kw)
    before = snapshot(conf)
    dut = impl.Impl(conf, server_hostname=host).start()
    key, entries, kind = peer_server(peer_name)
    raw = kind == 2
    peer = ref.RefServer(key, entries, raw_key=raw, ee=[(ref.X_SCT, b'\2')] if raw else [])
    peer.feed(dut.tx())
    legal = {'good': not keys or store, 'stranger': not keys and not store,
             'expired': not keys and not store, 'trusted key': keys, 'other key': False}[peer_name]
    if store and host is None and not raw:
        legal = None            # another kind of certificate is expected then
    ok = dut.rx(peer.flight())
    peer.feed(dut.tx())
    need(not (dut.connected and legal is False), f'{what}: accepted')
    need(not (not ok and legal is True), lambda: f'{what}: refused: {dut.error!r}')
    need(ok == dut.connected, f'{what}: neither connected nor refused')
    need(snapshot(conf) == before, f'{what}: the configuration changed')
    obs.outcome(f'client auth/{peer_name}/{legal}/{dut.connected}')


def server_auth(bits, store, keys, answer, obs):
    """ a server that must authenticate its clients never connects to one that did not """
    t = things()
    kw = other_settings(bits)
    kw.pop('max_fragment_length', None)
    kw['private_key'] = t['key']
    kw.setdefault('certificate_chain', t['chain'])
    if store:
        kw['trust_store'] = t['store']
    if keys:
        kw['trusted_public_keys'] = t['keys']
    what = f'server with {sorted(kw)}, client answers {answer}'
    conf = impl.TLSConfiguration('server', **kw)
    before = snapshot(conf)
    dut = impl.Impl(conf).start()
    # a client certificate type the server can agree with
    extra = [(ref.X_CCT, b'\2\0\2')]
    groups = [ref.X25519, ref.P256]
    peer = ref.RefClient(groups=groups, shares=groups, extra=extra)
    auth = bool(store or keys)
    ok = dut.rx(peer.hello())
    peer.feed(dut.tx())
    # asking for a certificate is not implemented yet: giving up is the safe answer
    need(ok or auth, lambda: f'{what}: {dut.error!r}')
    need(auth or peer.server_finished, f'{what}: no flight')
    if ok and peer.server_finished:
        need(peer.cert_request == auth, f'{what}: certificate requested: {peer.cert_request}')
        ok = dut.rx(ref.CCS_RECORD)
        if answer == 'empty':
            ok = ok and dut.rx(peer.send_hs(ref.hs(ref.CERT, ref.v8(b'') + ref.v24(b''))))
        ok = ok and dut.rx(peer.finished())
    if auth:
        need(not dut.connected, f'{what}: connected')
    elif answer == 'nothing':
        need(ok and dut.connected, lambda: f'{what}: {dut.error!r}')
    else:
        need(not dut.connected, f'{what}: unsolicited certificate accepted')
    need(snapshot(conf) == before, f'{what}: the configuration changed')
    obs.outcome(f'server auth/{auth}/{answer}/{dut.connected}')


# ---------------------------------------------------------------- warnings
def warning_case(store, keys, host, obs):
    records = []

    class Handler(logging.Handler):
        def emit(self, record):
            records.append(record)
    handler = Handler()
    logger = logging.getLogger('siotls')
    logger.addHandler(handler)
    disabled, level = logging.root.manager.disable, logger.level
    logging.disable(logging.NOTSET)
    logger.setLevel(logging.DEBUG)
    try:
        t = things()
        conf = impl.TLSConfiguration('client', trust_store=t['store'] if store else None,
                                     trusted_public_keys=t['keys'] if keys else [])
        seen = [r for r in records if r.levelno >= logging.WARNING]
        need(bool(seen) == (not store and not keys), f'{len(seen)} warnings for an insecure client')
        del records[:]
        impl.TLSConnection(conf, server_hostname=host)
        seen = [r for r in records if r.levelno >= logging.WARNING]
        need(bool(seen) or host or not (store or keys), 'no warning about the missing host name')
    finally:
        logger.removeHandler(handler)
        logger.setLevel(level)
        logging.disable(disabled)
    obs.outcome(f'warning/{bool(seen)}')


def cases(tier):
    thorough = tier == 'thorough'
    for side in ('client', 'server'):
        for a, b in itertools.combinations(REST, 2):
            yield ['build', side, a, b]
        if thorough:
            for names in itertools.combinations(REST, 3):
                yield ['build', side, *names]
    width = len(OTHER)
    for bits in itertools.product((0, 1), repeat=width):
        n = sum(bits)
        if thorough or n <= 2 or n >= width - 1:
            yield ['auth', list(bits)]
    for store in (0, 1):
        for keys in (0, 1):
            for host in (None, 'server.example'):
                yield ['warning', store, keys, host]


def run(case, obs):
    kind, *rest = case
    if kind == 'build':
        side, *names = rest
        for core in itertools.product(*(range(N[name]) for name in CORE)):
            for extra in itertools.product(*(range(N[name]) for name in names)):
                build_case(side, dict(zip([*CORE, *names], [*core, *extra], strict=True)), obs)
                obs.state(side, *core, *names, *extra)
                obs.step()
                obs.trace()
    elif kind == 'warning':
        warning_case(*rest, obs)
        obs.state(*case)
        obs.trace()
    else:
        bits, = rest
        for store in (0, 1):
            for keys in (0, 1):
                for peer in PEERS:
                    for host in (pki.HOST, None):
                        client_auth(bits, store, keys, host, peer, obs)
                        obs.trace()
                for answer in ('nothing', 'empty'):
                    server_auth(bits, store, keys, answer, obs)
                    obs.trace()
                obs.state('auth', *bits, store, keys)
                obs.step()

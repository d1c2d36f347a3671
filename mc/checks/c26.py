""" C26: raw public keys (RFC 7250). """
import functools
import math

from cryptography.hazmat.primitives.asymmetric import dsa, ec, rsa, x25519
from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat

from .. import impl, pairs, pki, ref
from ..engine import need
from ..ref import X_SCT

PROP = 'C26'
CHUNK = 8
KINDS = pki.KEY_KINDS
TRUSTED = ['right', 'other', 'other+right', 'right+other', 'foreign', 'foreign+right', 'none']
PRESENTED = ['right', 'other', 'foreign', 'x509', 'x509other', 'empty', 'right,other',
             'other,right', 'right,right', 'junk', 'trailing', 'truncated', 'zero', 'dsa', 'x25519',
             'x509 of another key', 'twin']
NEGOTIATED = {'absent': [], 'x509': [b'\0'], 'raw': [b'\2'], 'pgp': [b'\1'], 'unknown': [b'\7'],
              'long': [b'\2\2'], 'empty': [b''], 'list': [b'\1\2'], 'x509 then raw': [b'\0', b'\2']}
PROOFS = ['good', 'other key', 'foreign key', 'bad transcript', 'client context', 'bit flip',
          'empty', 'skipped', 'twin key', 'not offered', 'other scheme', 'sole']
FAST = ('ed25519', 'p256')


@functools.cache
def spki(key):
    return key.public_key().public_bytes(Encoding.DER, PublicFormat.SubjectPublicKeyInfo)


@functools.cache
def chain(kind):
    return pki.leaf(kind)[1][0].public_bytes(Encoding.DER)


@functools.cache
def nobody(kind):
    return pki.CA('Nobody').issue(kind=kind).public_bytes(Encoding.DER)


@functools.cache
def odd(kind):
    key = dsa.generate_private_key(2048) if kind == 'dsa' else x25519.X25519PrivateKey.generate()
    return spki(key)


@functools.cache
def twin(kind):
    """ Another key which has parts in common with the right one. """
    key = pki.key(kind, 'leaf')
    numbers = getattr(key, 'private_numbers', lambda: None)()
    if kind.startswith('rsa'):            # same modulus
        phi = (numbers.p - 1) * (numbers.q - 1)
        e = next(e for e in (257, 17, 5, 3, 65539, 101, 103) if math.gcd(e, phi) == 1)
        d = pow(e, -1, phi)
        return rsa.RSAPrivateNumbers(
            numbers.p, numbers.q, d, d % (numbers.p - 1), d % (numbers.q - 1), numbers.iqmp,
            rsa.RSAPublicNumbers(e, numbers.public_numbers.n)).private_key()
    if numbers:                           # same abscissa
        return ec.derive_private_key(ORDERS[kind] - numbers.private_value, key.curve)
    return pki.key(kind, 'raw twin')


ORDERS = {
    'p256': 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551,
    'p384': int('ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf'
                '581a0db248b0a77aecec196accc52973', 16),
    'p521': int('1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa'
                '51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409', 16),
}


class Keys:
    def __init__(self, kind):
        self.kind = kind
        self.foreign_kind = 'p256' if kind != 'p256' else 'ed25519'
        self.right = pki.key(kind, 'leaf')
        self.twin = twin(kind)
        self.other = pki.key(kind, 'raw other')
        self.foreign = pki.key(self.foreign_kind, 'raw foreign')

    def trusted(self, name):
        return [] if name == 'none' else [getattr(self, n).public_key() for n in name.split('+')]

    def entries(self, name):
        der = spki(self.right)
        if name == 'x509 of another key':       # authentic certificate, not the key of the proof
            return [chain(self.foreign_kind)]
        if name == 'x509other':                 # the right key in a certificate of nobody's
            return [nobody(self.kind)]
        if name in ('dsa', 'x25519'):
            return [odd(name)]
        if name in ('x509', 'empty', 'junk', 'trailing', 'truncated', 'zero'):
            return {'x509': [chain(self.kind)], 'empty': [], 'junk': [b'junk'],
                    'trailing': [der + b'\0'], 'truncated': [der[:-1]], 'zero': [b'']}[name]
        return [spki(getattr(self, n)) for n in name.split(',')]


def client_case(kind, trusted, store, presented, negotiated, proof, obs):
    what = f'{kind}: trusting {trusted}{" and a store" if store else ""}, presented {presented} ' \
           f'as {negotiated}, {proof} proof'
    keys = Keys(kind)
    trust = keys.trusted(trusted)
    kw = {'trusted_public_keys': trust} if trust else {}
    mine = ref.algs_for(keys.right)
    if proof == 'not offered':              # another scheme of the key or, if need be, of another
        kw['signature_algorithms'] = impl.sigalgs(mine[:-1] or ref.algs_for(keys.foreign))
    if proof == 'sole':
        kw['signature_algorithms'] = impl.sigalgs(mine[-1:])
    dut = impl.Impl.client(trust=store, **kw).start()
    items = [(X_SCT, data) for data in NEGOTIATED[negotiated]]
    peer = ref.RefServer(keys.right, keys.entries(presented), ee=items)
    peer.feed(dut.tx())
    offer = peer.ch['x'].get(X_SCT)
    want = bytes([0] * bool(store) + [2]) if trust else None
    need(offer == (ref.v8(want) if want else None) or (want == b'\0' and offer is None),
         lambda: f'{what}: certificate types offered: {offer!r}')
    ok = dut.rx(peer.sh() + ref.CCS_RECORD + peer.send_hs(peer.ee_raw()))
    refused_early = not ok
    ok = ok and dut.rx(peer.send_hs(peer.cert_raw()))
    if ok and proof != 'skipped':
        other = {'good': keys.right, 'other key': keys.other, 'foreign key': keys.foreign,
                 'twin key': keys.twin}
        raw = peer.cv_raw(
            key=other.get(proof), th=bytes(32) if proof == 'bad transcript' else None,
            context=ref.CV_CLIENT if proof == 'client context' else ref.CV_SERVER,
            sig=b'' if proof == 'empty' else None,
            **({'alg': mine[-1]} if proof in ('not offered', 'sole') else {}))
        if proof == 'other scheme':         # the signature is right, what is said of it is not
            named_alg = next(a for a in ref.ALL_SIGALGS if a not in mine)
            raw = ref.hs(ref.CERT_VERIFY, ref.u16(named_alg) + raw[6:])
        if proof == 'bit flip':
            raw = raw[:-1] + bytes([raw[-1] ^ 1])
        ok = dut.rx(peer.send_hs(raw))
    ok = ok and dut.rx(peer.fin())
    peer.feed(dut.tx())
    connected = dut.connected

    # the oracle
    values = NEGOTIATED[negotiated]
    kind_of = {'absent': 'x509', 'x509': 'x509', 'raw': 'raw', 'x509 then raw': 'raw'}.get(negotiated)
    offered = {'x509': store or not trust, 'raw': bool(trust)}
    legal = kind_of is not None and offered[kind_of]
    twice = len(values) > 1             # whether it is refused is not decided
    if kind_of == 'raw':
        named = {'right': 'right', 'right,right': 'right', 'right,other': 'right',
                 'other': 'other', 'other,right': 'other', 'foreign': 'foreign', 'twin': 'twin'}.get(presented)
        legal = legal and named in trusted.split('+')
        proven = {'right': 'good', 'other': 'other key', 'foreign': 'foreign key'}.get(named)
        legal = legal and (proof == proven or proof == 'sole' and proven == 'good')
        sure = ',' not in presented and not twice       # the RFC allows only one entry
    else:
        if presented == 'x509':
            legal = legal and proof in ('good', 'sole')
        elif presented == 'x509other':
            legal = legal and not store and not trust and proof in ('good', 'sole')
        else:
            legal = False
        # the server answers an extension that wasn't sent
        sure = not (values and not trust)
    if connected:
        need(legal, f'{what}: accepted')
        need(peer.client_finished, f'{what}: not finished')
        n = dut.conn.nconfig
        if kind_of == 'raw':
            need(spki_of(n.peer_public_key) == keys.entries(presented)[0], f'{what}: key reported')
        else:
            need(n.peer_certificate.public_bytes(Encoding.DER) == keys.entries(presented)[0]
                 and not n.peer_public_key, f'{what}: certificate reported')
    else:
        need(not (legal and sure), lambda: f'{what}: refused: {dut.error!r}')
        need(dut.alert is not None, lambda: f'{what}: {dut.error!r} is not an alert'
             ) if proof != 'skipped' or refused_early else None
        need(dut.error is not None, f'{what}: neither accepted nor refused')
        need([d for _, d in peer.alerts] == [dut.alert], lambda: f'{what}: alert {peer.alerts}')
        need(80 not in [d for _, d in peer.alerts], lambda: f'{what}: internal error')
        dut.assert_dead(what)
    obs.state(kind, trusted, store, presented, negotiated, proof)
    obs.step(4)
    obs.trace()
    obs.outcome(f'client/{connected}/{dut.alert}')


def spki_of(public_key):
    return public_key.public_bytes(Encoding.DER, PublicFormat.SubjectPublicKeyInfo)


OFFERS = {'absent': None, 'x': b'\1\0', 'r': b'\1\2', 'xr': b'\2\0\2', 'rx': b'\2\2\0', 'p': b'\1\1',
          'pr': b'\2\1\2', 'px': b'\2\1\0', 'u': b'\1\x63', 'ur': b'\2\x63\2', 'rr': b'\2\2\2',
          'none': b'\0', 'short': b'\2\2', 'long': b'\1\2\0', 'nothing': b'',
          'all': b'\xff' + bytes(range(255)), 'uuur': b'\4\x63\x64\x65\2'}


def server_case(kind, has, offer, retry, client_types, obs):
    what = f'{kind} server with {has}, the client supports {offer}{", retried" if retry else ""}'
    key, certificates = pki.leaf(kind)
    kw = {}
    if 'k' in has:
        kw['public_key'] = key.public_key()
    kw['certificate_chain'] = certificates if 'c' in has else None
    dut = impl.Impl(impl.server_config(
        kind, key_exchanges=impl.groups([ref.X25519, ref.P256]), **kw)).start()
    data = OFFERS[offer]
    extra = [(X_SCT, data)] if data is not None else []
    if client_types is not None:
        extra.append((ref.X_CCT, OFFERS[client_types]))
    peer = ref.RefClient(groups=[ref.P256, ref.X25519], extra=extra)
    first = ref.P256 if retry else ref.X25519
    ok = dut.rx(peer.hello(share_groups=[first]))
    peer.feed(dut.tx())
    if ok and retry:
        ok = dut.rx(ref.CCS_RECORD + peer.hello(share_groups=[ref.X25519]))
        peer.feed(dut.tx())
    malformed = offer in ('none', 'short', 'long', 'nothing')
    supported = [0] if data is None else [] if malformed else list(data[1:])
    mine = [0] * ('c' in has) + [2] * ('k' in has)
    common = [t for t in mine if t in supported]
    if malformed or not common:
        need(not ok and dut.error is not None, f'{what}: accepted')
        need([d for _, d in peer.alerts] == [dut.alert], f'{what}: {peer.alerts}')
        if not malformed:
            need(dut.alert == 43, lambda: f'{what}: alert {dut.alert}')
        else:
            need(dut.alert in (50, 47), lambda: f'{what}: alert {dut.alert}')
        need(not peer.server_finished, f'{what}: finished')
        dut.assert_dead(what)
    else:
        need(ok, lambda: f'{what}: {dut.error!r}')
        need(peer.server_finished, f'{what}: no flight')
        got = peer.ee.get(X_SCT)
        need(got == (bytes([common[0]]) if data is not None else None)
             or got is None and common[0] == 0,
             lambda: f'{what}: {got!r} selected')
        if common[0] == 2:
            need([der for der, _ in peer.cert] == [spki(key)], f'{what}: not the key')
        else:
            need([der for der, _ in peer.cert] == [chain(kind)], f'{what}: not the certificates')
        need(ref.X_CCT not in peer.ee or client_types is not None, f'{what}: unsolicited extension')
        need(dut.rx(ref.CCS_RECORD + peer.finished()), lambda: f'{what}: {dut.error!r}')
        need(dut.connected, f'{what}: not connected')
    obs.state('server', kind, has, offer, retry, client_types)
    obs.step(2)
    obs.trace()
    obs.outcome(f'server/{dut.connected}/{dut.alert}')


def pair_case(kind, store, trusted, has, obs):
    what = f'{kind}: client trusting {trusted}{" and a store" if store else ""}, server with {has}'
    keys = Keys(kind)
    trust = keys.trusted(trusted)
    kw = {'trusted_public_keys': trust} if trust else {}
    key, certificates = pki.leaf(kind)
    client = impl.Impl.client(trust=store, **kw).start()
    skw = {'public_key': key.public_key()} if 'k' in has else {}
    server = impl.Impl(impl.server_config(
        kind, certificate_chain=certificates if 'c' in has else None, **skw)).start()
    pairs.pump(client, server)
    common = [t for t in 'ck' if t in has and (
        (store or not trust) if t == 'c' else bool(trust))]
    works = bool(common) and (common[0] == 'c' or 'right' in trusted.split('+'))
    if works:
        need(client.connected and server.connected,
             lambda: f'{what}: {client.error!r}, {server.error!r}')
        client.send(b'hello')
        server.rx(client.tx())
        need(server.read == b'hello', f'{what}: data')
        need(bool(client.conn.nconfig.peer_public_key) == (common[0] == 'k'), f'{what}: kind')
    else:
        need(not client.connected and not server.connected, f'{what}: connected')
        need(client.error is not None and server.error is not None, f'{what}: no failure')
        need(80 not in (client.alert, server.alert), f'{what}: internal error')
    obs.state('pair', kind, store, trusted, has)
    obs.step()
    obs.trace()
    obs.outcome(f'pair/{works}/{client.alert}/{server.alert}')


def cases(tier):
    thorough = tier == 'thorough'
    for kind in KINDS:
        for store in (0, 1):
            for trusted in TRUSTED:
                if thorough or kind == 'ed25519':
                    for negotiated in NEGOTIATED:
                        yield ['client', kind, trusted, store, negotiated]
                else:
                    yield ['client', kind, trusted, store, 'raw']
                for has in ('c', 'k', 'ck'):
                    yield ['pair', kind, store, trusted, has]
        for has in ('c', 'k', 'ck'):
            for retry in (0, 1):
                yield ['server', kind, has, retry]


def run(case, obs):
    if case[0] == 'client':
        _, kind, trusted, store, negotiated = case
        for presented in PRESENTED:
            for proof in PROOFS:
                client_case(kind, trusted, bool(store), presented, negotiated, proof, obs)
    elif case[0] == 'pair':
        _, kind, store, trusted, has = case
        pair_case(kind, bool(store), trusted, has, obs)
    else:
        _, kind, has, retry = case
        for offer in OFFERS:
            for client_types in (None, 'x', 'r', 'xr', 'u'):
                server_case(kind, has, offer, retry, client_types, obs)

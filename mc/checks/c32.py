"""
C32: the status of a certificate over the life of a process.  Several connections, as a client and
as a server, share one status cache; between them certificates are revoked, the responder fails,
serves old answers or answers about something else, and time passes.  Every such history up to a
depth is run on the real connections and the real cache module, on a clock of its own.
"""
import datetime
import functools
import sys
import time
import types

from cryptography.hazmat.primitives.serialization import Encoding
from cryptography.x509.ocsp import OCSPRequestBuilder, load_der_ocsp_request
from cryptography.x509.verification import Store

from .. import impl, pki, ref
from ..engine import need
from . import c20

PROP = 'C32'
CHUNK = 1
TIMEOUT = 600
WINDOW = datetime.timedelta(hours=2)            # validity of an answer
SERIAL = 0x5a << 120 | 0x0123456789abcdef01234567
EARLY = datetime.timedelta(minutes=1)
TICKS = {'tick': datetime.timedelta(hours=1, minutes=10),
         'TICK': datetime.timedelta(hours=2, minutes=10)}
MODES = ['up', 'down', 'frozen', 'swapped', 'garbage']
CONNECTIONS = ['connect A', 'connect B', 'connect C', 'staple A', 'staple C', 'serve A']
EVENTS = [*MODES, 'revoke A', 'revoke I', *TICKS]
ASSUMPTIONS = [
    'The clock and the HTTP client are stand-ins. A status that is still valid may be served from '
    'the cache after a revocation, or fetched again.']


class Clock:
    """ Stands in for the modules of the standard library the code under test tells time with. """
    @classmethod
    def install(cls):
        fake_module = types.SimpleNamespace(**{
            **vars(datetime), 'datetime': c20.FakeDatetime})
        epoch = datetime.datetime(1970, 1, 1)
        fake_time = types.SimpleNamespace(**{
            **vars(time), 'time': lambda: (c20.Clock.now - epoch).total_seconds()})
        for name, module in list(sys.modules.items()):
            if name.split('.')[0] != 'siotls':
                continue
            for attr, value in list(vars(module).items()):
                if value is c20.real_datetime:
                    setattr(module, attr, c20.FakeDatetime)
                elif value is datetime:
                    setattr(module, attr, fake_module)
                elif value is time:
                    setattr(module, attr, fake_time)


Clock.install()


@functools.cache
def world():
    root = pki.root()
    inter = pki.CA('StatusInter', parent=root, ocsp_url=pki.OCSP_URL)
    key = pki.key('ed25519', 'leaf')
    # as similar as they can be: neighbours, and the same serial number of another issuer
    certs = {
        'A': root.issue(leaf_key=key, ocsp_url=pki.OCSP_URL, serial=SERIAL),
        'B': root.issue(leaf_key=key, ocsp_url=pki.OCSP_URL, serial=SERIAL ^ 1),
        'C': inter.issue(leaf_key=key, ocsp_url=pki.OCSP_URL, serial=SERIAL),
        'I': inter.cert,
    }
    issuers = {'A': root, 'B': root, 'C': inter, 'I': root}
    chains = {'A': [certs['A']], 'B': [certs['B']], 'C': [certs['C'], certs['I']]}
    return key, certs, issuers, chains, Store([root.cert])


@functools.cache
def issuer_key_hash(cert, alg):
    _, certs, issuers, _, _ = world()
    return load_der_ocsp_request(
        OCSPRequestBuilder().add_certificate(certs[cert], issuers[cert].cert, alg())
        .build().public_bytes(Encoding.DER)).issuer_key_hash


SWAP = {'A': 'B', 'B': 'A', 'C': 'A', 'I': 'A'}


class Responder:
    def __init__(self):
        self.mode = 'up'
        self.revoked = set()
        self.answers = {}       # cert -> [(good, from, until, der)], in order
        self.asked = []

    def make(self, cert, alg):
        _, certs, issuers, _, _ = world()
        now, good = c20.Clock.now, cert not in self.revoked
        der = issuers[cert].ocsp(certs[cert], status='good' if good else 'revoked',
                                 this_update=now - EARLY, next_update=now + WINDOW, alg=alg)
        self.answers.setdefault(cert, []).append((good, now - EARLY, now + WINDOW, der))
        return der

    def __call__(self, req, *args, **kw):
        certs = world()[1]
        ocsp_req = load_der_ocsp_request(req.data)
        cert = next(c for c in certs if certs[c].serial_number == ocsp_req.serial_number
                    and issuer_key_hash(c, type(ocsp_req.hash_algorithm)) == ocsp_req.issuer_key_hash)
        self.asked.append(cert)
        alg = type(ocsp_req.hash_algorithm)
        if self.mode == 'down':
            raise OSError('down')
        if self.mode == 'garbage':
            return c20.good_response(b'<html>nothing of interest')
        if self.mode == 'swapped':
            return c20.good_response(self.make(SWAP[cert], alg))
        if self.mode == 'frozen' and cert in self.answers:
            return c20.good_response(self.answers[cert][0][3])
        return c20.good_response(self.make(cert, alg))

    def fetches(self, cert):
        """ whether a valid status can be fetched now """
        if self.mode == 'frozen' and cert in self.answers:
            good, start, until, _ = self.answers[cert][0]
            return good and start <= c20.Clock.now <= until
        if self.mode == 'swapped':
            return False
        return self.mode in ('up', 'frozen') and cert not in self.revoked

    def valid(self, cert):
        """ whether a valid good status of the certificate was ever given """
        return any(good and start <= c20.Clock.now <= until
                   for good, start, until, _ in self.answers.get(cert, ()))


def cases(tier):
    depth = 4 if tier == 'quick' else 5
    for a in CONNECTIONS + EVENTS:
        for b in CONNECTIONS + EVENTS:
            yield [depth, a, b]
    for a in CONNECTIONS:
        yield [1, a]


def run(case, obs):
    depth, *prefix = case
    extend(prefix, depth, obs)


def useless(ops, op):
    """ the same history is explored in another order, or without that event """
    last = ops[-1]
    if op in MODES:
        return last in MODES or op == next((o for o in ops[::-1] if o in MODES), 'up')
    if op.startswith('revoke'):
        return op in ops or last in MODES or last in TICKS
    if op in TICKS:
        return last in MODES
    return False


def extend(ops, depth, obs):
    if all(not useless(ops[:i], op) for i, op in enumerate(ops) if i):
        if ops[-1] in CONNECTIONS:
            history(ops, obs)
        if len(ops) < depth:
            for op in CONNECTIONS + EVENTS:
                extend([*ops, op], depth, obs)


def history(ops, obs):
    responder = Responder()
    service = c20.fresh(responder)
    for i, op in enumerate(ops):
        what = ' / '.join(ops[:i + 1])
        obs.step()
        if op in MODES:
            responder.mode = op
        elif op in TICKS:
            c20.Clock.now += TICKS[op]
        elif op.startswith('revoke'):
            responder.revoked.add(op[-1])
        elif op.startswith('serve'):
            serve(op[-1], responder, service, what, obs)
        else:
            connect(op, responder, service, what, obs)
    obs.state(*ops)
    obs.trace()


def connect(op, responder, service, what, obs):
    key, certs, _, chains, store = world()
    cert = op[-1]
    chain = chains[cert]
    names = ['C', 'I'] if cert == 'C' else [cert]
    statuses = {}
    if op.startswith('staple'):         # the oldest good answer about it, if there is any
        for name in names:
            good = [a for a in responder.answers.get(name, ()) if a[0]]
            if good:
                statuses[name] = good[0]
    now = c20.Clock.now
    must, may = True, True
    for name in names:
        if name in statuses:
            ok = statuses[name][1] <= now <= statuses[name][2]
            must, may = must and ok, may and ok
        else:
            must = must and responder.fetches(name)
            may = may and (responder.fetches(name) or responder.valid(name))
    responder.asked.clear()
    dut = impl.Impl(impl.TLSConfiguration(
        'client', trust_store=store, cipher_suites=impl.suites([ref.CHACHA]),
        key_exchanges=impl.groups([ref.X25519])), server_hostname=pki.HOST, ocsp_service=service)
    dut.start()
    peer = ref.RefServer(key, chain, suite=ref.CHACHA, group=ref.X25519)
    peer.cert_extensions = {i: [(ref.X_STATUS, ref.u8(1) + ref.v24(statuses[n][3]))]
                            for i, n in enumerate(names) if n in statuses}
    peer.feed(dut.tx())
    ok = dut.rx(peer.flight())
    peer.feed(dut.tx())
    need(len(responder.asked) == len(set(responder.asked))
         and set(responder.asked) <= set(names) - set(statuses),
         lambda: f'{what}: asks about {responder.asked}')
    if ok:
        need(may, f'{what}: accepted, nothing says it is good')
        need(dut.connected and peer.client_finished, f'{what}: not connected')
    else:
        need(not must, lambda: f'{what}: refused: {dut.error!r}')
        need(len(peer.alerts) == 1 and peer.alerts[0][0] == 2 and not peer.client_finished,
             f'{what}: alerts {peer.alerts}')
        dut.assert_dead(what)
    obs.outcome(f'{op} {"accepted" if ok else "refused"}')


def serve(cert, responder, service, what, obs):
    key, certs, issuers, _, _ = world()
    dut = impl.Impl(impl.TLSConfiguration(
        'server', private_key=key, certificate_chain=[certs[cert], issuers[cert].cert],
        cipher_suites=impl.suites([ref.CHACHA]), key_exchanges=impl.groups([ref.X25519])),
        ocsp_service=service).start()
    peer = ref.RefClient(suites=[ref.CHACHA], groups=[ref.X25519],
                         extra=[(ref.X_STATUS, b'\1\0\0\0\0')])
    responder.asked.clear()
    ok = dut.rx(peer.hello())
    peer.feed(dut.tx())
    need(ok and peer.server_finished, lambda: f'{what}: {dut.error!r}')
    need(responder.asked in ([], [cert]), lambda: f'{what}: asks about {responder.asked}')
    staple = dict(peer.cert[0][1]).get(ref.X_STATUS)
    need(not dict(peer.cert[1][1]), f'{what}: a status of the issuer')
    if staple is None:
        need(not responder.fetches(cert), f'{what}: no status')
    else:
        now = c20.Clock.now
        need(any(good and start <= now <= until and staple == ref.u8(1) + ref.v24(der)
                 for good, start, until, der in responder.answers.get(cert, ())),
             f'{what}: a status that is not one, or no longer')
    need(dut.rx(ref.CCS_RECORD + peer.finished()) and dut.connected,
         lambda: f'{what}: {dut.error!r}')
    obs.outcome(f'serve {"stapled" if staple else "not stapled"}')

""" C27: interoperability with OpenSSL, driven in memory through the ssl module. """
import functools
import itertools
import logging
import os
import ssl
import tempfile

from cryptography.hazmat.primitives.serialization import Encoding, NoEncryption, PrivateFormat

from .. import impl, pki, ref
from ..engine import need

PROP = 'C27'
CHUNK = 6
TIMEOUT = 600
ASSUMPTIONS = ['The oracle is the OpenSSL the ssl module of this Python is linked with '
               f'({ssl.OPENSSL_VERSION}).']
GROUPS = {ref.P256: 'prime256v1', ref.P384: 'secp384r1', ref.P521: 'secp521r1',
          ref.X25519: 'X25519', ref.X448: 'X448', **{g: f'ffdhe{n}' for g, n in ref.FFDHE.items()}}
SUITE_NAMES = {0x1301: 'TLS_AES_128_GCM_SHA256', 0x1302: 'TLS_AES_256_GCM_SHA384',
               0x1303: 'TLS_CHACHA20_POLY1305_SHA256'}
SIZES = [0, 1, 2, 4072, 4078, 4079, 4080, 8192, 16366, 16367, 16368, 16383, 16384, 16385, 32768,
         100000]
# siotls sends or OpenSSL does, a little or a lot, then they talk or not; they close at the end
OPS = ['ds', 'dl', 'os', 'ol', 'd0', 'pump', 'dclose', 'oclose']
ALPN = {'a': 'http/1.1', 'b': 'h2', 'c': 'http/1.0'}


@functools.cache
def authority(depth):
    """ (root, [intermediates from the leaf up], issuer of the leaf) """
    ca, chain = pki.root(), []
    for i in range(depth):
        ca = pki.CA(f'Intermediate {i}', parent=ca, kind='p384' if i % 2 else 'p256')
        chain.insert(0, ca.cert)
    return chain, ca


@functools.cache
def chain_of(kind, depth):
    chain, ca = authority(depth)
    return pki.key(kind, 'leaf'), [ca.issue(kind=kind, ips=('192.0.2.1', '2001:db8::1')), *chain]


@functools.cache
def server_context(kind, depth):
    key, certificates = chain_of(kind, depth)
    context = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
    context.minimum_version = ssl.TLSVersion.TLSv1_3
    with tempfile.TemporaryDirectory() as d:
        with open(f'{d}/cert', 'wb') as f:
            f.write(b''.join(c.public_bytes(Encoding.PEM) for c in certificates))
        with open(f'{d}/key', 'wb') as f:
            f.write(key.private_bytes(Encoding.PEM, PrivateFormat.PKCS8, NoEncryption()))
        context.load_cert_chain(f'{d}/cert', f'{d}/key')
    return context


def client_context():
    context = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
    context.load_verify_locations(cadata=pki.root().cert.public_bytes(Encoding.DER))
    return context


class OpenSSL:
    def __init__(self, context, server, host=None):
        self.inp, self.out = ssl.MemoryBIO(), ssl.MemoryBIO()
        self.obj = context.wrap_bio(self.inp, self.out, server_side=server, server_hostname=host)
        self.done = self.closed = False
        self.read = b''
        self.error = None
        self.eof = False

    def step(self):
        """ Do whatever is possible. """
        try:
            if not self.done:
                self.obj.do_handshake()
                self.done = True
            while not self.eof:
                data = self.obj.read(65536)
                self.read += data
                if not data:
                    self.eof = True
        except (ssl.SSLWantReadError, ssl.SSLSyscallError):
            pass
        except ssl.SSLZeroReturnError:
            self.eof = True
        except ssl.SSLError as exc:
            self.error = self.error or exc
            self.eof = True

    def send(self, data):
        view = memoryview(data)
        while view:
            view = view[self.obj.write(view):]

    def close(self):
        try:
            self.obj.unwrap()
        except ssl.SSLWantReadError:
            pass
        except (ssl.SSLSyscallError, ssl.SSLError) as exc:
            if 'application data after close notify' not in str(exc):
                raise


class Link:
    """ One siotls (``role``) and one OpenSSL. """
    def __init__(self, role, *, suite=(ref.CHACHA,), groups=(ref.X25519,), peer_group=None,
                 kind='p256', depth=0, chunk=None, alpn=(), peer_alpn=(), host=pki.HOST,
                 tickets=None, peer_host=pki.HOST, keylog=None, **kw):
        self.role, self.chunk = role, chunk
        kw.update(cipher_suites=impl.suites(suite), key_exchanges=impl.groups(groups),
                  alpn=[impl.ALPNProtocol(ALPN[c]) for c in alpn])
        if role == 'server':
            key, certificates = chain_of(kind, depth)
            self.dut = impl.Impl(impl.server_config(kind, private_key=key,
                                                    certificate_chain=certificates, **kw))
            context = client_context()
            if host is None:
                context.check_hostname = False
        else:
            self.dut = impl.Impl.client(host=host, **kw)
            context = server_context(kind, depth)
            if tickets is not None or peer_group or peer_alpn or keylog:
                server_context.cache_clear()
                context = server_context(kind, depth)
                server_context.cache_clear()
            if tickets is not None:
                context.num_tickets = tickets
        if peer_group:
            context.set_ecdh_curve(GROUPS[peer_group])
        if peer_alpn:
            context.set_alpn_protocols([ALPN[c] for c in peer_alpn])
        if keylog:
            context.keylog_filename = keylog
        self.ossl = OpenSSL(context, role == 'client', peer_host if role == 'server' else None)
        self.sent = self.received = 0
        self.dut.start()

    def pump(self, rounds=60):
        quiet = 0
        for _ in range(rounds):
            self.ossl.step()
            data = self.ossl.out.read()
            for i in range(0, len(data), self.chunk or len(data) or 1):
                if self.dut.error is None:
                    self.dut.rx(data[i:i + (self.chunk or len(data))])
            out = self.dut.tx()
            for i in range(0, len(out), self.chunk or len(out) or 1):
                self.ossl.inp.write(out[i:i + (self.chunk or len(out))])
                if self.chunk:
                    self.ossl.step()
            quiet = quiet + 1 if not data and not out else 0
            if quiet == 2:
                return
        need(False, 'the two peers never stop talking to each other')

    def handshake(self, what):
        self.pump()
        need(self.dut.error is None, lambda: f'{what}: {self.dut.error!r}')
        need(self.ossl.error is None, lambda: f'{what}: OpenSSL: {self.ossl.error}')
        need(self.dut.connected and self.ossl.done, f'{what}: handshake incomplete')
        need(self.ossl.obj.version() == 'TLSv1.3', f'{what}: version')

    def exchange(self, what, up=b'ping', down=b'pong'):
        before, seen = len(self.dut.read), len(self.ossl.read)
        self.ossl.send(up)
        self.pump()
        self.dut.send(down)
        self.pump()
        need(self.dut.read[before:] == up, lambda: f'{what}: received {len(self.dut.read) - before}'
             f' bytes instead of {len(up)}: {self.dut.error!r}')
        need(self.ossl.read[seen:] == down, lambda: f'{what}: OpenSSL received '
             f'{len(self.ossl.read) - seen} bytes instead of {len(down)}: {self.ossl.error}')

    def close(self, what, order='dut'):
        if order in ('dut', 'both'):
            self.dut.conn.close_sending_end()
            if order == 'dut':
                self.pump()
                need(self.ossl.eof and not self.ossl.error,
                     lambda: f'{what}: OpenSSL did not see the end: {self.ossl.error}')
                # the other direction is still open
                self.ossl.send(b'after')
                self.pump()
                need(self.dut.read.endswith(b'after'), f'{what}: half close')
            self.ossl.close()
        else:
            self.ossl.close()
            self.pump()
            need(not self.dut.connected, f'{what}: end of the stream not seen')
            self.dut.conn.close_sending_end()
        self.pump()
        self.ossl.close()
        need(self.dut.error is None, lambda: f'{what}: {self.dut.error!r}')
        need(self.ossl.error is None, lambda: f'{what}: OpenSSL: {self.ossl.error}')
        need(not self.dut.connected, f'{what}: still connected')


# ---------------------------------------------------------------- cases
def basic(what, role, suite, groups, peer_group, kind, depth, obs, **kw):
    link = Link(role, suite=suite, groups=groups, peer_group=peer_group, kind=kind, depth=depth, **kw)
    link.handshake(what)
    need(link.ossl.obj.cipher()[0] == SUITE_NAMES[suite[0]], f'{what}: cipher')
    need(int(link.dut.conn.nconfig.cipher_suite) == suite[0], f'{what}: cipher')
    link.exchange(what)
    link.exchange(what, b'x' * 20000, b'y' * 20000)
    link.close(what)
    return link


def cases(tier):
    thorough = tier == 'thorough'
    groups = ref.ALL_GROUPS
    for role in ('client', 'server'):
        for suite in ref.SUITES:
            for kind in pki.KEY_KINDS:
                for depth in (0, 1, 2):
                    yield ['kind', role, suite, kind, depth]
            for group in groups:
                for retry in (0, 1):
                    yield ['group', role, suite, group, retry]
                    if thorough:
                        for kind in pki.KEY_KINDS:
                            for chunk in (1, 100, None):
                                yield ['product', role, suite, group, retry, kind, chunk]
        for depth in range(1, 6 if thorough else 5):
            for ops in itertools.product(OPS, repeat=depth):
                yield ['ops', role, list(ops)]
        for mine in ('', 'a', 'b', 'ab', 'ba', 'abc', 'ca'):
            for peer in ('', 'a', 'b', 'ab', 'ba', 'c', 'cba'):
                yield ['alpn', role, mine, peer]
        for size in [*SIZES, *range(3, 1500), *range(16300, 16500)] if thorough else SIZES:
            for chunk in (None, 1, 7, 1000, 16384) if thorough else (None, 1000):
                if chunk != 1 or size < 20000:
                    yield ['size', role, size, chunk]
        for chunk in [*range(1, 40), 100, 255, 511, 1024, 4096]:
            yield ['chunk', role, chunk]
        for order in ('dut', 'ossl', 'both'):
            yield ['close', role, order]
        for suite in ref.SUITES:
            for group in ref.FAST_GROUPS:
                for retry in (0, 1):
                    yield ['keylog', role, suite, group, retry]
        for alg in ref.ALL_SIGALGS:
            for kind in pki.KEY_KINDS:
                yield ['sigalg', role, alg, kind]
        for host in (pki.HOST, 'SERVER.example', 'other.example', '192.0.2.1', '2001:db8::1',
                     '192.0.2.2', 'server.example.', None):
            yield ['host', role, host]
    for tickets in range(5):
        for chunk in (None, 1, 50):
            yield ['tickets', tickets, chunk]
    for mfl in (512, 1024, 2048, 4096):
        for size in (0, 1, mfl - 1, mfl, mfl + 1, 20000):
            yield ['mfl', mfl, size]


def group_plan(role, group, retry):
    """ (groups of siotls, group of OpenSSL) """
    other = ref.X25519 if group != ref.X25519 else ref.P256
    if role == 'client':
        return ([other, group] if retry else [group]), group
    if retry:           # OpenSSL supports all, shares X25519 only
        return [group], None
    return [other, group], group


def run(case, obs):
    kind, *rest = case
    what = ' '.join(map(str, case))
    outcome = kind
    if kind == 'kind':
        role, suite, key, depth = rest
        link = basic(what, role, [suite], [ref.X25519], None, key, depth, obs)
    elif kind == 'group':
        role, suite, group, retry = rest
        mine, peer = group_plan(role, group, retry)
        link = basic(what, role, [suite], mine, peer, 'p256', 0, obs)
        need(int(link.dut.conn.nconfig.key_exchange) == group, f'{what}: group')
    elif kind == 'product':
        role, suite, group, retry, key, chunk = rest
        mine, peer = group_plan(role, group, retry)
        basic(what, role, [suite], mine, peer, key, 0, obs, chunk=chunk)
    elif kind == 'ops':
        operations(what, *rest, obs)
    elif kind == 'alpn':
        role, mine, peer = rest
        link = Link(role, alpn=mine, peer_alpn=peer)
        server, client = (mine, peer) if role == 'server' else (peer, mine)
        common = [c for c in server if c in client]
        if common or not server or not client:
            link.handshake(what)
            want = ALPN[common[0]] if common else None
            need(link.ossl.obj.selected_alpn_protocol() == want, f'{what}: OpenSSL selected '
                 f'{link.ossl.obj.selected_alpn_protocol()} instead of {want}')
            got = link.dut.conn.nconfig.alpn
            need((got and got.value) == want, f'{what}: {got} instead of {want}')
            link.exchange(what)
        elif role == 'server':
            link.pump()
            need(link.dut.alert == 120 and not link.ossl.done, f'{what}: no common protocol')
            need(link.ossl.error, f'{what}: OpenSSL did not fail')
        else:               # this OpenSSL server goes on without protocol
            link.handshake(what)
            need(link.dut.conn.nconfig.alpn is None, f'{what}: protocol')
    elif kind == 'size':
        role, size, chunk = rest
        link = Link(role, chunk=chunk)
        link.handshake(what)
        data = bytes(i % 251 for i in range(size))
        for _ in range(2):
            link.exchange(what, data, data[::-1])
        link.close(what)
    elif kind == 'chunk':
        role, chunk = rest
        basic(what, role, [ref.AES256], [ref.P256], ref.P256, 'rsa', 1, obs, chunk=chunk)
    elif kind == 'close':
        role, order = rest
        link = Link(role)
        link.handshake(what)
        link.exchange(what)
        link.close(what, order)
    elif kind == 'keylog':
        keylog(what, *rest)
    elif kind == 'sigalg':
        role, alg, key = rest
        usable = alg in ref.algs_for(pki.key(key, 'leaf'))
        algs = impl.sigalgs([alg])
        if role == 'client':
            algs += impl.sigalgs([ref.EC256] if alg != ref.EC256 else [ref.ED448])
            if key in ('p256', 'ed448') and not usable:
                return
        link = Link(role, kind=key, signature_algorithms=algs)
        if usable:
            link.handshake(what)
            need(int(link.dut.conn.nconfig.signature_algorithm) == alg, f'{what}: algorithm')
            link.exchange(what)
        else:
            link.pump()
            need(not link.ossl.done or not link.dut.connected, f'{what}: connected')
            need(link.ossl.error, f'{what}: OpenSSL did not fail')
        outcome = f'{kind}/{usable}'
    elif kind == 'host':
        role, host = rest
        good = host in (pki.HOST, 'SERVER.example', '192.0.2.1', '2001:db8::1', None)
        if role == 'client':
            if host is None:
                return
            link = Link(role, host=host)
        else:
            link = Link(role, peer_host=host, host=host)
        link.pump()
        if host in ('server.example.',):     # whether the root dot matters is not decided
            return
        if good:
            link.handshake(what)
            link.exchange(what)
        else:
            need(not (link.dut.connected and link.ossl.done) or link.ossl.error
                 or link.dut.error, f'{what}: connected')
            # both ends know
            need(link.dut.error is not None and link.ossl.error, f'{what}: failure not reported')
            need(link.dut.alert is not None, f'{what}: {link.dut.error!r}')
            need(not link.dut.connected, f'{what}: connected')
        outcome = f'{kind}/{good}'
    elif kind == 'tickets':
        tickets, chunk = rest
        link = Link('client', tickets=tickets, chunk=chunk)
        link.handshake(what)
        link.exchange(what)
        link.close(what)
    elif kind == 'mfl':
        mfl, size = rest
        link = Link('client', max_fragment_length=impl.MaxFragmentLengthOctets(mfl))
        link.handshake(what)
        need(int(link.dut.conn.nconfig.max_fragment_length) == mfl, f'{what}: not negotiated')
        data = bytes(i % 251 for i in range(size))
        link.exchange(what, data, data)
        link.close(what)
    obs.state(*map(str, case))
    obs.step()
    obs.trace()
    obs.outcome(outcome)


def operations(what, role, ops, obs):
    link = Link(role)
    link.handshake(what)
    up = down = b''
    closed = set()
    for i, op in enumerate(ops):
        if op == 'pump':
            link.pump()
        elif op[1:] == 'close':
            if op[0] == 'd':
                link.dut.conn.close_sending_end()
            else:
                # once it has read everything
                link.pump()
                link.ossl.close()
            closed.add(op[0])
        else:
            data = bytes([i + 1]) * {'s': 5, 'l': 40000, '0': 0}[op[1]]
            if op[0] in closed:
                if op[0] == 'd':
                    try:
                        link.dut.send(data)
                    except impl.TLSError:
                        continue
                    need(False, f'{what}: data sent after close_notify')
                continue
            if op[0] == 'd':
                link.dut.send(data)
                down += data
            else:
                link.ossl.send(data)
                up += data
        obs.step()
    link.pump()
    need(link.dut.error is None, lambda: f'{what}: {link.dut.error!r}')
    need(link.ossl.error is None, lambda: f'{what}: OpenSSL: {link.ossl.error}')
    need(link.dut.read == up, f'{what}: received {len(link.dut.read)} bytes instead of {len(up)}')
    need(link.ossl.read == down, f'{what}: OpenSSL received {len(link.ossl.read)} bytes instead of '
                                 f'{len(down)}')
    need(link.dut.connected == ('o' not in closed), f'{what}: connected')
    need(not closed & {'d'} or link.ossl.eof, f'{what}: OpenSSL does not see the end')


def keylog(what, role, suite, group, retry):
    """ both logged the same secrets """
    from siotls import key_logger
    lines = []

    class Handler(logging.Handler):
        def emit(self, record):
            lines.append(record.getMessage())
    handler = Handler()
    key_logger.addHandler(handler)
    try:
        with tempfile.TemporaryDirectory() as d:
            path = os.path.join(d, 'keys')
            mine, peer = group_plan(role, group, retry)
            link = Link(role, suite=[suite], groups=mine, peer_group=peer, keylog=path,
                        log_keys=True)
            link.handshake(what)
            link.exchange(what)
            with open(path) as f:
                theirs = {line.strip().lower() for line in f if line[:1] not in '#\n'}
    finally:
        key_logger.removeHandler(handler)
    got = {line.strip().lower() for text in lines for line in text.splitlines()}
    names = ('client_handshake_traffic_secret', 'server_handshake_traffic_secret',
             'client_traffic_secret_0', 'server_traffic_secret_0')
    for name in names:
        a = [x for x in got if x.startswith(name + ' ')]
        b = [x for x in theirs if x.startswith(name + ' ')]
        need(len(b) == 1, f'harness: {theirs}')
        need(a == b, f'{what}: {name} differs from the one of OpenSSL')

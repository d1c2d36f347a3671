"""
C31: the commands.  ``siotls.__main__.main()`` is run with its options over sockets of the check:
a client against every kind of server, a server against every sequence of up to 2 (thorough: 3)
clients.
"""
import builtins
import contextlib
import datetime
import functools
import importlib
import io
import itertools
import logging
import os
import platform
import re
import shutil
import socket
import ssl     # noqa: F401    a subclass of the real socket
import sys
import tempfile
import urllib.request       # noqa: F401
import warnings

from cryptography.hazmat.primitives.serialization import Encoding, NoEncryption, PrivateFormat

import siotls
from .. import pki, ref
from ..engine import need

PROP = 'C31'
CHUNK = 8
TIMEOUT = 120
BUNDLE = '/etc/ssl/certs/ca-certificates.crt'       # of the system the check pretends to be
IP = '192.0.2.1'
DAY = pki.DAY
ASSUMPTIONS = [
    'The sockets are stand-ins with the semantics of blocking sockets. The system is a Debian whose '
    'only authority is the one of the check.']
real_open = builtins.open
for name in ('simple_client', 'simple_server'):     # with the real sockets
    with contextlib.suppress(ImportError):
        importlib.import_module('siotls.examples.' + name)
command = importlib.import_module('siotls.__main__')


# ------------------------------------------------------------------ sockets
PROBLEMS = []       # the commands catch exceptions


def must(condition, message):
    if not condition:
        PROBLEMS.append(message)
        need(condition, message)


class Sock:
    """ A connected socket. ``peer``: see below. """
    def __init__(self, peer):
        self.peer, self.inbox, self.closed, self.calls = peer, bytearray(), False, 0
        self.timeout = None
        self.buffered = b''

    def recv(self, n, flags=0):
        must(not self.closed, 'reads from a closed socket')
        must(n > 0, 'reads nothing')
        self.calls += 1
        must(self.calls < 5000, 'spins')
        if not self.inbox:
            try:
                self.inbox += self.peer.next()          # raises how it ends
            except TimeoutError:
                must(self.timeout is not None, 'waits forever')
                raise
        chunk = min(n, self.peer.chunk or n)
        out = bytes(self.inbox[:chunk])
        del self.inbox[:chunk]
        return out

    def recv_into(self, buffer, nbytes=0, flags=0):
        data = self.recv(nbytes or len(buffer), flags)
        buffer[:len(data)] = data
        return len(data)

    def sendall(self, data, flags=0):
        must(not self.closed, 'writes to a closed socket')
        try:
            self.peer.take(bytes(data))
        except ref.RefError as exc:
            must(False, f'sends what it must not: {exc}')

    def send(self, data, flags=0):
        self.sendall(data)
        return len(data)

    def settimeout(self, value):
        self.timeout = value

    def gettimeout(self):
        return self.timeout

    def setblocking(self, flag):
        self.timeout = None if flag else 0

    def setsockopt(self, *args):
        pass

    def shutdown(self, how):
        pass

    def fileno(self):
        return -1 if self.closed else 1000

    def getpeername(self):
        return ('192.0.2.7', 40000)

    def getsockname(self):
        return ('127.0.0.1', 8446)

    def close(self):
        self.closed = True

    def detach(self):
        self.closed = True
        return -1

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()


class Listener(Sock):
    def __init__(self, net):
        super().__init__(None)
        self.net, self.bound, self.listening = net, None, False

    def bind(self, address):
        if self.net.busy:
            raise OSError(98, 'Address already in use')
        self.bound = address

    def listen(self, backlog=1):
        must(self.bound is not None, 'listens nowhere')
        self.listening = True

    def accept(self):
        must(self.listening and not self.closed, 'accepts without listening')
        for sock in self.net.accepted:
            must(sock.closed, 'the socket of an earlier client is still open')
        if not self.net.clients:
            raise KeyboardInterrupt
        sock = Sock(self.net.clients.pop(0))
        self.net.accepted.append(sock)
        return sock, ('192.0.2.7', 40000 + len(self.net.accepted))

    def connect(self, address):
        raise AssertionError('harness: connect is not simulated')


class Net:
    """ Replaces the entry points of the socket module. """
    def __init__(self, clients=(), server=None, busy=False):
        self.clients, self.server, self.busy = list(clients), server, busy
        self.accepted, self.listeners, self.connected = [], [], []

    def socket(self, *args, **kw):
        must(self.server is None, 'a client that listens')
        self.listeners.append(Listener(self))
        return self.listeners[-1]

    def create_server(self, address, **kw):
        listener = self.socket()
        listener.bind(address)
        listener.listen()
        return listener

    def create_connection(self, address, timeout=None, *args, **kw):
        must(self.server is not None, 'a server that connects')
        self.connected.append(Sock(self.server))
        self.connected[-1].address, self.connected[-1].timeout = address, timeout
        if self.server.how == 'refused':
            self.connected[-1].closed = True
            raise ConnectionRefusedError(111, 'Connection refused')
        return self.connected[-1]

    @contextlib.contextmanager
    def installed(self):
        saved = socket.socket, socket.create_server, socket.create_connection
        socket.socket, socket.create_server, socket.create_connection = \
            self.socket, self.create_server, self.create_connection
        try:
            yield
        finally:
            socket.socket, socket.create_server, socket.create_connection = saved


# ------------------------------------------------------------------ running the command
class Ran:
    code = out = err = None


@contextlib.contextmanager
def scratch():
    path = tempfile.mkdtemp(prefix='c31-')
    try:
        yield path
    finally:
        shutil.rmtree(path)


def run_command(args, net, path):
    """ main() with those arguments, as the only thing its process does """
    bundle = os.path.join(path, 'bundle.pem')
    with real_open(bundle, 'wb') as file:
        file.write(pki.root().cert.public_bytes(Encoding.PEM))

    def redirected(file, *a, **kw):
        if not isinstance(file, int) and os.fspath(file) == BUNDLE:
            file = bundle
        return real_open(file, *a, **kw)
    loggers = [logging.getLogger(), logging.getLogger('siotls'), siotls.key_logger,
               logging.getLogger('py.warnings')]
    saved = [(x, x.level, x.handlers[:], x.propagate, x.filters[:]) for x in loggers]
    saved_sys = sys.argv, sys.stdout, sys.stderr, builtins.open, io.open
    saved_platform = platform.system, platform.freedesktop_os_release
    ran = Ran()
    PROBLEMS.clear()
    out, err = (real_open(os.path.join(path, n), 'w+', encoding='utf-8') for n in ('out', 'err'))
    logging.getLogger().handlers[:] = []
    logging.getLogger('siotls').setLevel(logging.NOTSET)
    logging.getLogger('siotls').propagate = True
    sys.argv, sys.stdout, sys.stderr = ['siotls', *args], out, err
    builtins.open = io.open = redirected
    platform.system = lambda: 'Linux'
    platform.freedesktop_os_release = lambda: {'ID': 'debian', 'NAME': 'x', 'PRETTY_NAME': 'x'}
    try:
        with net.installed(), warnings.catch_warnings():
            try:
                ran.code = command.main()
            except SystemExit as exc:
                ran.code = exc.code
            except KeyboardInterrupt:
                ran.code = 'interrupted'
    finally:
        sys.argv, sys.stdout, sys.stderr, builtins.open, io.open = saved_sys
        platform.system, platform.freedesktop_os_release = saved_platform
        logging.captureWarnings(False)
        for log, level, handlers, propagate, filters in saved:
            for handler in log.handlers:
                if handler not in handlers:
                    handler.close()
            log.setLevel(level)
            log.handlers[:], log.propagate, log.filters[:] = handlers, propagate, filters
        ran.out, ran.err = (f.seek(0) and '' or f.read() for f in (out, err))
        out.close()
        err.close()
    need(not PROBLEMS, lambda: f'{args}: {PROBLEMS[0]}')
    return ran


KEYLOG = re.compile(r'(?m)^([A-Z0-9_]+) ([0-9a-f]{64}) ([0-9a-f]{64,96})$')


def check_keylog(where, ran, path, sessions, what, required):
    """ sessions: [(client random, schedule, complete)] """
    text = ''
    file = os.path.join(path, 'keys')
    need(os.path.exists(file) == (where == 'file'), f'{what}: key log file')
    if where == 'file':
        with real_open(file) as f:
            text = f.read()
        need(not KEYLOG.search(ran.err), f'{what}: keys on stderr')
    else:
        text = ran.err
    lines = set(KEYLOG.findall(text))
    want = set()
    for random, sched, complete in sessions if where else ():
        names = {'CLIENT_HANDSHAKE_TRAFFIC_SECRET': sched.c_hs,
                 'SERVER_HANDSHAKE_TRAFFIC_SECRET': sched.s_hs}
        if complete:
            names |= {'CLIENT_TRAFFIC_SECRET_0': sched.c_ap, 'SERVER_TRAFFIC_SECRET_0': sched.s_ap}
        want |= {(name, random.hex(), secret.hex()) for name, secret in names.items()}
    need(want <= lines or not required, lambda: f'{what}: keys {sorted(n for n, _, _ in want - lines)} not logged')
    need(where or not lines, f'{what}: keys logged, nobody asked')
    need(not KEYLOG.search(ran.out), f'{what}: keys on stdout')


# ------------------------------------------------------------------ the client
KEY = 'p256'
CERTS = ['good', 'other name', 'untrusted', 'expired', 'future', 'self signed', 'client only',
         'forged', 'other key']
HOW = ['response', 'two records', 'then close_notify', 'slow', 'not ascii', 'close_notify', 'eof',
       'reset', 'timeout', 'alert', 'bad record',
       # before the end of the handshake
       'refused', 'eof at once', 'reset at once', 'timeout at once', 'alert at once', 'garbage',
       'no tls13', 'bad verify', 'bad finished', 'eof in flight', 'retry']
BEFORE = HOW[HOW.index('refused'):HOW.index('retry')]
BODY = b'HTTP/1.1 200 OK\r\nContent-Length: 25\r\n\r\nSomething to be read aloud'


@functools.cache
def certificate(which, host):
    key = pki.key(KEY, 'leaf')
    san = dict(dns=(), ips=(host,)) if host in (IP, '127.0.0.1') else dict(dns=(host,))
    kw = dict(leaf_key=key, **san)
    if which == 'other name':
        kw |= dict(dns=('other.example',), ips=('192.0.2.2',))
    if which == 'expired':
        kw |= dict(not_before=pki.NOW - 5 * DAY, not_after=pki.NOW - DAY)
    if which == 'future':
        kw |= dict(not_before=pki.NOW + DAY, not_after=pki.NOW + 5 * DAY)
    if which == 'client only':
        kw |= dict(eku=(pki.EKU_CLIENT,))
    if which == 'forged':
        kw |= dict(tamper_key=pki.key(KEY, 'other'))
    if which == 'other key':
        kw |= dict(leaf_key=pki.key(KEY, 'other'))
    if which == 'self signed':
        return key, [pki.CA(host, private_key=key, ca=False).cert]
    ca = pki.CA('Root', private_key=pki.key(KEY, 'impostor')) if which == 'untrusted' \
        else pki.root()
    return key, [ca.issue(**kw)]


class Server:
    """ what the client is connected to """
    chunk = None

    def __init__(self, how, which, host):
        self.how = how
        self.key, self.chain = certificate(which, host)
        self.ref = ref.RefServer(self.key, self.chain, group=ref.P256 if how == 'retry' else None)
        self.proved = which != 'other key'
        if how == 'slow':
            self.chunk = 7
        self.answered = self.flight = self.retried = False

    def take(self, data):
        if self.how == 'reset' and self.flight and self.ref.client_finished:
            raise ConnectionResetError('reset')
        self.ref.feed(data)

    def end(self):
        if 'reset' in self.how:
            raise ConnectionResetError('reset')
        if 'timeout' in self.how:
            raise TimeoutError('timed out')
        return b''

    def next(self):
        peer, how = self.ref, self.how
        must(peer.ch, 'waits without a hello')
        if how in ('eof at once', 'reset at once', 'timeout at once'):
            return self.end()
        if not self.flight:
            if how == 'retry' and not self.retried:
                self.retried = True
                return peer.hrr(ref.P256)
            self.flight = True
            if how == 'alert at once':
                return peer.send_alert(ref.ALERTS['handshake_failure'])
            if how == 'garbage':
                return b'HTTP/1.1 400 Bad Request\r\n\r\n'
            if how == 'no tls13':
                return peer.send_hs(ref.hs(ref.SERVER_HELLO, ref.server_hello(
                    bytes(32), peer.ch['suites'][0], [], sid=peer.ch['sid'])[4:]))
            if how in ('bad verify', 'bad finished'):
                out = peer.sh() + peer.send_hs(peer.ee_raw()) + peer.send_hs(peer.cert_raw())
                out += peer.send_hs(peer.cv_raw(
                    key=pki.key(KEY, 'third') if how == 'bad verify' else None))
                return out + peer.fin(raw=ref.hs(ref.FINISHED, bytes(peer.sched.hlen))
                                      if how == 'bad finished' else None)
            data = peer.flight()
            return data[:-10] if how == 'eof in flight' else data
        if not peer.client_finished or self.answered:
            return self.end()
        self.answered = True
        must(peer.app, 'waits for an answer without a request')
        out = b''
        if how in ('response', 'slow', 'retry', 'then close_notify'):
            out = peer.send(ref.APPDATA, BODY)
        elif how == 'two records':
            out = peer.send(ref.APPDATA, BODY[:40]) + peer.send(ref.APPDATA, BODY[40:])
        elif how == 'not ascii':
            out = peer.send(ref.APPDATA, BODY + b'\xff\xfe \xe2\x82\xac')
        elif how == 'bad record':
            return ref.rec(ref.APPDATA, bytes(60))
        elif how == 'alert':
            return peer.send_alert(ref.ALERTS['internal_error'])
        if how in ('then close_notify', 'close_notify'):
            out += peer.send_alert(0, level=1)
        return out or self.end()


def client_case(case, obs):
    kind, which, how, host, insecure, keylog = case
    what = f'client of {host}, {which} certificate, {how}' \
        f'{", insecure" if insecure else ""}{", key log " + keylog if keylog else ""}'
    obs.state(*map(str, case))
    obs.step()
    server = Server(how, which, host)
    net = Net(server=server)
    with scratch() as path:
        args = ['client', '--host', host, '--port', '1234']
        if insecure:
            args.append('--insecure')
        if keylog:
            args += ['--keylogfile', os.path.join(path, 'keys') if keylog == 'file' else '-']
        ran = run_command(args, net, path)
        peer = server.ref
        # who it spoke to
        need(all(s.closed for s in net.connected), f'{what}: the socket is left open')
        need([s.address for s in net.connected] == [(host, 1234)],
             lambda: f'{what}: connects elsewhere, {ran.err[-800:]}')
        authentic = (which == 'good' or insecure) and server.proved
        need(authentic or not peer.app, f'{what}: {peer.app!r} sent to an impostor')
        need(authentic or not peer.client_finished, f'{what}: connected to an impostor')
        done = authentic and how not in BEFORE
        need(done == peer.client_finished, f'{what}: handshake {peer.client_finished}, {ran.err}')
        if done and how != 'reset':
            need(peer.app.startswith(b'GET / HTTP/1.1\r\n') and peer.app.endswith(b'\r\n\r\n')
                 and b'\r\nHost: ' + host.encode() + b'\r\n' in peer.app,
                 f'{what}: request {peer.app!r}')
        told = BODY.decode() in ran.out.replace('\n\n', '\r\n\r\n').replace('\r\r', '\r') \
            or 'Something to be' in ran.out
        answered = done and how in ('response', 'slow', 'retry', 'then close_notify', 'not ascii',
                                    'two records')
        if answered:
            need(told or how in ('two records', 'slow'), f'{what}: the response is not shown')
            need(ran.code in (0, None), f'{what}: exits with {ran.code}')
            need(peer.alerts[-1:] == [(1, 0)], f'{what}: not closed: {peer.alerts}')
        elif done and how in ('eof', 'close_notify'):
            pass
        else:
            need(ran.code not in (0, None), f'{what}: exits with success')
        need(answered or not told, f'{what}: shows what it did not receive')
        if not done and peer.ch and how not in ('eof at once', 'reset at once', 'timeout at once',
                                                'alert at once', 'eof in flight'):
            need(not peer.app, f'{what}: sends before the end')
        sched = peer.sched
        sessions = [(peer.ch['random'], sched, peer.client_finished)] \
            if sched and peer.sent_finished and authentic and how not in BEFORE else []
        check_keylog(keylog, ran, path, sessions, what, kind.startswith('keylog'))
    obs.outcome(f'client {"done" if done else "failed"} {ran.code}')
    obs.trace()


# ------------------------------------------------------------------ the server
REQUESTS = {
    'get': (b'GET / HTTP/1.1\r\nHost: x\r\n\r\n', 200),
    'get http/1.0': (b'GET / HTTP/1.0\r\n\r\n', 200),
    'elsewhere': (b'GET /etc/passwd HTTP/1.1\r\n\r\n', 404),
    'up': (b'GET /../.. HTTP/1.1\r\n\r\n', 404),
    'head': (b'HEAD / HTTP/1.1\r\n\r\n', 405),
    'get lower': (b'get / HTTP/1.1\r\n\r\n', 405),
    'post': (b'POST / HTTP/1.1\r\n\r\nabc', 405),
    'one word': (b'GET\r\n\r\n', 400),
    'four words': (b'GET / HTTP/1.1 x\r\n\r\n', 400),
    'blank': (b'\r\n', 400),
    'not utf-8': (b'\xff\xfe\xfd', 400),
    'large': (b'GET / HTTP/1.1\r\nX: ' + b'x' * 16000 + b'\r\n\r\n', 200),
}
CLIENTS = [*REQUESTS, 'slow', 'retry', 'gone', 'gone for good', 'close_notify', 'mute', 'eof after',
           'alert', 'bad record',
           'nothing', 'timeout', 'reset', 'http', 'garbage', 'cut hello', 'tls12', 'no suite',
           'no alpn', 'bad finished', 'eof in handshake', 'timeout in handshake', 'huge record']


class Client:
    """ who connects to the server """
    chunk = None

    def __init__(self, how):
        self.how = how
        self.code = REQUESTS[how][1] if how in REQUESTS else \
            200 if how in ('slow', 'retry') else None
        self.ref = ref.RefClient(alpn=[b'imap'] if how == 'no alpn' else [b'http/1.1', b'h2'],
                                 suites=[0x1304] if how == 'no suite' else
                                 (ref.CHACHA, ref.AES256, ref.AES128),
                                 versions=(0x0303,) if how == 'tls12' else (0x0304,))
        self.step = 0
        if how == 'slow':
            self.chunk = 11
        self.plain = how in ('nothing', 'timeout', 'reset', 'http', 'garbage', 'cut hello',
                             'huge record')

    def take(self, data):
        if self.how in ('gone', 'gone for good') and self.step >= 2:
            raise BrokenPipeError(32, 'Broken pipe')
        if self.how == 'reset':
            raise ConnectionResetError(104, 'reset')
        self.ref.feed(data)

    def end(self):
        if 'timeout' in self.how or self.how == 'mute':
            raise TimeoutError('timed out')
        if self.how in ('reset', 'gone for good'):
            raise ConnectionResetError(104, 'reset')
        return b''

    def next(self):
        how, peer = self.how, self.ref
        self.step += 1
        if self.step == 1:
            if how in ('nothing', 'timeout', 'reset'):
                return self.end()
            if how == 'http':
                return b'GET / HTTP/1.1\r\nHost: server.example\r\n\r\n'
            if how == 'garbage':
                return bytes(range(256))
            if how == 'huge record':
                return b'\x16\3\1\xff\xff' + bytes(66000)
            if how == 'retry':
                return peer.hello(share_groups=[ref.P256])
            hello = peer.hello()
            return hello[:50] if how == 'cut hello' else hello
        if how in ('cut hello', 'http', 'garbage', 'huge record'):
            return self.end()
        if self.step == 2:
            if how == 'retry' and peer.hrr:
                self.step = 1
                self.how = 'retried'
                return ref.CCS_RECORD + peer.hello(share_groups=[ref.X25519])
            if not peer.server_finished or how in ('eof in handshake', 'timeout in handshake'):
                return self.end()
            if how == 'bad finished':
                return ref.CCS_RECORD + peer.finished(
                    raw=ref.hs(ref.FINISHED, bytes(peer.sched.hlen)))
            out = ref.CCS_RECORD + peer.finished()
            if how == 'slow':
                return out + peer.send(ref.APPDATA, REQUESTS['get'][0])
            return out
        if self.step == 3 and how != 'slow':
            if how in REQUESTS:
                return peer.send(ref.APPDATA, REQUESTS[how][0])
            if how == 'retried':
                return peer.send(ref.APPDATA, REQUESTS['get'][0])
            if how in ('gone', 'gone for good'):
                return peer.send(ref.APPDATA, REQUESTS['get'][0])
            if how == 'close_notify':
                return peer.send_alert(0, level=1)
            if how == 'alert':
                return peer.send_alert(ref.ALERTS['internal_error'])
            if how == 'bad record':
                return ref.rec(ref.APPDATA, bytes(60))
        return self.end()


def server_case(case, obs):
    kind, hows, keylog, silent = case
    what = f'server of {hows}{", key log " + keylog if keylog else ""}'
    obs.state(*map(str, case))
    obs.step(len(hows))
    clients = [Client(how) for how in hows]
    net = Net(clients=clients)
    with scratch() as path:
        args = ['server', '--host', '127.0.0.1', '--port', '1234', *pem_files(path)]
        if keylog:
            args += ['--keylogfile', os.path.join(path, 'keys') if keylog == 'file' else '-']
        if silent:
            args.append('-' + silent)
        ran = run_command(args, net, path)
        need([s.bound for s in net.listeners] == [('127.0.0.1', 1234)], f'{what}: listens elsewhere')
        need(len(net.accepted) == len(hows), f'{what}: stops after {len(net.accepted)} clients: '
             f'{ran.err[-500:]}')
        need(all(s.closed for s in net.accepted + net.listeners), f'{what}: a socket is left open')
        need(ran.code in (0, None, 'interrupted'), f'{what}: exits with {ran.code}')
        sessions = []
        for how, client in zip(hows, clients):
            check_client(f'{what}, {how}', how, client)
            if client.ref.sched and client.ref.server_finished and client.code:
                sessions.append((client.ref.random, client.ref.sched, True))
        check_keylog(keylog, ran, path, sessions, what, kind.startswith('keylog'))
        randoms = [c.ref.server_random for c in clients if hasattr(c.ref, 'server_random')]
        need(len(set(randoms)) == len(randoms), f'{what}: the same random twice')
    obs.outcome(f'server {len(hows)}')
    obs.trace()


def check_client(what, how, client):
    peer = client.ref
    if client.code is None:
        need(not peer.app or how in ('eof after', 'close_notify'), f'{what}: gets {peer.app!r}')
        if how in ('no suite', 'no alpn', 'tls12', 'bad finished', 'bad record'):
            need(len(peer.alerts) == 1 and peer.alerts[0][0] == 2, f'{what}: alerts {peer.alerts}')
        return
    need(peer.server_finished, f'{what}: no handshake')
    head, _, body = peer.app.partition(b'\r\n\r\n')
    lines = head.decode().split('\r\n')
    need(re.fullmatch(rf'HTTP/1\.[01] {client.code} .+', lines[0]), f'{what}: {lines[0]}')
    headers = dict(line.split(': ', 1) for line in lines[1:])
    need(len(headers) == len(lines) - 1, f'{what}: a header twice')
    need(headers.get('Content-Length') == str(len(body)), f'{what}: length of the body')
    need(headers.get('Connection') == 'close', f'{what}: Connection header')
    now = datetime.datetime.now(datetime.UTC)
    date = datetime.datetime.strptime(headers['Date'], '%a, %d %b %Y %H:%M:%S GMT') \
        .replace(tzinfo=datetime.UTC)
    need(abs(now - date) < datetime.timedelta(seconds=60), f'{what}: Date {headers["Date"]}')
    need((body == b'Hello from siotls\n') if client.code == 200 else not body, f'{what}: {body!r}')
    need(peer.alerts == [(1, 0)] and peer.events[-1][0] == ref.ALERT,
         f'{what}: not closed: {peer.alerts}')
    need(peer.ee.get(ref.X_ALPN) == ref.x_alpn([b'http/1.1'])[1], f'{what}: protocol')


def pem_files(path, mismatch=False):
    key, chain = certificate('good', 'server.example')
    if mismatch:
        key = pki.key(KEY, 'other')
    cert_path, key_path = os.path.join(path, 'cert.pem'), os.path.join(path, 'key.pem')
    with real_open(cert_path, 'wb') as file:
        for cert in [*chain, pki.root().cert]:
            file.write(cert.public_bytes(Encoding.PEM))
    with real_open(key_path, 'wb') as file:
        file.write(key.private_bytes(Encoding.PEM, PrivateFormat.PKCS8, NoEncryption()))
    return ['--tlscert', cert_path, '--tlskey', key_path]


# ------------------------------------------------------------------ the options
REFUSED = ['no files', 'no key', 'no cert', 'cert missing', 'key missing', 'garbled cert',
           'garbled key', 'swapped', 'busy', 'no side', 'other side', 'bad port']


def option_case(case, obs):
    _, how = case
    obs.state(*case)
    obs.step()
    net = Net(clients=[Client('get')], busy=how == 'busy')
    with scratch() as path:
        files = pem_files(path, mismatch=how == 'other key')
        cert, key = files[1], files[3]
        if how == 'no files':
            files = []
        elif how == 'no key':
            files = files[:2]
        elif how == 'no cert':
            files = files[2:]
        elif how == 'cert missing':
            files[1] += 'x'
        elif how == 'key missing':
            files[3] += 'x'
        elif how == 'swapped':
            files[1], files[3] = key, cert
        elif how.startswith('garbled'):
            with real_open(cert if how.endswith('cert') else key, 'wb') as file:
                file.write(b'-----BEGIN CERTIFICATE-----\nnothing\n')
        args = ['server', '--port', '1234', *files]
        if how == 'no side':
            args = args[1:]
        if how == 'other side':
            args[0] = 'proxy'
        if how == 'bad port':
            args[2] = 'http'
        ran = run_command(args, net, path)
    need(ran.code not in (0, None), f'{how}: exits with success')
    need(not net.accepted, f'{how}: serves')
    need(ran.err, f'{how}: fails without a word')
    need(all(s.closed for s in net.listeners) or how == 'busy', f'{how}: still listens')
    obs.outcome('refused')
    obs.trace()


# ------------------------------------------------------------------ cases
def cases(tier):
    for which, how, host in itertools.product(CERTS, HOW, ('server.example', IP, 'localhost', '127.0.0.1')):
        for insecure in (False, True):
            yield ['client', which, how, host, insecure, '']
            if which in ('good', 'untrusted') and host == 'server.example':
                yield ['client', which, how, host, insecure, 'file']
                yield ['client', which, how, host, insecure, '-']
    # what the key log holds
    for where in ('file', '-'):
        yield ['keylog client', 'good', 'response', 'server.example', False, where]
        yield ['keylog server', ['get', 'retry'], where, '']
    for how in REFUSED:
        yield ['option', how]
    for how in CLIENTS:
        for keylog in ('', 'file', '-'):
            for flag in ('', 's', 'v', 'sss', 'vvv'):
                yield ['server', [how], keylog, flag]
    for n in (2,) if tier == 'quick' else (2, 3):
        for hows in itertools.product(CLIENTS, repeat=n):
            yield ['server', list(hows), 'file' if n == 2 else '', '']


def run(case, obs):
    kind = case[0].split()[-1]
    {'client': client_case, 'server': server_case, 'option': option_case}[kind](case, obs)

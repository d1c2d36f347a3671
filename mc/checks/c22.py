"""
C22: the socket wrapper.  The wrapper runs a program (handshake, reads, writes, close) over a
scripted blocking socket behind which the puppet of the reference sits; every way the socket may
cut, end or fail is enumerated.
"""
from .. import impl, pki, ref
from ..engine import need

PROP = 'C22'
CHUNK = 20
ASSUMPTIONS = [
    'The socket is a stand-in with the semantics of a blocking socket: recv returns between 1 and '
    'n bytes, b"" forever after the end of the stream, or raises OSError; sendall sends everything '
    'or raises; send may send less.',
]


class Blocked(BaseException):
    pass


class Peer:
    """ The other side of the socket. ``plan``: what it sends once it can. """
    def __init__(self, role, plan, early):
        self.role, self.plan, self.early = role, list(plan), early
        self.sent = bytearray()         # everything it sent, in order
        self.readable = []              # (offset at which it is complete, data) of application data
        self.dead_at = None             # offset after which the connection is over
        self.hs_end = None              # offset at which its handshake is complete
        if role == 'client':            # the role of the connection under test
            key, chain = pki.leaf('ed25519')
            self.ref = ref.RefServer(key, chain, suite=ref.CHACHA, group=ref.X25519)
        else:
            self.ref = ref.RefClient(suites=[ref.CHACHA], groups=[ref.X25519])
            self.sent += self.ref.hello()
        self.ready = self.flight_sent = False

    @property
    def finished(self):
        """ nothing more will come """
        return self.ready and not self.plan

    def feed(self, data):
        self.ref.feed(data)
        if self.role == 'client':
            if self.ref.ch and not self.flight_sent:
                self.flight_sent = True
                self.sent += self.ref.flight()
                self.hs_end = len(self.sent)
                self.ready = bool(self.early)
            if self.ref.client_finished:
                self.ready = True
        elif self.ref.server_finished and not self.ready:
            self.sent += ref.CCS_RECORD + self.ref.finished()
            self.hs_end = len(self.sent)
            self.ready = True
        self.advance()

    def advance(self):
        while self.ready and self.plan:
            item = self.plan[0]
            if item[0] == 'await' and len(self.ref.app) < item[1]:
                return
            self.plan.pop(0)
            if item[0] == 'data':
                data = pattern(item[1], len(self.sent))
                self.sent += self.ref.send(ref.APPDATA, data)
                if self.dead_at is None:
                    self.readable.append((len(self.sent), data))
            elif item[0] == 'alert':
                self.sent += self.ref.send_alert(item[1])
            elif item[0] == 'corrupt':
                raw = bytearray(self.ref.send(ref.APPDATA, b'never seen'))
                raw[-1] ^= 1
                self.sent += raw
            elif item[0] == 'ticket' and self.role == 'client':
                self.sent += self.ref.send(ref.HANDSHAKE, ref.hs(4, ref.u16(0) * 4 + ref.v8(b'')
                                                                 + ref.v16(b't') + ref.v16(b'')))
            if item[0] in ('corrupt', 'alert') and item[1:] != (90,) and self.dead_at is None:
                self.dead_at = len(self.sent)

    def visible(self, offset):
        """ what the application can have read when that much was received """
        return b''.join(d for end, d in self.readable if end <= offset)


def pattern(n, seed):
    return bytes((i * 7 + seed) % 251 for i in range(n))


class Socket:
    def __init__(self, conn, peer, script):
        self.conn, self.peer = conn, peer
        self.chunk = script.get('chunk')
        self.cuts = sorted(script.get('cuts', ()))
        self.eof = script.get('eof')
        self.error = script.get('error')            # offset
        self.again = script.get('again', False)     # the error happens once
        self.send_error = script.get('send_error')  # which call
        self.offset = self.calls = self.sends = self.ends = 0
        self.broken = self.dead = False
        self.gone = set()           # what close and shutdown made impossible
        self.seen = lambda: b''

    # -- receiving
    def available(self):
        limit = len(self.peer.sent)
        for stop in (self.eof, self.error if not self.broken or not self.again else None):
            if stop is not None:
                limit = min(limit, stop)
        for cut in self.cuts:
            if cut > self.offset:
                limit = min(limit, cut)
                break
        return limit - self.offset

    def recv(self, n, flags=0):
        need(isinstance(n, int) and n > 0, 'reads nothing from the socket')
        pending = bytes(self.conn.data_to_send())
        need(not pending, lambda: f'waits while {len(pending)} bytes are to be sent')
        unread = self.peer.visible(self.offset)
        need(self.seen() is None or unread == self.seen(), 'waits while data was received')
        self.calls += 1
        need(self.calls < 100000, 'spins')
        if 'closed' in self.gone:
            raise OSError(9, 'Bad file descriptor')
        if 'recv' in self.gone:
            self.ends += 1
            need(self.ends < 20, 'spins at the end of the stream')
            return b''
        n = min(n, self.available(), self.chunk or n)
        if n > 0:
            out = bytes(self.peer.sent[self.offset:self.offset + n])
            self.offset += n
            return out
        if self.error is not None and self.offset >= self.error \
                and not (self.broken and self.again):
            self.broken = True
            raise TimeoutError('timed out') if self.again else ConnectionResetError('reset')
        if self.dead:
            raise ConnectionResetError('reset')
        if (self.eof is not None and self.offset >= self.eof) or self.peer.finished:
            self.ends += 1
            need(self.ends < 20, 'spins at the end of the stream')
            return b''
        raise Blocked

    def recv_into(self, buffer, nbytes=0, flags=0):
        data = self.recv(nbytes or len(buffer), flags)
        buffer[:len(data)] = data
        return len(data)

    # -- sending
    def sendall(self, data, flags=0):
        self.sends += 1
        if self.sends - 1 == self.send_error:
            self.dead = True
        if 'closed' in self.gone:
            raise OSError(9, 'Bad file descriptor')
        if self.dead or 'send' in self.gone:
            raise BrokenPipeError('broken pipe')
        self.peer.feed(bytes(data))

    def send(self, data, flags=0):
        data = bytes(data)[:self.chunk or 7]
        self.sendall(data)
        return len(data)

    def __getattr__(self, name):
        raise AssertionError(f'harness: socket.{name} is not simulated')

    def shutdown(self, how):
        self.gone |= {0: {'recv'}, 1: {'send'}, 2: {'recv', 'send'}}[int(how)]

    def close(self):
        self.gone = {'recv', 'send', 'closed'}

    def settimeout(self, value):
        pass

    def gettimeout(self):
        return None


class Run:
    def __init__(self, role, plan, program, script, early=False, mfl=None):
        kw = {'cipher_suites': impl.suites([ref.CHACHA]),
              'key_exchanges': impl.groups([ref.X25519])}
        if role == 'server':
            self.impl = impl.Impl.server('ed25519', **kw)
        else:
            self.impl = impl.Impl.client(**kw)
        self.conn = self.impl.conn
        self.peer = Peer(role, plan, early)
        self.sock = Socket(self.conn, self.peer, script)
        self.sock.seen = lambda: self.got if self.reading else None
        self.wrapped = self.conn.wrap(self.sock)
        self.role, self.script = role, script
        self.got = b''
        self.written = b''
        self.closed = False
        self.reading = False
        self.errors = []            # (operation, exception)
        self.what = f'{role} {plan} {program} {script} {"early" if early else ""}'
        for op in program:
            self.op(op)

    def handshake(self):
        """ what ``with`` does """
        self.wrapped.__enter__()

    def op(self, op, retry=False):
        name, *args = op
        try:
            if name == 'hs':
                self.handshake()
            elif name == 'read':
                self.read()
            elif name == 'readall':
                for _ in range(1000):
                    if not self.read():
                        break
                else:
                    need(False, f'{self.what}: reads forever')
                need(not self.conn.is_connected(), f'{self.what}: end of the stream, yet connected')
            elif name == 'write':
                data = pattern(args[0], 3)
                # what was written before is not lost even when this fails
                self.wrapped.write(data)
                self.written += data
            elif name == 'close':
                self.closed = True
                self.wrapped.close()
            elif name == 'exit':
                self.closed = True
                self.wrapped.__exit__(None, None, None)
        except Blocked:
            need(False, f'{self.what}: {op} blocks forever')
        except (AssertionError, RecursionError):
            raise
        except Exception as exc:
            from ..engine import Violation
            if isinstance(exc, Violation):
                raise Violation(f'{self.what}: {op}: {exc}') from exc
            self.errors.append((name, exc))
            if name in ('read', 'readall') and isinstance(exc, TimeoutError) and not retry:
                self.op(op, retry=True)

        if not self.sock.dead:
            pending = bytes(self.conn.data_to_send())
            need(not pending, lambda: f'{self.what}: {op} leaves {len(pending)} bytes to send')

    def read(self):
        self.reading = True
        try:
            data = bytes(self.wrapped.read())
        finally:
            self.reading = False
        self.got += data
        return data

    # -- verdicts
    def check_read(self, complete):
        expect = self.peer.visible(self.sock.offset)
        if complete:
            need(self.got == expect, lambda: f'{self.what}: read {len(self.got)} bytes out of the '
                                             f'{len(expect)} received ({self.errors})')
        else:
            need(expect.startswith(self.got), f'{self.what}: read something that was not sent')


# ---------------------------------------------------------------- scenarios
PLANS = {
    'one': [('data', 5), ('alert', 0)],
    'many': [('data', 5), ('data', 0), ('data', 300), ('ticket',), ('data', 1), ('alert', 90),
             ('data', 2), ('alert', 0)],
    'nothing': [('alert', 0)],
    'rude': [('data', 5)],                      # ends without close_notify
    'fatal': [('data', 5), ('alert', 80)],
    'corrupt': [('data', 5), ('corrupt',), ('data', 7), ('alert', 0)],
    'talk': [('await', 3), ('data', 4), ('await', 6), ('data', 5), ('alert', 0)],
    'after': [('data', 3), ('alert', 0), ('data', 9)],
    'big': [('data', 16384), ('data', 10), ('data', 16384), ('alert', 0)],
    'huge': [('data', 16384)] * 40 + [('data', 10), ('await', 700_000), ('alert', 0)],
}
PROGRAMS = {
    'reader': [('hs',), ('readall',), ('exit',)],
    'writer': [('hs',), ('write', 3), ('readall',), ('write', 2), ('exit',)],
    'talker': [('hs',), ('write', 3), ('read',), ('write', 3), ('readall',), ('close',)],
    'closer': [('hs',), ('close',), ('readall',)],
    'chunks': [('hs',), ('write', 0), ('write', 1), ('write', 20000), ('write', 16384),
               ('write', 40000), ('readall',), ('close',), ('close',)],
    'huge': [('hs',), ('write', 700_000), ('readall',), ('exit',)],
    'patient': [('hs',), ('write', 3), ('readall',), ('readall',), ('write', 3), ('readall',),
                ('readall',), ('exit',)],
}
HONEST = [('one', 'reader'), ('one', 'writer'), ('one', 'closer'), ('one', 'chunks'),
          ('many', 'reader'), ('many', 'writer'), ('many', 'closer'), ('nothing', 'reader'),
          ('nothing', 'chunks'), ('rude', 'reader'), ('rude', 'writer'), ('talk', 'talker'),
          ('after', 'reader'), ('after', 'closer'), ('after', 'writer'), ('big', 'reader'),
          ('big', 'chunks'), ('one', 'patient'), ('rude', 'patient')]
FAILING = [('fatal', 'reader'), ('corrupt', 'reader'), ('fatal', 'patient'),
           ('corrupt', 'patient')]


def length(role, plan):
    """ the bytes the peer sends in an undisturbed run """
    run = Run(role, PLANS[plan], PROGRAMS['talker' if plan == 'talk' else 'patient'], {})
    return len(run.peer.sent)


def cases(tier):
    thorough = tier == 'thorough'
    for role in ('client', 'server'):
        for plan, program in HONEST + FAILING:
            big = plan == 'big'
            for early in (0, 1):
                if early and (role == 'server' or plan == 'talk'):
                    continue
                for lo in range(0, 3500, 250):
                    kinds = ['cut', 'eof', 'timeout', 'reset']
                    if big:
                        kinds = ['edge'] if lo == 0 else []
                    for kind in kinds:
                        if not thorough and (kind != 'cut' or early) \
                                and (plan, program) not in QUICK_FAULTS:
                            continue
                        if not thorough and kind == 'cut' and lo > 0 and (plan, program) not in (
                                ('many', 'reader'), ('many', 'writer'), ('talk', 'talker')):
                            continue
                        yield ['point', role, plan, program, early, kind, lo, lo + 250]
                yield ['chunk', role, plan, program, early]
                if plan == 'one' and program == 'reader':
                    yield ['chunk', role, 'huge', 'huge', early]
                yield ['send', role, plan, program, early]


QUICK_FAULTS = [('many', 'patient'), ('one', 'patient'), ('corrupt', 'patient'), ('one', 'reader'),
                ('talk', 'talker')]
CHUNKS = [*range(1, 40), 64, 100, 255, 256, 257, 511, 512, 513, 1000, 1024, 1500, 4096, 16383, 16384,
          16389, 20000, None]


def honest(run, program):
    """ A run in which nothing happened to the socket. """
    need(not run.errors, lambda: f'{run.what}: {run.errors}')
    run.check_read(True)
    need(not run.peer.plan, f'{run.what}: stopped before the end')
    need(run.got == run.peer.visible(len(run.peer.sent)),
         lambda: f'{run.what}: only {len(run.got)} bytes were read')
    finish(run)


def finish(run):
    """ what must hold at the end of every run whose peer is alive """
    need(bytes(run.peer.ref.app) == run.written, f'{run.what}: the peer received '
         f'{len(run.peer.ref.app)} bytes instead of {len(run.written)}')
    if run.closed:
        need(run.peer.ref.alerts, f'{run.what}: no close_notify')
        need([a[1] for a in run.peer.ref.alerts] == [0], f'{run.what}: {run.peer.ref.alerts}')
    need(not run.conn.data_to_send(), f'{run.what}: data left to send')


def failing(run, plan):
    """ the peer sends a fatal alert or a corrupted record after some data """
    reads = [e for name, e in run.errors if name in ('read', 'readall')]
    alert = {'fatal': 80, 'corrupt': 20}[plan]
    first = run.errors[0] if run.errors else None
    need(first and first[0] in ('hs', 'readall', 'read', 'write')
         and getattr(first[1], 'description', None) == alert,
         lambda: f'{run.what}: failure not reported: {run.errors}')
    del reads
    if plan == 'corrupt':
        need([a[1] for a in run.peer.ref.alerts] == [20],
             lambda: f'{run.what}: alerts sent: {run.peer.ref.alerts}')
    else:
        need(not run.peer.ref.alerts, f'{run.what}: fatal alert answered')
    need(not run.conn.is_connected(), f'{run.what}: still connected')
    need(not run.conn.data_to_send(), f'{run.what}: data left to send')


def run(case, obs):
    kind, role, plan, program, early, *rest = case
    if kind == 'chunk':
        chunks = {'big': CHUNKS[-14:], 'huge': [1000, 4096, 16389, 20000, None]}.get(plan, CHUNKS)
        for chunk in chunks:
            r = Run(role, PLANS[plan], PROGRAMS[program], {'chunk': chunk}, early)
            verdict(r, plan, program)
            note(obs, case, r, chunk)
        return
    if kind == 'send':
        n = 0
        while True:
            r = Run(role, PLANS[plan], PROGRAMS[program], {'send_error': n}, early)
            if r.sock.sends <= n:
                return
            note(obs, case, r, n)
            need(any(isinstance(e, BrokenPipeError) for _, e in r.errors),
                 f'{r.what}: error of the socket not reported')
            r.check_read(False)
            n += 1
            need(n < 100, 'too many')
    base = Run(role, PLANS[plan], PROGRAMS[program], {}, early)
    total = len(base.peer.sent)
    kind, lo, hi = rest
    if kind == 'edge':
        points = [p + d for p, _ in base.peer.readable for d in (-17, -16, -1, 0, 1, 4, 5, 6)]
    else:
        points = range(lo, min(hi, total + 1))
    for p in points:
        if kind in ('cut', 'edge'):
            r = Run(role, PLANS[plan], PROGRAMS[program], {'cuts': [p]}, early)
            verdict(r, plan, program)
        elif kind == 'eof':
            r = Run(role, PLANS[plan], PROGRAMS[program], {'eof': p}, early)
            at_eof(r)
        else:
            again = kind == 'timeout'       # the operation is tried again
            r = Run(role, PLANS[plan], PROGRAMS[program], {'error': p, 'again': again}, early)
            at_error(r, p, again, plan)
        note(obs, case, r, p)


def note(obs, case, r, point):
    obs.step(r.sock.calls + r.sock.sends)
    obs.trace()
    obs.state(*case[:5], case[5:6], point)
    obs.outcome(f'{case[0]}/{case[2]}/' + ','.join(f'{n}:{type(e).__name__}' for n, e in r.errors))


def verdict(r, plan, program):
    if plan in ('fatal', 'corrupt'):
        r.check_read(program == 'patient')
        failing(r, plan)
    else:
        honest(r, program)


def at_eof(r):
    """ The stream ended somewhere, the connection can not hide it nor invent anything. """
    p = r.sock.eof
    hs_done = r.sock.offset >= handshake_length(r)
    r.check_read(not any(n in ('read', 'readall') for n, _ in r.errors))
    if not hs_done:
        need(not r.conn.is_connected(), f'{r.what}: connected')
        need(not r.got, f'{r.what}: data before the handshake is complete')
        need(not r.peer.ref.app, f'{r.what}: data sent before the handshake is complete')
        need(all(n in ('hs', 'write', 'read', 'readall', 'close', 'exit') for n, _ in r.errors), '')
    elif (r.peer.dead_at is None or p < r.peer.dead_at):
        need(not r.errors, lambda: f'{r.what}: {r.errors}')
        finish(r)
    need(not r.conn.data_to_send(), f'{r.what}: data left to send')


def handshake_length(r):
    """ the offset at which the peer's handshake is complete """
    return len(r.peer.sent) if r.peer.hs_end is None else r.peer.hs_end


def at_error(r, p, again, plan):
    os_errors = [n for n, e in r.errors if isinstance(e, OSError)]
    in_handshake = bool(os_errors) and os_errors[0] == 'hs'
    if r.sock.broken:
        need(os_errors, f'{r.what}: error of the socket not reported')
    if not again or in_handshake:
        if in_handshake:
            need(not r.got, f'{r.what}: data before the handshake is complete')
        # nothing that was received is lost
        r.check_read(not in_handshake and plan not in ('fatal', 'corrupt') and os_errors
                     and os_errors[0] in ('read', 'readall') and len(os_errors) > 1)
        return
    # once: trying again makes up for it
    r.check_read(plan not in ('fatal', 'corrupt'))
    if plan in ('fatal', 'corrupt'):
        need(not r.conn.is_connected(), f'{r.what}: still connected')
        return
    need(len(os_errors) == r.sock.broken and len(r.errors) == len(os_errors),
         lambda: f'{r.what}: {r.errors}')
    finish(r)

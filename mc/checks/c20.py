"""
C20: the certificate status cache.

seq   every sequence of operations up to a depth, against a non deterministic model of a bounded
      cache (the set of the states it may be in, filtered by what is observed)
conc  two threads, every interleaving with a bounded number of preemptions, at the granularity of
      a source line (of a bytecode instruction when thorough), under a scheduler that owns both
      threads and the locks
http  every kind of answer of the responder
big   the real capacity

The module is executed afresh for every history, with the clock, the HTTP client and the locks of
the standard library replaced.
"""
import copy
import datetime
import http.client
import importlib.util
import io
import itertools
import os
import sys
import threading
import urllib.error
import urllib.request

from .. import env
from ..engine import Violation, need

PROP = 'C20'
CHUNK = 40
TIMEOUT = 600
PATH = os.path.join(env.REPO, 'src', 'siotls', 'ocsp_over_http.py')
URL = 'http://ocsp.example/'
T0 = datetime.datetime(2030, 1, 1)
STEP = datetime.timedelta(hours=1)
LOCAL = datetime.timedelta(hours=14, minutes=30)      # west of Greenwich, see mc/env.py
ASSUMPTIONS = [
    'Thread switches are explored between source lines (one switch between any two bytecode '
    'instructions too when thorough) of '
    'the cache module; calls of built-in functions are atomic, as they are under the GIL.',
    'The clock and the HTTP client are stand-ins. An entry may be evicted early when earlier '
    'removals left holes in the bookkeeping, provided it is the first to expire.',
]
real_datetime, real_lock, real_rlock = datetime.datetime, threading.Lock, threading.RLock
real_thread, real_urlopen = threading.Thread, urllib.request.urlopen
_code = None


class Clock:
    now = T0


class FakeDatetime(real_datetime):
    @classmethod
    def utcnow(cls):
        return Clock.now

    @classmethod
    def now(cls, tz=None):
        if tz is None:
            return Clock.now - LOCAL
        return Clock.now.replace(tzinfo=datetime.UTC).astimezone(tz)


class Net:
    """ The responder. """
    def __init__(self):
        self.calls = []
        self.answer = None

    def __call__(self, req, *args, timeout=None, **kw):
        self.calls.append((req, timeout if timeout is not None else (args[1:] or [None])[0]))
        if isinstance(self.answer, BaseException):
            raise self.answer
        body = self.answer if self.answer is not None else b'net %d' % len(self.calls)
        if not isinstance(body, bytes):
            return body
        return good_response(body)


def http_response(raw):
    class Sock:
        def makefile(self, *args, **kw):
            return io.BytesIO(raw)
    res = http.client.HTTPResponse(Sock(), method='POST')
    res.begin()
    return res


_heads = {}


def good_response(body):
    """ The same as http_response, the headers of which are parsed once """
    if len(body) not in _heads:
        _heads[len(body)] = http_response(
            b'HTTP/1.1 200 OK\r\nContent-Type: application/ocsp-response\r\n'
            b'Content-Length: %d\r\n\r\n' % len(body) + body)
    res = copy.copy(_heads[len(body)])
    res.fp = io.BytesIO(body)
    return res


def fresh(net, capacity=None, lock=None):
    """ The module under test, in its initial state. """
    global _code
    if _code is None:
        with open(PATH) as file:
            _code = compile(file.read(), PATH, 'exec')
    spec = importlib.util.spec_from_loader('siotls.ocsp_over_http', None)
    module = importlib.util.module_from_spec(spec)
    module.__file__ = PATH
    datetime.datetime = FakeDatetime
    urllib.request.urlopen = net
    if lock:
        threading.Lock, threading.RLock = lock, lock
    try:
        exec(_code, module.__dict__)
    finally:
        datetime.datetime = real_datetime
        urllib.request.urlopen = real_urlopen
        threading.Lock, threading.RLock = real_lock, real_rlock
    name = capacity_name(module)
    if capacity and name:
        setattr(module, name, capacity)
    Clock.now = T0
    return module


def capacity_name(module):
    """ the constant of the module that bounds its cache, whatever it is called """
    names = [n for n, v in vars(module).items() if n.isupper() and v == 64 and type(v) is int]
    return 'CACHE_ENTRIES' if hasattr(module, 'CACHE_ENTRIES') else names[0] if names else None


# ---------------------------------------------------------------- sequences against the model
KEYS = (b'key b', b'key a', b'key c')
OPS = [*(('cache', k, d) for k in range(3) for d in (1, 2)), *(('uncache', k) for k in range(3)),
       *(('request', k) for k in range(3)), ('tick',)]


class Model:
    """ Every state (dict key -> (until, value)) the cache may be in. """
    def __init__(self, capacity):
        self.cap, self.holes = capacity, 0
        self.states = [{}]

    def cache(self, k, until, value):
        out = []
        for s in self.states:
            if k in s:
                out.append(s)
                out.append({**s, k: (until, value)})
                continue
            full = len(s) >= self.cap
            if not full:
                out.append({**s, k: (until, value)})
            if s and (full or self.holes):
                first = min(u for u, _ in s.values())
                for victim in [x for x, (u, _) in s.items() if u == first]:
                    rest = {x: v for x, v in s.items() if x != victim}
                    out.append({**rest, k: (until, value)})
        self.states = self.dedup(out)

    def uncache(self, k):
        if any(k in s for s in self.states):
            self.holes += 1
        self.states = self.dedup([{x: v for x, v in s.items() if x != k} for s in self.states])

    def request(self, k, now, got, hit):
        """ ``got`` was returned without (hit) or with the help of the network """
        out = []
        for s in self.states:
            live = k in s and now < s[k][0]
            if hit and live and s[k][1] == got:
                out.append(s)
            elif not hit and not live:
                if k in s:
                    self.holes += 1
                out.append({x: v for x, v in s.items() if x != k})
                if k in s:
                    out.append(s)
        self.states = self.dedup(out)
        return bool(self.states)

    @staticmethod
    def dedup(states):
        return list({tuple(sorted(s.items())): s for s in states}.values())

    def canon(self):
        return sorted(tuple(sorted(s.items())) for s in self.states)


def do_request(module, net, k):
    n = len(net.calls)
    got = module.request(URL, KEYS[k])
    hit = len(net.calls) == n
    if not hit:
        need(len(net.calls) == n + 1, 'the responder was asked twice')
        need(got == b'net %d' % len(net.calls), 'not the answer of the responder')
    return got, hit


def sequence(cap, ops, obs):
    net = Net()
    module = fresh(net, cap)
    model = Model(cap)
    for i, op in enumerate(ops):
        apply(module, net, model, i, op, ops)
        obs.step()
    # what is left
    for k in range(3):
        apply(module, net, model, 99, ('request', k), ops)
    return model


def apply(module, net, model, i, op, ops):
    if op[0] == 'tick':
        Clock.now += STEP
    elif op[0] == 'cache':
        until, value = Clock.now + op[2] * STEP - STEP / 2, b'value %d %d' % (op[1], i)
        module.cache(until, KEYS[op[1]], value)
        model.cache(op[1], until, value)
    elif op[0] == 'uncache':
        module.uncache(KEYS[op[1]])
        model.uncache(op[1])
    else:
        got, hit = do_request(module, net, op[1])
        need(model.request(op[1], Clock.now, got, hit),
             lambda: f'{ops}: operation {i} {op}: {"served " + repr(got) if hit else "missed"}, '
                     'which no bounded cache does here')


# ---------------------------------------------------------------- two threads
class Abandon(BaseException):
    pass


class Scheduler:
    """
    Runs two functions in two threads, one at a time. ``switches``: the scheduling points (counted
    over the whole execution) at which the running thread is preempted.
    """
    def __init__(self, switches, granularity):
        self.switches, self.granularity = set(switches), granularity
        self.count = 0
        self.go = [threading.Semaphore(0), threading.Semaphore(0)]
        self.finished = [False, False]
        self.blocked = [None, None]
        self.errors = [None, None]
        self.main = threading.Semaphore(0)
        self.me = threading.local()
        self.current = 0
        self.owners = {}
        self.dead = False

    def point(self):
        i, self.count = self.count, self.count + 1
        if i in self.switches:
            self.switch()

    def runnable(self, tid):
        return not self.finished[tid] and (
            self.blocked[tid] is None or self.blocked[tid].owner is None)

    def switch(self):
        """ Hand over to the other thread, if it can run. """
        me, other = self.me.tid, 1 - self.me.tid
        if not self.runnable(other):
            return False
        self.current = other
        self.go[other].release()
        self.go[me].acquire()
        if self.dead:
            raise Abandon
        return True

    def trace(self, frame, event, arg):
        if frame.f_code.co_filename != PATH:
            return None
        frame.f_trace_opcodes = self.granularity == 'opcode'
        wanted = 'opcode' if self.granularity == 'opcode' else 'line'

        def local(frame, event, arg):
            if event == wanted:
                self.point()
            return local
        return local

    def body(self, tid, function):
        self.me.tid = tid
        self.go[tid].acquire()
        try:
            if not self.dead:
                sys.settrace(self.trace)
                try:
                    function()
                finally:
                    sys.settrace(None)
        except Abandon:
            pass
        except BaseException as exc:
            self.errors[tid] = exc
        self.finished[tid] = True
        if not self.finished[1 - tid] and self.runnable(1 - tid) and not self.dead:
            self.current = 1 - tid
            self.go[1 - tid].release()
        else:
            self.main.release()

    def run(self, first, functions):
        threads = [real_thread(target=self.body, args=(tid, f), daemon=True)
                   for tid, f in enumerate(functions)]
        for t in threads:
            t.start()
        self.current = first
        self.go[first].release()
        self.main.acquire()
        stuck = not all(self.finished)
        if stuck:
            self.dead = True
            for sem in self.go:
                sem.release()
        for t in threads:
            t.join()
        need(not stuck, 'deadlock')
        for exc in self.errors:
            if exc is not None:
                raise exc


class CoopLock:
    """ Lock and RLock of a module run under the scheduler. """
    scheduler = None

    def __init__(self):
        self.owner, self.depth = None, 0

    def acquire(self, blocking=True, timeout=-1):
        sched = CoopLock.scheduler
        me = getattr(sched.me, 'tid', 'main') if sched else 'main'
        while self.owner not in (None, me):
            if not blocking:
                return False
            sched.blocked[me] = self
            if not sched.switch():
                sched.main.release()       # deadlock
                sched.go[me].acquire()
                raise Abandon
        if sched and me != 'main':
            sched.blocked[me] = None
        self.owner, self.depth = me, self.depth + 1
        return True

    def release(self):
        self.depth -= 1
        if not self.depth:
            self.owner = None

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *exc):
        self.release()


SETUPS = {
    'empty': [], 'one': [('cache', 0, 2)], 'full': [('cache', 0, 2), ('cache', 1, 4)],
    'expired': [('cache', 0, 0), ('cache', 1, 4)],
    'hole': [('cache', 0, 2), ('uncache', 0)],
    'hole2': [('cache', 0, 2), ('cache', 1, 4), ('uncache', 1)],
    'two expired': [('cache', 0, 0), ('cache', 1, 0)],
}
ATOMS = [('cache', 0, 1), ('cache', 0, 3), ('cache', 2, 5), ('cache', 3, 1), ('uncache', 0),
         ('uncache', 2), ('request', 0), ('request', 2)]
NKEYS = 4
CKEYS = [b'k%d' % i for i in range(9)]


def one_schedule(capacity, setup, progs, first, switches, granularity):
    """ Returns the number of scheduling points. """
    net = Net()
    CoopLock.scheduler = None
    module = fresh(net, capacity, CoopLock)
    stored = {}                 # every value ever given for a key: value -> (key, until)
    log = []
    serial = itertools.count()

    def do(tid, op):
        if op[0] == 'cache':
            value = b'v%d' % next(serial)
            stored[value] = (op[1], T0 + op[2] * STEP)
            module.cache(T0 + op[2] * STEP, CKEYS[op[1]], value)
        elif op[0] == 'uncache':
            removable = [v for v, (k, _) in stored.items() if k == op[1]] if done_before else []
            log.append(('begin', tid, op))
            module.uncache(CKEYS[op[1]])
            log.append(('end', tid, op, removable))
        else:
            log.append(('begin', tid, op))
            got = module.request(URL, CKEYS[op[1]])
            log.append(('end', tid, op, got))
            if got in stored:
                k, until = stored[got]
                need(k == op[1], f'request of key {op[1]} served with the status of key {k}')
                need(Clock.now < until, 'expired status served')

    done_before = True
    for op in setup:
        do('main', op)
    module_before = dict(stored)
    del log[:]
    sched = CoopLock.scheduler = Scheduler(switches, granularity)

    def program(tid):
        def go():
            for op in progs[tid]:
                do(tid, op)
        return go
    try:
        sched.run(first, [program(0), program(1)])
    finally:
        CoopLock.scheduler = None
    # a value that was removed before the request began and never stored since
    for i, entry in enumerate(log):
        if entry[0] == 'end' and entry[2][0] == 'request' and entry[3] in module_before:
            begin = max(j for j in range(i) if log[j][:3] == ('begin', *entry[1:3]))
            for earlier in log[:begin]:
                need(not (earlier[0] == 'end' and earlier[2] == ('uncache', entry[2][1])),
                     'removed status served')
    # the capacity
    def hits(keys):
        out = []
        for k in keys:
            n = len(net.calls)
            got = module.request(URL, CKEYS[k])
            if len(net.calls) == n:
                need(stored[got][0] == k and Clock.now < stored[got][1], 'wrong status served')
                out.append(k)
        return out
    alive = hits(range(NKEYS))
    need(len(alive) <= capacity, f'{len(alive)} entries in a cache of {capacity}')
    # everything can still be evicted: what was stored does not outlive its turn
    for i in range(capacity):
        do('main', ('cache', NKEYS + i, 8 + i))
    alive = hits(range(NKEYS + capacity))
    need(len(alive) <= capacity,
         f'{len(alive)} entries in a cache of {capacity}: some can not be evicted anymore')
    return sched.count


def all_schedules(capacity, setup, progs, granularity, preemptions, obs):
    done = 0
    for first in (0, 1):
        todo = [()]
        while todo:
            switches = todo.pop()
            what = f'capacity {capacity}, {setup} then {progs[0]} || {progs[1]}, ' \
                   f'thread {first} first, preempted at {switches}'
            try:
                n = one_schedule(capacity, SETUPS[setup], progs, first, switches, granularity)
            except Violation as exc:
                raise Violation(f'{what}: {exc}') from exc
            except Exception as exc:
                raise Violation(f'{what}: {exc!r}') from exc
            done += 1
            obs.step(n)
            if len(switches) < preemptions:
                start = switches[-1] + 1 if switches else 0
                todo += [(*switches, i) for i in range(start, n)]
    obs.trace(done)
    obs.outcome('schedules')
    obs.outcomes['schedules'] += done - 1


# ---------------------------------------------------------------- answers of the responder
LIMIT = 20480
TYPES = {'absent': None, 'good': 'application/ocsp-response', 'html': 'text/html',
         'request': 'application/ocsp-request', 'empty': '',
         'longer': 'application/ocsp-response-list', 'shorter': 'application/ocsp',
         'inside': 'text/html; application/ocsp-response', 'suffix': 'x-application/ocsp-response'}
SIZES = [0, 1, 100, LIMIT - 1, LIMIT, LIMIT + 1, 3 * LIMIT]
LENGTHS = ['absent', 'exact', 'less', 'more', '-1', '-0', 'abc', '', '1e3', '0x10', str(LIMIT + 1),
           '9' * 30, '+5', ' 7 ']
ERRORS = ['URLError', 'HTTPError', 'timeout', 'reset', 'oserror', 'status line', 'too long',
          'incomplete', 'disconnected', 'chunked']
URLS = ['https://ocsp.example/', 'ftp://ocsp.example/', 'file:///etc/passwd', 'ocsp.example',
        'http://', 'http:///path', '', 'HTTPS://x/', 'file://localhost/etc/passwd', 'data:,x']


def http_case(rest, obs):
    net = Net()
    module = fresh(net, 2)
    key = b'some request'
    kind, *rest = rest
    refused = (OSError, RuntimeError, ValueError)
    if kind == 'url':
        try:
            module.request(rest[0], key)
        except ValueError:
            pass
        else:
            need(False, f'url {rest[0]!r} accepted')
        need(not net.calls, f'url {rest[0]!r} requested')
    elif kind == 'norequest':
        try:
            module.request(URL, b'')
        except ValueError:
            pass
        else:
            need(False, 'empty request sent')
        need(not net.calls, 'empty request sent')
    elif kind == 'error':
        net.answer = {'URLError': urllib.error.URLError('x'), 'timeout': TimeoutError('x'),
                      'HTTPError': urllib.error.HTTPError(URL, 500, 'x', {}, None),
                      'reset': ConnectionResetError('x'), 'oserror': OSError('x'),
                      'status line': http.client.BadStatusLine('garbage'),
                      'too long': http.client.LineTooLong('header line'),
                      'disconnected': http.client.RemoteDisconnected('x'),
                      'incomplete': http.client.IncompleteRead(b'x', 10),
                      'chunked': http_response(b'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked'
                                               b'\r\n\r\nzz\r\nxx')}[rest[0]]
        try:
            module.request(URL, key)
        except refused:
            pass
        else:
            need(False, 'error hidden')
    else:
        ctype, size, length = rest
        body = bytes(i % 251 for i in range(size))
        head = b'HTTP/1.1 200 OK\r\n'
        if TYPES[ctype] is not None:
            head += b'Content-Type: %s\r\n' % TYPES[ctype].encode()
        text = {'exact': str(size), 'less': str(size // 2), 'more': str(size + 10)}.get(length, length)
        if length != 'absent':
            head += b'Content-Length: %s\r\n' % text.encode()
        net.answer = http_response(head + b'\r\n' + body)
        announced = LIMIT
        if length != 'absent':
            try:
                announced = int(text)
            except ValueError:
                announced = -1
        legal = ctype in ('absent', 'good') and 0 <= announced <= LIMIT
        try:
            got = module.request(URL, key)
        except refused:
            need(not (legal and length in ('exact', 'absent') and size <= LIMIT),
                 f'{rest}: legal answer refused')
        else:
            need(legal, f'{rest}: refused answer returned')
            need(got == body[:len(got)] and len(got) <= LIMIT, f'{rest}: not the answer')
            if length in ('exact', 'absent') and size <= LIMIT:
                need(got == body, f'{rest}: truncated')
        req, timeout = net.calls[0]
        need(req.get_method() == 'POST' and req.full_url == URL and req.data == key,
             'not the request')
        need(req.get_header('Content-type') == 'application/ocsp-request', 'type of the request')
        need(timeout is not None and 0 < timeout <= 60, 'no time limit')
    # whatever it was, request doesn't store on its own
    net.calls.clear()
    net.answer = b'other'
    need(module.request(URL, key) == b'other' and len(net.calls) == 1, 'answer stored')
    obs.step(2)
    obs.trace()
    obs.outcome(kind)


# ---------------------------------------------------------------- the real capacity
def big_case(rest, obs):
    order, extra, removed = rest
    net = Net()
    module = fresh(net)
    name = capacity_name(module)
    cap = getattr(module, name) if name else 64
    need(0 < cap <= 4096, 'capacity')
    n = cap + extra
    rank = list(range(n))
    if order == 'descending':
        rank.reverse()
    elif order == 'alternate':
        rank = [i // 2 if i % 2 else n - 1 - i // 2 for i in range(n)]
    elif order == 'equal':
        rank = [0] * n
    live = {}
    for i in range(n):
        if len(live) >= cap:
            # evicts the first to expire
            first = min(live.values())
            victims = [k for k, u in live.items() if u == first]
            if len(victims) == 1:
                del live[victims[0]]
            else:
                live.pop(victims[0])
        live[i] = rank[i]
        module.cache(T0 + STEP * (1 + rank[i]), b'%d' % i, b'value %d' % i)
        if removed and i % 7 == 3 and i in live:
            module.uncache(b'%d' % i)
            del live[i]
        obs.step()
    hits = set()
    for i in range(n):
        calls = len(net.calls)
        got = module.request(URL, b'%d' % i)
        if len(net.calls) == calls:
            need(got == b'value %d' % i, 'wrong status')
            hits.add(i)
    need(len(hits) <= cap, f'{len(hits)} entries in a cache of {cap}')
    if not removed and order != 'equal':
        need(hits == set(live), f'evicted {sorted(set(live) - hits)[:5]} instead of '
                                f'{sorted(hits - set(live))[:5]}')
    if not removed:
        need(len(hits) == cap, f'only {len(hits)} entries left in a cache of {cap}')
    obs.trace()
    obs.outcome('big')


def cases(tier):
    thorough = tier == 'thorough'
    for url in URLS:
        yield ['http', 'url', url]
    yield ['http', 'norequest']
    for error in ERRORS:
        yield ['http', 'error', error]
    for ctype in TYPES:
        for size in SIZES:
            for length in LENGTHS:
                yield ['http', 'answer', ctype, size, length]
    for order in ('ascending', 'descending', 'alternate', 'equal'):
        for extra in (0, 1, 2, 64, 200):
            for removed in (0, 1):
                yield ['big', order, extra, removed]
    n = len(OPS)
    for cap in ((1, 2, 3) if thorough else (1, 2)):
        for a in range(n):
            for b in range(n):
                yield ['seq', cap, a, b, 6 if thorough and cap == 2 else 5 if cap == 2 else 4]
    for a in range(6):              # caches and removals only
        for b in range(9):
            yield ['seq', 3, a, b, 6 if thorough else 5, 9]
    atoms = range(len(ATOMS))
    for cap in (1, 2):
        for setup in SETUPS:
            for a in atoms:
                for b in atoms:
                    if a <= b:
                        requests = sum(ATOMS[x][0] == 'request' for x in (a, b))
                        line = 1 if requests or cap == 1 else 2
                        if thorough:
                            line = 3 if cap == 2 and setup == 'full' and not requests else 2
                            yield ['conc', cap, setup, [a], [b], 'opcode', 1]
                        yield ['conc', cap, setup, [a], [b], 'line', line]
                if thorough and cap == 2 and setup == 'full':
                    for b, c in itertools.product(atoms, atoms):
                        yield ['conc', cap, setup, [a], [b, c], 'line', 2]


def run(case, obs):
    kind, *rest = case
    if kind in ('seq', 'conc') and not capacity_name(fresh(Net())):
        obs.outcome('the capacity can not be lowered')
        return
    if kind == 'http':
        http_case(rest, obs)
        obs.state('http', *rest)
    elif kind == 'big':
        big_case(rest, obs)
        obs.state(*case)
    elif kind == 'seq':
        cap, a, b, depth, *n = rest
        n = n[0] if n else len(OPS)
        for tail in itertools.product(range(n), repeat=depth - 2):
            ops = [OPS[i] for i in (a, b, *tail)]
            model = sequence(cap, ops, obs)
            obs.state(cap, model.canon())
            obs.trace()
        obs.outcome('sequences')
    else:
        cap, setup, a, b, granularity, preemptions = rest
        progs = [[ATOMS[i] for i in a], [ATOMS[i] for i in b]]
        obs.state(*case)
        all_schedules(cap, setup, progs, granularity, preemptions, obs)

"""
C17: breadth first search of the states of the serialization stream against a list model, from
every small buffer, and write/read round trips.
"""
import contextlib
import itertools

from .. import env  # noqa: F401
from ..engine import need

from siotls import TLSError
from siotls.serial import SerialIO

PROP = 'C17'
FAIL = 'fail'

ALPHABET = [0, 1, 2, 255]
BUFFERS = [bytes(b) for n in range(5) for b in itertools.product(ALPHABET, repeat=n)]
LONG = [bytes.fromhex(h) for h in (
    '0201000361626301', '0000000000000000', '0004010203040001', '0103020101010101',
    '000003aabbcc0001', '04020203040100ff', '0006020102030405', '02000102ff000000')]

READS = ([('read', n) for n in (0, 1, 2, 3, 5, 9)] + [('read', None), ('read', -1)]
         + [('read_exactly', n) for n in (0, 1, 2, 3, 9)]
         + [('read_int', n) for n in (1, 2, 3, 4, 8)]
         + [('read_var', n) for n in (1, 2, 3)]
         + [('read_listint', a, b) for a in (1, 2) for b in (1, 2, 3)]
         + [('read_listvar', a, b) for a in (1, 2) for b in (1, 2)])
LIMITS = [('limit', n) for n in (0, 1, 2, 3, 5, 9)]
OTHERS = [('end',), ('look',), ('unlook',), ('is_eof',), ('assert_eof',)]
OPS = READS + LIMITS + OTHERS


class Model:
    """ What the documentation promises, on a plain list of integers """
    def __init__(self, buf):
        self.buf, self.pos, self.frames = buf, 0, ()

    def key(self):
        return self.buf, self.pos, self.frames

    @property
    def limit(self):
        return next((f[1] for f in reversed(self.frames) if f[0] == 'limit'), None)

    def exactly(self, n):
        if self.limit is not None and self.pos + n > self.limit or self.pos + n > len(self.buf):
            raise Short
        self.pos += n
        return self.buf[self.pos - n:self.pos]

    def integer(self, n):
        return int.from_bytes(self.exactly(n), 'big')

    def apply(self, op):
        """ (value or FAIL, exact position known) """
        before = self.pos
        try:
            return getattr(self, 'op_' + op[0])(*op[1:]), True
        except Short:
            self.pos = before
            return FAIL, False

    def op_read(self, n):
        end = len(self.buf) if self.limit is None else min(len(self.buf), self.limit)
        if n is None or n < 0:
            n = max(end - self.pos, 0)
        elif self.limit is not None and self.pos + n > self.limit:
            raise Short
        return self.exactly(min(n, len(self.buf) - self.pos))

    def op_read_exactly(self, n): return self.exactly(n)
    def op_read_int(self, n): return self.integer(n)
    def op_read_var(self, n): return self.exactly(self.integer(n))

    def op_read_listint(self, a, b):
        data = self.exactly(self.integer(a))
        if len(data) % b:
            raise Short
        return [int.from_bytes(data[i:i + b], 'big') for i in range(0, len(data), b)]

    def op_read_listvar(self, a, b):
        sub, out = Model(self.exactly(self.integer(a))), []
        while sub.pos < len(sub.buf):
            out.append(sub.exactly(sub.integer(b)))
        return out

    def op_limit(self, n):
        if self.limit is not None and self.pos + n > self.limit:
            raise Short
        self.frames += (('limit', self.pos + n),)

    def op_end(self):
        limit = self.frames[-1][1]
        self.frames = self.frames[:-1]
        if self.pos != limit:
            raise Short

    def op_look(self):
        self.frames += (('look', self.pos),)

    def op_unlook(self):
        self.pos = self.frames[-1][1]
        self.frames = self.frames[:-1]

    def op_is_eof(self): return self.pos == len(self.buf)

    def op_assert_eof(self):
        if self.pos != len(self.buf):
            raise Short

    def enabled(self, op):
        if op[0] == 'end':
            return bool(self.frames) and self.frames[-1][0] == 'limit'
        if op[0] == 'unlook':
            return bool(self.frames) and self.frames[-1][0] == 'look'
        if op[0] in ('limit', 'look'):
            return len(self.frames) < 3
        return True


class Short(Exception):
    pass


class Real:
    def __init__(self, buf):
        self.s, self.frames = SerialIO(buf), []

    def apply(self, op):
        s, name = self.s, op[0]
        try:
            if name in ('limit', 'look'):
                cm = s.limit(op[1]) if name == 'limit' else s.lookahead()
                cm.__enter__()
                self.frames.append(cm)
                return None
            if name in ('end', 'unlook'):
                self.frames.pop().__exit__(None, None, None)
                return None
            return getattr(s, name)(*op[1:])
        except (TLSError, ValueError):
            return FAIL


def cases(tier):
    depth = 3 if tier == 'quick' else 5
    for b in BUFFERS if tier == 'quick' else BUFFERS + [
            bytes(b) for b in itertools.product(ALPHABET, repeat=5)]:
        yield ['bfs', b.hex(), depth]
    for b in LONG:
        yield ['bfs', b.hex(), depth + 1]
    # without merging states, in case the stream remembers more than the model does
    for b in LONG[:3] if tier == 'quick' else LONG[:5]:
        for first in range(len(OPS)):
            for second in range(len(OPS)) if tier == 'thorough' else (None,):
                yield ['tree', b.hex(), first, second]
    for kind in WRITES:
        for i in range(len(WRITES[kind])):
            yield ['write', kind, i]
    yield ['exception']


def run(case, obs):
    globals()['run_' + case[0]](case, obs)


def step(real, model, op, obs, what):
    before = model.pos
    expected, exact = model.apply(op)
    got = real.apply(op)
    obs.step()
    pos = real.s.tell()
    need(norm(got) == norm(expected), lambda: f'{what}: {op} gave {got!r}, expected {expected!r}')
    if exact or op[0] in ('limit', 'end', 'assert_eof'):
        need(pos == model.pos, lambda: f'{what}: {op} left the stream at {pos}, expected {model.pos}')
    else:
        # a failed read may have consumed bytes, never beyond the limits nor backwards
        top = len(model.buf) if model.limit is None else model.limit
        need(before <= pos <= max(before, min(top, len(model.buf))),
             lambda: f'{what}: failed {op} moved the stream from {before} to {pos}')
        model.pos = pos
    need(real.s.getvalue() == model.buf, lambda: f'{what}: {op} changed the buffer')
    obs.outcome(f'{op[0]}/{"fail" if got is FAIL else "ok"}')


def norm(v):
    return bytes(v) if isinstance(v, bytes | bytearray) else v


def replay(buf, path, obs=None):
    real, model = Real(buf), Model(buf)
    for op in path:
        model_pos = model.apply(op)
        real.apply(op)
        if not model_pos[1] and op[0] not in ('limit', 'end', 'assert_eof'):
            model.pos = real.s.tell()
    return real, model


def run_bfs(case, obs):
    _, h, depth = case
    buf = bytes.fromhex(h)
    seen, todo = {Model(buf).key()}, [()]
    obs.state(Model(buf).key())
    for _ in range(depth):
        layer = []
        for path in todo:
            for op in OPS:
                real, model = replay(buf, path)
                if not model.enabled(op):
                    continue
                step(real, model, op, obs, f'{h} {list(path)}')
                if model.key() not in seen:
                    seen.add(model.key())
                    obs.state(model.key())
                    layer.append((*path, op))
        todo = layer
    obs.trace()


def run_tree(case, obs):
    _, h, first, second = case
    buf = bytes.fromhex(h)
    seconds = OPS if second is None else [OPS[second]]
    for path in itertools.product([OPS[first]], seconds, OPS, *([OPS] if second is not None else [])):
        real, model = Real(buf), Model(buf)
        for i, op in enumerate(path):
            if not model.enabled(op):
                break
            step(real, model, op, obs, f'{h} {list(path[:i])}')
    obs.trace()


BYTES = [b'', b'\0', b'ab', b'z' * 255, b'z' * 256, b'z' * 65535]
WRITES = {
    'int': [(n, v) for n in (1, 2, 3, 4, 8) for v in (0, 1, 255, 256, 65535, 65536, (1 << 24) - 1,
                                                      1 << 24, (1 << 32) - 1, 1 << 32)],
    'var': [(n, b) for n in (1, 2, 3) for b in [*BYTES, b'z' * 65536]],
    'listint': [(a, b, [v] * k) for a in (1, 2, 3) for b in (1, 2, 3, 4) for v in (0, 1, 254)
                for k in (0, 1, 2, 127, 128, 255, 256)],
    'listvar': [(a, b, items) for a in (1, 2, 3) for b in (1, 2)
                for items in [[], *[[x] for x in BYTES], *[list(p) for p in
                                                          itertools.product(BYTES[:4], repeat=2)],
                              [b'abc'] * 60, [b'abc'] * 70, [b'z' * 255] * 300]],
}


def encode(kind, args):
    """ None when the value does not fit """
    def num(n, i):
        if i >= 1 << 8 * n:
            raise OverflowError
        return bytes(i >> 8 * k & 255 for k in range(n - 1, -1, -1))
    try:
        if kind == 'int':
            return num(*args)
        if kind == 'var':
            return num(args[0], len(args[1])) + args[1]
        if kind == 'listint':
            a, b, items = args
            return num(a, len(items) * b) + b''.join(num(b, i) for i in items)
        a, b, items = args
        data = b''.join(num(b, len(i)) + i for i in items)
        return num(a, len(data)) + data
    except OverflowError:
        return None


def run_write(case, obs):
    _, kind, i = case
    args = WRITES[kind][i]
    want = encode(kind, args)
    what = f'write_{kind}{args!r}'[:80]
    for prefix, suffix in ((b'', b''), (b'pre', b''), (b'pre', b'suffix'), (b'', b'x' * 5)):
        obs.state(kind, i, prefix, suffix)
        s = SerialIO(prefix + suffix)
        s.seek(len(prefix))
        try:
            getattr(s, f'write_{kind}')(*args)
        except (OverflowError, TLSError, ValueError):
            need(want is None, f'{what}: refused')
            obs.outcome(f'write_{kind}/refused')
            continue
        obs.step()
        need(want is not None, f'{what}: wrote a value that does not fit')
        need(s.tell() == len(prefix) + len(want), f'{what}: stream left at {s.tell()}')
        need(s.getvalue() == prefix + want + suffix[len(want):],
             lambda: f'{what}: wrote {s.getvalue()[:40].hex()}')
        s.seek(len(prefix))
        back = getattr(s, f'read_{kind}')(*args[:-1])
        need(back == args[-1], lambda: f'{what}: read back {back!r}'[:200])
        need(s.tell() == len(prefix) + len(want), f'{what}: stream left at {s.tell()}')
        # the same value read under a limit that is exact, too short, or in a truncated stream
        for cut in (0, 1):
            if cut > len(want):
                continue
            s.seek(len(prefix))
            try:
                with s.limit(len(want) - cut):
                    back = getattr(s, f'read_{kind}')(*args[:-1])
                need(not cut and back == args[-1], f'{what}: read beyond the limit')
            except (TLSError, ValueError):
                need(cut, f'{what}: exact limit refused')
                s = SerialIO(s.getvalue())      # the limit of the failed block stays
            t = SerialIO(want[:len(want) - cut])
            try:
                back = getattr(t, f'read_{kind}')(*args[:-1])
                need(not cut and back == args[-1], f'{what}: read a truncated value')
            except TLSError:
                need(cut, f'{what}: exact buffer refused')
            obs.step(2)
        obs.outcome(f'write_{kind}/ok')
    obs.trace()


def run_exception(case, obs):
    """ an exception that crosses limit() or lookahead() is not swallowed """
    for cm in ('limit', 'lookahead'):
        s = SerialIO(b'abcdef')
        s.read(1)
        with contextlib.suppress(KeyError):
            with (s.limit(3) if cm == 'limit' else s.lookahead()):
                s.read(1)
                raise KeyError
            raise AssertionError(f'{cm} swallowed an exception')
        if cm == 'lookahead':
            need(s.tell() == 1, 'lookahead did not rewind after an exception')
        obs.step()
    obs.trace()

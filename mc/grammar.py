"""
The presentation-language grammar of the messages (RFC 8446 section 4 and the RFCs of the
extensions), as data.  parse() tells whether bytes conform and where their length fields are;
encode() is an encoder independent of siotls; domain() enumerates small values.

Values: U -> int; Fixed, Opaque, Rest -> bytes; Vec -> list; Struct -> tuple; Exts -> list of
(type, value), the value being bytes for unknown types.
"""
import itertools

from .ref import CERT, CERT_REQ, CERT_VERIFY, CLIENT_HELLO, EE, FINISHED, HRR_RANDOM, NST, \
    SERVER_HELLO


class Malformed(Exception):
    pass


class Unspecified(Exception):
    """ the structure depends on a discriminant nobody defined """


class Cursor:
    def __init__(self, data, base=0):
        self.data, self.base, self.pos = bytes(data), base, 0
        self.lengths = []               # (absolute offset, width) of the length fields

    def take(self, n):
        if self.pos + n > len(self.data):
            raise Malformed(f'need {n} bytes at {self.base + self.pos}')
        self.pos += n
        return self.data[self.pos - n:self.pos]

    def sub(self, width):
        self.lengths.append((self.base + self.pos, width))
        n = int.from_bytes(self.take(width), 'big')
        at = self.base + self.pos
        child = Cursor(self.take(n), at)
        child.lengths = self.lengths
        return child

    @property
    def eof(self):
        return self.pos == len(self.data)

    def end(self):
        if not self.eof:
            raise Malformed(f'{len(self.data) - self.pos} bytes remain')


class U:
    def __init__(self, width, values=None):
        self.width, self.values = width, values
    def parse(self, c): return int.from_bytes(c.take(self.width), 'big')
    def encode(self, v): return v.to_bytes(self.width, 'big')
    def domain(self):
        top = (1 << 8 * self.width) - 1
        return self.values or [0, 1, top]


class Fixed:
    def __init__(self, n): self.n = n
    def parse(self, c): return c.take(self.n)
    def encode(self, v): return v
    def domain(self): return [bytes(range(self.n))]


class Rest:
    def __init__(self, values=(b'', b'\0', b'\xff' * 40)): self.values = list(values)
    def parse(self, c): return c.take(len(c.data) - c.pos)
    def encode(self, v): return v
    def domain(self): return self.values


class Opaque:
    def __init__(self, width, low=0, values=None):
        self.width, self.low, self.values = width, low, values
    def parse(self, c):
        child = c.sub(self.width)
        return child.take(len(child.data))
    def encode(self, v): return len(v).to_bytes(self.width, 'big') + v
    def domain(self):
        if self.values:
            return self.values
        out = [bytes(max(self.low, 1)), b'\x00\xff' * 16]
        if not self.low:
            out.insert(0, b'')
        if self.width == 1:
            out.append(b'z' * 255)
        else:
            out.append(b'z' * 256)
        return out


class Vec:
    def __init__(self, width, item, low=0):
        self.width, self.item, self.low = width, item, low
    def parse(self, c):
        child, out = c.sub(self.width), []
        while not child.eof:
            out.append(self.item.parse(child))
        return out
    def encode(self, v):
        data = b''.join(self.item.encode(i) for i in v)
        return len(data).to_bytes(self.width, 'big') + data
    def domain(self):
        items = self.item.domain()
        out = [] if self.low else [[]]
        out += [[i] for i in items]
        out += [list(p) for p in itertools.permutations(items[:4], 2)]
        if len(items) > 2:
            out.append(items[:3])
        return out


class Struct:
    def __init__(self, *fields): self.fields = fields
    def parse(self, c): return tuple(f.parse(c) for f in self.fields)
    def encode(self, v): return b''.join(f.encode(i) for f, i in zip(self.fields, v, strict=True))
    def domain(self):
        """ each field over its domain, pairwise with the next one """
        doms = [f.domain() for f in self.fields]
        seen = {}
        for i in range(len(doms)):
            j = (i + 1) % len(doms)
            for a, b in itertools.product(doms[i], doms[j] if j != i else [None]):
                v = [d[0] for d in doms]
                v[i] = a
                if j != i:
                    v[j] = b
                seen[repr(v)] = tuple(v)
        return list(seen.values())


class Tagged:
    """ a discriminant followed by the only structure that is defined """
    def __init__(self, width, tag, body): self.width, self.tag, self.body = width, tag, body
    def parse(self, c):
        if int.from_bytes(c.take(self.width), 'big') != self.tag:
            raise Unspecified
        return self.body.parse(c)
    def encode(self, v): return self.tag.to_bytes(self.width, 'big') + self.body.encode(v)
    def domain(self): return self.body.domain()


class Exts:
    """ Extension extensions<..2^16-1>, the grammar of each depends on the message """
    def __init__(self, table): self.table = table
    def parse(self, c):
        child, out = c.sub(2), []
        unspecified = False
        while not child.eof:
            t = int.from_bytes(child.take(2), 'big')
            sub = child.sub(2)
            try:
                v = self.table.get(t, Rest()).parse(sub)
            except Unspecified:
                unspecified = True
                continue
            sub.end()
            out.append((t, v))
        if unspecified:
            raise Unspecified
        return out
    def encode(self, v):
        out = b''
        for t, x in v:
            data = self.table.get(t, Rest()).encode(x)
            out += t.to_bytes(2, 'big') + len(data).to_bytes(2, 'big') + data
        return len(out).to_bytes(2, 'big') + out


EMPTY = Struct()
SUITES = U(2, [0x1301, 0x1302, 0x0a0a, 0xffff])
GROUPS = U(2, [0x1d, 0x17, 0x0a0a, 0xffff])
SCHEMES = U(2, [0x0403, 0x0804, 0xfafa, 0])
VERSIONS = U(2, [0x0304, 0x0303, 0x0a0a])
CTYPES = U(1, [0, 2, 1, 255])
SIGALGS = Vec(2, SCHEMES, 1)
HOSTNAME = Tagged(1, 0, Opaque(2, 1, [b'a', b'siotls.test', b'xn--bcher-kva.example']))
ALPN = Vec(2, Opaque(1, 1, [b'h2', b'http/1.1', b'zz-unknown', b'x' * 255]), 1)
SRTP = Struct(Vec(2, U(2), 1), Opaque(1))
OCSP_REQ = Tagged(1, 1, Struct(Vec(2, Opaque(2, 1)), Opaque(2)))
HEARTBEAT = U(1, [1, 2])
MFL = U(1, [1, 2, 3, 4])

CH_EXTS = {
    0: Vec(2, HOSTNAME, 1), 1: MFL, 5: OCSP_REQ, 10: Vec(2, GROUPS, 1), 13: SIGALGS, 14: SRTP,
    15: HEARTBEAT, 16: ALPN, 18: EMPTY, 19: Vec(1, CTYPES, 1), 20: Vec(1, CTYPES, 1),
    21: Rest([b'', b'\0', bytes(300)]),
    41: Struct(Vec(2, Struct(Opaque(2, 1), U(4)), 1), Vec(2, Opaque(1, 1, [b'b' * 32, b'b' * 255]), 1)),
    42: EMPTY, 43: Vec(1, VERSIONS, 1), 44: Opaque(2, 1), 45: Vec(1, U(1), 1),
    47: Vec(2, Opaque(2, 1), 1), 49: EMPTY, 50: SIGALGS,
    51: Vec(2, Struct(GROUPS, Opaque(2, 1))),
}
SH_EXTS = {41: U(2), 43: U(2, [0x0304]), 51: Struct(GROUPS, Opaque(2, 1))}
HRR_EXTS = {43: U(2, [0x0304]), 44: Opaque(2, 1), 51: U(2, [0x1d, 0x17, 0x18, 0x19, 0x1e])}
EE_EXTS = {0: EMPTY, 1: MFL, 10: Vec(2, GROUPS, 1), 14: SRTP, 15: HEARTBEAT, 16: ALPN,
           19: U(1, [0, 2]), 20: U(1, [0, 2]), 42: EMPTY}
CERT_EXTS = {5: Tagged(1, 1, Opaque(3, 1)), 18: Rest()}
CR_EXTS = {5: OCSP_REQ, 13: SIGALGS, 18: EMPTY, 47: Vec(2, Opaque(2, 1), 1),
           48: Vec(2, Struct(Opaque(1, 1), Opaque(2))), 50: SIGALGS}
NST_EXTS = {42: U(4)}

BODY = {
    'client_hello': Struct(U(2), Fixed(32), Opaque(1), Vec(2, SUITES, 1), Opaque(1, 1),
                           Exts(CH_EXTS)),
    'server_hello': Struct(U(2), Fixed(32), Opaque(1), SUITES, U(1), Exts(SH_EXTS)),
    'retry': Struct(U(2), Fixed(32), Opaque(1), SUITES, U(1), Exts(HRR_EXTS)),
    'encrypted_extensions': Exts(EE_EXTS),
    'certificate_request': Struct(Opaque(1), Exts(CR_EXTS)),
    'certificate': Struct(Opaque(1), Vec(3, Struct(Opaque(3, 1), Exts(CERT_EXTS)))),
    'certificate_verify': Struct(SCHEMES, Opaque(2)),
    'finished': Rest(),
    'ticket': Struct(U(4), U(4), Opaque(1), Opaque(2, 1), Exts(NST_EXTS)),
}
NAMES = {CLIENT_HELLO: 'client_hello', SERVER_HELLO: 'server_hello', EE: 'encrypted_extensions',
         CERT_REQ: 'certificate_request', CERT: 'certificate', CERT_VERIFY: 'certificate_verify',
         FINISHED: 'finished', NST: 'ticket'}


def message_name(raw):
    name = NAMES.get(raw[0])
    if name == 'server_hello' and raw[6:38] == HRR_RANDOM:
        name = 'retry'
    return name


def analyse(raw):
    """
    (verdict, offsets of the length fields) of a whole handshake message; the verdict is True when
    it conforms, False when it doesn't, None when nobody can tell.
    """
    c = Cursor(raw)
    t = c.take(1)[0]
    name = message_name(raw)
    try:
        body = c.sub(3)
        c.end()
    except Malformed:
        return False, []
    if t not in NAMES:
        return None, c.lengths
    try:
        BODY[name].parse(body)
        body.end()
    except Malformed:
        return False, c.lengths
    except Unspecified:
        return None, c.lengths
    return True, c.lengths


KNOWN_EXTS = {*CH_EXTS, *SH_EXTS, *HRR_EXTS, *EE_EXTS, *CERT_EXTS, *CR_EXTS, *NST_EXTS}
# the messages where each extension may appear, RFC 8446 section 4.2
ALLOWED_EXTS = {'client_hello': CH_EXTS, 'server_hello': SH_EXTS, 'retry': HRR_EXTS,
                'encrypted_extensions': EE_EXTS, 'certificate_request': CR_EXTS,
                'certificate': CERT_EXTS, 'ticket': NST_EXTS}


def forbidden(raw):
    """ why a message that conforms to the grammar must be refused all the same, or None """
    name = message_name(raw)
    if name not in ALLOWED_EXTS:
        return None
    try:
        v = BODY[name].parse(Cursor(raw[4:]))
    except Unspecified:
        return None
    blocks = [e for _, e in v[1]] if name == 'certificate' else [
        v if name == 'encrypted_extensions' else v[-1]]
    for block in blocks:
        for t, _ in block:
            if t in KNOWN_EXTS and t not in ALLOWED_EXTS[name]:
                return f'extension {t} in {name}'
    exts = blocks[0] if blocks else []
    if name in ('client_hello', 'server_hello', 'retry'):
        if v[0] != 0x0303:
            return f'legacy version {v[0]:#x}'
        if v[4] not in (b'\0', 0):
            return f'compression {v[4]}'
        if len(v[2]) > 32:
            return f'session id of {len(v[2])} bytes'
    if name == 'client_hello':
        if not v[3]:
            return 'no cipher suite'
        # what the padding is made of does not have to be looked at
        shown = {(t, repr(len(x) if t == 21 else x)) for t, x in exts}
        if len(shown) != len({t for t, _ in exts}):
            return 'duplicated extension'
        types = [t for t, _ in exts]
        if 41 in types and (types[-1] != 41 or 45 not in types):
            return 'misplaced pre shared key'
    for t, x in exts:
        if t == 1 and x not in MFL.values or t == 15 and x not in HEARTBEAT.values:
            return f'value {x} of extension {t}'
        if t in (19, 20) and x in ([], 3, 255):
            return f'certificate types {x}'
        if name == 'client_hello' and t == 51 and len({g for g, _ in x}) != len(x):
            return 'several shares of a group'
        if name == 'client_hello' and t == 0 and len(set(x)) > 1:
            return 'several host names'
    if name == 'certificate_request' and 13 not in [t for t, _ in exts]:
        return 'no signature algorithm'
    return None

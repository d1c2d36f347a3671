"""
C15: every structured mutation of every message a connection can receive, judged by the grammar.
"""
import itertools
import time

from .. import grammar, impl, pki, ref
from ..engine import need
from ..ref import ALERT, APPDATA, HANDSHAKE, hs, rec, u8, u16, u24, v8, v16, v24

PROP = 'C15'
TIMEOUT = 120
CHUNK = 2
STEP = {'trunc': 64, 'subst': 8, 'del': 32, 'ins': 32, 'cut': 1, 'len': 2, 'ext': 4, 'foreign': 8, 'head': 1,
        'grow': 4, 'repeat': 16}
FLOOD_CPU = 14.0
CPU = 8.0            # seconds; everything here takes well under a second when linear

RICH = [
    (0, v16(b'\0' + v16(pki.HOST.encode()))), (5, b'\1' + v16(v16(b'who')) + v16(b'')),
    (14, v16(b'\0\1\0\2') + v8(b'mki')), (15, b'\1'), (16, v16(v8(b'h2') + v8(b'http/1.1'))),
    (18, b''), (19, v8(b'\0')), (20, v8(b'\0')), (21, bytes(7)), (42, b''), (44, v16(b'crumb')),
    (45, v8(b'\1')), (47, v16(v16(b'ca1') + v16(b'ca2'))), (49, b''),
    (50, v16(b'\x08\x07\x04\x03')), (0x3a3a, b'grease'), (1, b'\2'),
]
PSK = (41, v16(v16(b'identity') + bytes(4)) + v16(v8(bytes(32))))


class Subject:
    """ A connection brought where ``raw`` is the next message due, and how to deliver it. """
    def __init__(self, name):
        getattr(self, 'build_' + name)()
        self.peer.feed(self.dut.tx())

    # -- server -------------------------------------------------------
    def _server(self, **kw):
        self.dut = impl.Impl.server('ed25519', cipher_suites=impl.suites([ref.CHACHA]),
                                    key_exchanges=impl.groups([ref.X25519]), **kw).start()
        self.wrap = lambda raw: rec(HANDSHAKE, raw)

    def build_ch_min(self):
        self._server()
        self.peer = ref.RefClient(suites=[ref.CHACHA], groups=[ref.X25519],
                                  sigalgs=[ref.ED25519])
        self.raw = self.peer.hello_raw()

    def build_ch_rich(self):
        self._server(server_hostnames=[pki.HOST], alpn=[impl.ALPNProtocol('h2')])
        self.peer = ref.RefClient(groups=[ref.X25519, ref.P256], sid=b's' * 32, extra=RICH)
        self.raw = self.peer.hello_raw()

    def build_ch_psk(self):
        self._server()
        self.peer = ref.RefClient(groups=[ref.X25519], extra=[(45, v8(b'\1')), PSK])
        self.raw = self.peer.hello_raw()

    def build_ch2(self):
        self._server()
        self.peer = ref.RefClient(suites=[ref.CHACHA], groups=[ref.P256, ref.X25519],
                                  shares=[ref.P256], sid=b'id')
        need(self.dut.rx(self.peer.hello()), 'the first hello was refused')
        self.peer.feed(self.dut.tx())
        self.raw = self.peer.hello_raw(share_groups=[ref.X25519])

    def build_cfin(self):
        self._server()
        self.peer = ref.RefClient(suites=[ref.CHACHA], groups=[ref.X25519])
        need(self.dut.rx(self.peer.hello()), 'the hello was refused')
        self.peer.feed(self.dut.tx())
        self.raw = self.peer.finished_raw()
        self.wrap = lambda raw: self.peer.send(HANDSHAKE, raw)

    def build_cconn(self):
        """ post-handshake """
        self.build_cfin()
        need(self.dut.rx(self.peer.finished(self.raw)), 'the finished was refused')
        self.raw = hs(24, b'\0')

    # -- client -------------------------------------------------------
    def _client(self, until, status=False, raw=False, shares=(ref.X25519, ref.P256), **kw):
        key, chain = pki.leaf('ed25519')
        self.dut = impl.Impl.client(cipher_suites=impl.suites([ref.CHACHA]),
                                    key_exchanges=impl.groups(shares), **kw).start()
        self.peer = p = ref.RefServer(key, chain, suite=ref.CHACHA,
                                      group=ref.X25519, ee=self.EE,
                                      raw_key=raw)
        if raw:
            p.chain = [key.public_key()]
        if status:
            root = pki.root()
            p.chain = [*chain, root.cert] if root.cert not in chain else chain
            p.cert_extensions = {0: [(5, b'\1' + v24(status)), (0x3a3a, b'x')]}
        p.feed(self.dut.tx())
        self.wrap = lambda raw: p.send(HANDSHAKE, raw)
        order = ['sh', 'ee', 'cert', 'cv', 'fin', 'conn']
        for name in order[:order.index(until)]:
            raw = getattr(p, name + '_raw')()
            if name == 'fin':
                data = p.fin(raw)
            elif name == 'sh':
                data = p.sh(raw)
            else:
                data = p.send_hs(raw)
            need(self.dut.rx(data), lambda: f'honest {name} refused: {self.dut.error!r}')
        if until != 'conn':
            self.raw = getattr(p, until + '_raw')()

    EE = [(0, b''), (10, v16(b'\0\x1d\0\x17')), (16, v16(v8(b'h2'))), (1, b'\2')]

    def build_sh(self): self._client('sh')

    def build_hrr(self):
        self._client('sh')
        self.raw = self.peer.hrr_raw(ref.P256, cookie=b'cookie' * 3)

    def build_sh2(self):
        self._client('sh')
        need(self.dut.rx(self.peer.hrr(ref.P256)), 'honest retry refused')
        self.peer.feed(self.dut.tx())
        self.peer.want_group = ref.P256
        self.raw = self.peer.sh_raw()

    def build_ee(self):
        self._client('ee', alpn=[impl.ALPNProtocol('h2')], max_fragment_length=1024)

    def build_certreq(self):
        self.EE = []
        self._client('cert')
        self.raw = hs(13, v8(b'ctx') + ref.exts([
            ref.x_sigalgs(ref.ALL_SIGALGS), (47, v16(v16(b'dn'))), (18, b''),
            (48, v16(v8(b'\x55\x1d\x0f') + v16(b'\3\2\7\x80'))), (0x4a4a, b'x'),
            (5, b'\1' + v16(b'') + v16(b''))]))

    def build_cert(self):
        self.EE = []
        root, (_, chain) = pki.root(), pki.leaf('ed25519')
        self._client('cert', status=root.ocsp(chain[0]))

    def build_cert_open(self):
        """ nobody verifies the certificate, but its key is used """
        self.EE = []
        self._client('cert', trust=False)
        self.then = lambda: self.peer.send(HANDSHAKE, self.peer.cv_raw())

    def build_rpk(self):
        key, _ = pki.leaf('ed25519')
        self.EE = [(ref.X_SCT, b'\2')]
        self._client('cert', raw=True, trust=False, trusted_public_keys=[key.public_key()])
        self.then = lambda: self.peer.send(HANDSHAKE, self.peer.cv_raw())

    def build_cv(self):
        self.EE = []
        self._client('cv')

    def build_sfin(self):
        self.EE = []
        self._client('fin')

    def build_ticket(self):
        self.EE = []
        self._client('conn')
        self.raw = hs(4, b'\0\1\0\0' + b'\1\2\3\4' + v8(b'nonce') + v16(b'ticket' * 8)
                      + ref.exts([(42, u24(0) + b'\x40'), (0x5a5a, b'zz')]))


SUBJECTS = {'ch_min': 'server', 'ch_rich': 'server', 'ch_psk': 'server', 'ch2': 'server',
            'cfin': 'server', 'cconn': 'server',
            'sh': 'client', 'hrr': 'client', 'sh2': 'client', 'ee': 'client', 'certreq': 'client',
            'cert': 'client', 'cert_open': 'client', 'rpk': 'client', 'cv': 'client', 'sfin': 'client', 'ticket': 'client'}


def flip_values(byte, tier, name=''):
    if tier == 'quick':
        return [byte ^ 1, byte ^ 0x80]
    if name.startswith(('cert', 'rpk')):
        return [*(byte ^ 1 << i for i in range(8)), byte ^ 0xff]
    return [v for v in range(256) if v != byte]


class Field:
    """ a vector of the message: [at, at + width) its length, [start, end) its content """
    def __init__(self, raw, at, width):
        self.at, self.width = at, width
        self.start = at + width
        self.n = int.from_bytes(raw[at:at + width], 'big')
        self.end = self.start + self.n


def fields(raw):
    return [Field(raw, at, width) for at, width in grammar.analyse(raw)[1]]


def splice(raw, field, content):
    """ replace the content of a vector, every enclosing length being corrected """
    delta = len(content) - field.n
    new = bytearray(raw[:field.start] + content + raw[field.end:])
    for f in fields(raw):
        if f.at == field.at or (f.start <= field.at and f.end >= field.end):
            n = f.n + delta
            if not 0 <= n < 1 << 8 * f.width:
                return None
            new[f.at:f.start] = n.to_bytes(f.width, 'big')
    return bytes(new)


def fix(raw):
    return raw[:1] + u24(len(raw) - 4) + raw[4:]


class Substitutions:
    """ every value of every byte, computed on demand """
    def __init__(self, raw, per, tier, name):
        self.raw, self.per, self.tier, self.name = raw, per, tier, name
    def __len__(self):
        return (len(self.raw) - 4) * self.per
    def __getitem__(self, i):
        at, v = 4 + i // self.per, i % self.per
        v = flip_values(self.raw[at], self.tier, self.name)[v]
        return f'{at}={v}', lambda: self.raw[:at] + bytes([v]) + self.raw[at + 1:]


def mutations(kind, raw, tier, name=''):
    """ every mutation of one kind: list of (name, bytes or None) """
    out = []
    if kind == 'trunc':
        for k in range(4, len(raw)):
            out.append((k, lambda k=k: fix(raw[:k])))
    elif kind == 'grow':
        for tail in (b'\0', b'\xff', b'\0\0', b'\0\0\0\0', bytes(64), raw):
            out.append((tail.hex()[:8], lambda t=tail: fix(raw + t)))
        for f in fields(raw)[1:]:
            for tail in (b'\0', b'\xff\xff'):
                out.append((f'{f.at}+{len(tail)}', lambda f=f, t=tail: splice(
                    raw, f, raw[f.start:f.end] + t)))
    elif kind == 'len':
        for f in fields(raw)[1:]:
            top = (1 << 8 * f.width) - 1
            for v in sorted({0, 1, f.n - 1, f.n + 1, f.n + 2, f.n ^ 0x80, f.n // 2, top} - {f.n}):
                if 0 <= v <= top:
                    out.append((f'{f.at}={v}', lambda f=f, v=v: raw[:f.at]
                                + v.to_bytes(f.width, 'big') + raw[f.start:]))
    elif kind == 'cut':
        for f in fields(raw)[1:]:
            ks = range(f.n)
            if f.n > 100:
                ks = [*range(40), *range(f.n - 8, f.n)]
            for k in ks:
                out.append((f'{f.at}:{k}', lambda f=f, k=k: splice(
                    raw, f, raw[f.start:f.start + k])))
                if k:
                    out.append((f'{f.at}:-{k}', lambda f=f, k=k: splice(
                        raw, f, raw[f.start + k:f.end])))
    elif kind == 'subst':
        return Substitutions(raw, len(flip_values(0, tier, name)), tier, name)
    elif kind == 'del':
        for i in range(4, len(raw)):
            out.append((i, lambda i=i: fix(raw[:i] + raw[i + 1:])))
    elif kind == 'ins':
        for i in range(4, len(raw) + 1):
            for v in (0, 0xff):
                out.append((f'{i}+{v}', lambda i=i, v=v: fix(raw[:i] + bytes([v]) + raw[i:])))
    elif kind == 'ext':
        for fs in ext_lists(raw):
            block, items = fs
            for i, item in enumerate(items):
                rest = items[:i] + items[i + 1:]
                variants = [items + [item], items + [item[:4] + item[4:]],
                            items[:i] + [item] + items[i:], rest,
                            rest + [item[:2] + b'\0\0'],
                            items + [item[:2] + v16(item[4:] + b'\0')],
                            items + [item[:2] + b'\0\0'],
                            items + [item[:2] + v16(b'\xff' * 64)],
                            [*reversed(items)]]
                for j, v in enumerate(variants):
                    out.append((f'{block.at}/{i}/{j}', lambda b=block, v=v: splice(
                        raw, b, b''.join(v))))
    elif kind == 'repeat':
        # an item twice in its list, with 0 to 2 bytes of type before its length
        fs = fields(raw)
        for f in fs[1:]:
            around = [g for g in fs if g is not f and g.start <= f.at and g.end >= f.end]
            for k, changed in itertools.product(range(3), (0, 1)):
                inside = [g for g in around if g.start <= f.at - k]
                if not inside or changed and not f.n:
                    continue
                g = min(inside, key=lambda g: g.n)
                copy = raw[f.at - k:f.end - changed]
                if changed:
                    copy += bytes([raw[f.end - 1] ^ 1])
                out.append((f'{f.at}-{k}~{changed}', lambda f=f, g=g, copy=copy: splice(
                    raw, g, raw[g.start:f.end] + copy + raw[f.end:g.end])))
    elif kind == 'foreign':
        for block, items in ext_lists(raw):
            have = {int.from_bytes(i[:2], 'big') for i in items}
            for t in sorted(grammar.KNOWN_EXTS | {0x3a3a}):
                if t in have:
                    continue
                bodies = {b''} | {table[t].encode(v) for table in grammar.ALLOWED_EXTS.values()
                                  if t in table for v in table[t].domain()[:3]}
                for j, b in enumerate(sorted(bodies)):
                    for k, at in enumerate({0: 0, len(items): 0}):
                        out.append((f'{block.at}/{t}/{j}/{k}', lambda b=block, at=at, x=u16(t)
                                    + v16(b), i=items: splice(raw, b, b''.join(
                                        [*i[:at], x, *i[at:]]))))
    elif kind == 'head':
        n = len(raw) - 4
        for v in sorted({0, 1, n // 2, n - 1, n + 1, n + 2, n + 0x100, 0xffffff} - {n, -1}):
            if v >= 0:
                out.append((f'length={v}', lambda v=v: raw[:1] + u24(v) + raw[4:]))
        for t in range(256):
            if t != raw[0]:
                out.append((f'type={t}', lambda t=t: u8(t) + raw[1:]))
    return out


def ext_lists(raw):
    """ the extension blocks of a message: [(Field, [extension bytes])] """
    out = []
    for f in fields(raw)[1:]:
        if f.width != 2 or f.n < 4:
            continue
        items, p = [], f.start
        while p + 4 <= f.end:
            n = int.from_bytes(raw[p + 2:p + 4], 'big')
            items.append(raw[p:p + 4 + n])
            p += 4 + n
        if p == f.end and all(any(g.at == f.start + sum(map(len, items[:i])) + 2
                                  for g in fields(raw)) for i in range(len(items))):
            out.append((f, items))
    return out


STUBS = (5, 24)           # end of early data and key update are not implemented

RECORD_STAGES = ['ch_min', 'ch2', 'cfin', 'cconn', 'sh', 'sh2', 'ee', 'cert', 'sfin', 'ticket']
BIG = {
    'ch': ['ext_same', 'ext_distinct', 'suites', 'groups', 'sigalgs', 'versions_many', 'alpn',
           'names', 'names_idn', 'shares_unknown', 'shares_same', 'psk', 'cookie', 'padding',
           'ca', 'ocsp_ids', 'srtp', 'long_name', 'dots'],
    'client': ['ee_ext_same', 'ee_groups', 'cert_many', 'cert_ext', 'cert_garbage', 'hrr_cookie',
               'certreq_ca', 'ticket_ext', 'ticket_many', 'fragments', 'ocsp_big'],
}


def cases(tier):
    quick = tier == 'quick'
    for who, names in BIG.items():
        for name in names:
            yield [who, 'big', name, 0, tier]
    for who in ('server', 'client'):
        for name in ('ccs', 'cancel', 'empty', 'fragments', 'tickets', 'bytes'):
            if name != 'tickets' or who == 'client':
                yield [who, 'flood', name, 0, tier]
    for name in SUBJECTS:
        s = Subject(name)
        for kind in ('head', 'trunc', 'grow', 'len', 'cut', 'ext', 'repeat', 'foreign', 'del', 'ins', 'subst'):
            count = len(mutations(kind, s.raw, 'quick'))
            step = STEP[kind] * (8 if kind != 'subst' or quick else 1)
            if kind == 'subst' and quick and name in ('cert', 'cert_open'):
                count = min(count, 1500)
            for lo in range(0, count, step):
                yield [name, kind, lo, lo + step, tier]
        yield [name, 'heartbeats', 0, 0, tier]
    for name in RECORD_STAGES:
        for lo in range(0, 256, 16):
            yield [name, 'records', lo, lo + 16, tier]


def close(s, what):
    """ Whatever the outcome, the connection is either alive and coherent or dead. """
    if s.dut.error is not None:
        from siotls.contents import alerts
        need(isinstance(s.dut.error, alerts.TLSFatalAlert),
             lambda: f'{what}: not a fatal alert: {s.dut.error!r}')
        s.dut.tx()
        s.dut.assert_dead(what, [b'\x16\3\3\0\1\0'])


def judge(s, what, raw, verdict, obs, name):
    error = s.dut.error
    if verdict is True and (why := grammar.forbidden(raw)):
        need(error is not None,
             lambda: f'{what}: accepted in spite of {why}: {raw.hex()[:400]}')
    if verdict is False:
        need(error is not None, f'{what}: a malformed message was accepted: {raw.hex()[:400]}')
    if error is not None and raw[0] not in STUBS:
        need(s.dut.alert is not None, lambda: f'{what}: {error!r}: {raw.hex()[:400]}')
        if True:
            need(s.dut.alert != ref.ALERTS['internal_error'],
                 lambda: f'{what}: internal error {error!r}: {raw.hex()[:400]}')
    if raw[0] in STUBS:
        s.dut.tx()
        s.dut.assert_dead(what) if error is not None else None
    else:
        close(s, what)
    obs.step()
    obs.state(name, verdict, s.dut.alert, len(raw))
    obs.outcome(f'{name}/{verdict}/{s.dut.alert}')


def run(case, obs):
    name, kind, lo, hi, tier = case
    if kind == 'records':
        return run_records(name, lo, hi, obs, tier)
    if kind == 'heartbeats':
        return run_heartbeats(name, obs, tier)
    if kind == 'flood':
        return run_flood(name, lo, obs)
    if kind == 'big':
        return run_big(name, lo, obs)
    # the position means the same whatever the random content of the message
    if kind == 'subst':
        per = len(flip_values(0, tier, name))
        lo, hi = lo // 2 * per, hi // 2 * per
    for i in range(lo, hi):
        s = Subject(name)
        todo = mutations(kind, s.raw, tier, name)
        if i >= len(todo):
            break
        label, make = todo[i]
        raw = make()
        if raw is None or raw == s.raw:
            continue
        what = f'{SUBJECTS[name]} received {name} mutated by {kind} {label}'
        if kind == 'head' and str(label).startswith('length'):
            header(s, what, raw, obs, name)
            continue
        verdict, _ = grammar.analyse(raw)
        t = time.process_time()
        s.dut.rx(s.wrap(raw) if len(raw) <= 2**14 else b''.join(
            s.wrap(raw[i:i + 2**14]) for i in range(0, len(raw), 2**14)))
        need(time.process_time() - t < CPU, f'{what}: took too long')
        if s.dut.error is None and s.raw[0] == raw[0] and verdict is True:
            if hasattr(s, 'then'):
                s.dut.rx(s.then())
        judge(s, what, raw, verdict, obs, name)
    obs.trace()


def header(s, what, raw, obs, name):
    """ The length of the message itself lies: what follows can not save the connection. """
    n = int.from_bytes(raw[1:4], 'big')
    s.dut.rx(s.wrap(raw))
    if n >= len(raw) - 4:
        need(s.dut.error is None or s.dut.alert != ref.ALERTS['internal_error'],
             lambda: f'{what}: internal error {s.dut.error!r}')
        # the message is incomplete and must not be processed; a record of another type is refused
        need(s.dut.error is not None or not s.dut.tx(), f'{what}: an incomplete message was '
                                                        f'processed')
        if s.dut.error is None:
            s.dut.rx(s.peer.send(ALERT, b'\1\x5a'))
    need(s.dut.error is not None, f'{what}: did not fail')
    need(s.dut.alert is not None, lambda: f'{what}: {s.dut.error!r}')
    close(s, what)
    obs.step()
    obs.outcome(f'{name}/head/{s.dut.alert}')


def run_records(name, lo, hi, obs, tier):
    sizes = [0, 2, 5, 17] if tier == 'quick' else [0, 1, 2, 3, 4, 5, 16, 17, 18, 100]
    for ctype in range(lo, hi):
        for fill in (1,) if tier == 'quick' else (0, 1, 0xff):
            for n in sizes:
                for protect in (False, True):
                    s = Subject(name)
                    frag = bytes([fill]) * n
                    if protect and not s.peer.tx:
                        continue
                    what = f'{name}: {"protected " * protect}record type {ctype} of {n} bytes {fill}'
                    if protect:
                        data = s.peer.tx.seal(ctype, frag)
                    else:
                        data = rec(ctype, frag)
                    s.dut.rx(data)
                    need(not s.dut.connected or name in ('cconn', 'ticket'),
                         f'{what}: connected')
                    if s.dut.error is not None:
                        need(s.dut.alert is not None, lambda: f'{what}: {s.dut.error!r}')
                        need(s.dut.alert != ref.ALERTS['internal_error']
                             or ctype == HANDSHAKE, lambda: f'{what}: {s.dut.error!r}')
                    elif ctype not in (20, HANDSHAKE, ALERT) and not (
                            ctype == APPDATA and protect and name in ('cconn', 'ticket')):
                        need(ctype == 24 and protect, f'{what}: not refused')
                    close(s, what)
                    obs.step()
                    obs.outcome(f'{name}/record/{s.dut.alert}')
    obs.trace()


def run_heartbeats(name, obs, tier):
    """ RFC 6520: whatever a heartbeat claims, nothing but its payload ever comes back. """
    for kind in range(256) if tier == 'thorough' else (0, 1, 2, 3, 255):
        for claim in (0, 1, 4, 5, 20, 255, 16381, 65535, None):
            for payload in (b'', b'ping', b'ping' + bytes(15), b'ping' + bytes(16)):
                s = Subject(name)
                frag = bytes([kind]) + (u16(claim) + payload if claim is not None else b'')
                size = claim if claim is not None else 2**16
                legal = kind in (1, 2) and size <= len(payload)
                what = f'{name}: heartbeat of type {kind}, {claim} bytes announced, {len(payload)} sent'
                s.dut.rx(s.peer.send(24, frag))
                events = len(s.peer.events)
                s.peer.feed(s.dut.tx())
                for ctype, fragment, *_ in s.peer.events[events:]:
                    if ctype == 24:
                        echo = bytes(fragment)
                        need(kind == 1 and legal and echo[:3 + size] == b'\2' + u16(size)
                             + payload[:size], f'{what}: answered with {echo}')
                if s.dut.error is not None and not legal:
                    need(s.dut.alert not in (None, ref.ALERTS['internal_error']),
                         lambda: f'{what}: {s.dut.error!r}')
                need(not s.dut.read, f'{what}: data appeared')
                if s.dut.error is not None:
                    s.dut.assert_dead(what, [b'\x16\3\3\0\1\0'])
                obs.step()
                obs.state(name, 'heartbeat', kind, claim, len(payload))
                obs.outcome(f'{name}/heartbeat/{s.dut.alert}')
    obs.trace()


def fill(item, size=65000):
    if callable(item):
        out, i = [], 0
        total = 0
        while total < size:
            out.append(item(i)); total += len(out[-1]); i += 1
        return b''.join(out)
    return item * (size // len(item))


def run_flood(who, name, obs):
    """ Megabytes of legal records in a single call: the time must stay proportional. """
    late = name in ('empty', 'tickets', 'bytes')
    s = Subject({'server': 'cconn' if late else 'ch_rich',
                 'client': 'ticket' if late else 'hrr'}[who])
    if late:
        if who == 'server':
            s.peer.use_app_keys()
        content = {'empty': (APPDATA, b''), 'bytes': (APPDATA, b'x'), 'tickets': (HANDSHAKE, s.raw)}
        data = b''.join(s.peer.send(*content[name]) for _ in range(20000))
    elif name == 'fragments':           # a message that never ends, of a type that is due
        raw = s.raw[:1] + (8 << 20).to_bytes(3, 'big') + bytes((8 << 20) - 100)
        data = b''.join(rec(HANDSHAKE, raw[i:i + 50]) for i in range(0, len(raw), 50))
    else:
        record = {'ccs': b'\x14\3\3\0\1\1', 'cancel': b'\x15\3\3\0\2\1\x5a'}[name]
        data = record * ({'ccs': 3 << 20, 'cancel': 2 << 20}[name] // len(record))
    t = time.process_time()
    ok = s.dut.rx(data)
    spent = time.process_time() - t
    what = f'{who}: {len(data)} bytes of {name} records'
    need(spent < FLOOD_CPU, f'{what}: {spent:.1f} s of processor time')
    if name != 'fragments':         # that one may also be refused
        need(ok and s.dut.error is None, lambda: f'{what}: {s.dut.error!r}')
    if late:
        need(s.dut.read == b'x' * (20000 * (name == 'bytes')), f'{what}: wrong data delivered')
    close(s, what)
    obs.step()
    obs.trace()
    obs.outcome(f'flood/{name}')


def run_big(who, name, obs):
    """ Messages as big as the format allows: the time must stay proportional. """
    if who == 'ch':
        s = Subject('ch_rich')
        extra = {
            'ext_same': lambda: [(0x3333, b'')] * 16000,
            'ext_distinct': lambda: [(0x4000 + i, b'') for i in range(16000)],
            'versions_many': lambda: [(43, v8(b'\3\3' * 120 + b'\3\4'))],
            'groups': lambda: [(10, v16(fill(lambda i: u16(0x2000 + i % 4000))))],
            'sigalgs': lambda: [(50, v16(fill(lambda i: u16(0x2000 + i % 4000))))],
            'alpn': lambda: [(16, v16(fill(lambda i: v8(u16(i)))))],
            'names': lambda: [(0, v16(fill(b'\0' + v16(b'a'))))],
            'names_idn': lambda: [(0, v16(fill(b'\0' + v16(b'xn--\xff'))))],
            'long_name': lambda: [(0, v16(b'\0' + v16(b'xn--' + b'a' * 60000)))],
            'dots': lambda: [(0, v16(b'\0' + v16(b'a.' * 30000)))],
            'shares_unknown': lambda: [(51, v16(fill(lambda i: u16(0x3000 + i % 9000) + v16(b'k'))))],
            'shares_same': lambda: [(51, v16(fill(u16(ref.X25519) + v16(b'k' * 32))))],
            'psk': lambda: [(45, v8(b'\1')), (41, v16(fill(v16(b'i') + bytes(4), 30000))
                                             + v16(fill(v8(bytes(32)), 30000)))],
            'cookie': lambda: [(44, v16(b'c' * 60000))],
            'padding': lambda: [(21, bytes(60000))],
            'ca': lambda: [(47, v16(fill(v16(b'c'))))],
            'ocsp_ids': lambda: [(5, b'\1' + v16(fill(v16(b'c'))) + v16(b''))],
            'srtp': lambda: [(14, v16(fill(b'\0\1')) + v8(b''))],
            'suites': lambda: [],
        }[name]()
        kinds = {t for t, _ in extra}
        base = [(t, d) for t, d in [(43, v8(b'\3\4')), ref.x_sigalgs(ref.ALL_SIGALGS),
                                    ref.x_groups([ref.X25519]),
                                    ref.x_shares([(ref.X25519, ref.Share(ref.X25519).pub)])]
                if t not in kinds]
        suites = [ref.CHACHA]
        if name == 'suites':
            suites = [0x5000 + i % 5000 for i in range(32000)] + suites
        raw = ref.client_hello(bytes(32), suites, base + extra)
        raws = [raw]
    else:
        pad = [(0x4000 + i, b'') for i in range(16000)]
        same = [(0x3333, b'')] * 16000
        der = pki.leaf('ed25519')[1][0]
        from cryptography.hazmat.primitives.serialization import Encoding
        der = der.public_bytes(Encoding.DER)
        s = Subject({'ee': 'ee', 'cert': 'cert', 'certreq': 'certreq', 'ticket': 'ticket',
                     'hrr': 'hrr', 'fragments': 'cert', 'ocsp': 'cert'}[name.split('_')[0]])
        raws = {
            'ee_ext_same': lambda: [hs(8, ref.exts(same))],
            'ee_groups': lambda: [hs(8, ref.exts([(10, v16(fill(u16(0x2222))))]))],
            'cert_many': lambda: [hs(11, v8(b'') + v24(fill(v24(der) + v16(b''), 300000)))],
            'cert_ext': lambda: [hs(11, v8(b'') + v24(v24(der) + ref.exts(pad)))],
            'cert_garbage': lambda: [hs(11, v8(b'') + v24(fill(v24(b'g') + v16(b''), 300000)))],
            'hrr_cookie': lambda: [s.peer.hrr_raw(ref.P256, cookie=b'c' * 65000)],
            'certreq_ca': lambda: [hs(13, v8(b'') + ref.exts([
                ref.x_sigalgs(ref.ALL_SIGALGS), (47, v16(fill(v16(b'c'), 60000)))]))],
            'ticket_ext': lambda: [hs(4, bytes(8) + v8(b'') + v16(b't') + ref.exts(pad))],
            'ticket_many': lambda: [s.raw] * 2000,
            'fragments': lambda: [hs(11, v8(b'') + v24(v24(b'\x30\x82' + bytes(60000)) + v16(b'')))],
            'ocsp_big': lambda: [hs(11, v8(b'') + v24(v24(der) + ref.exts(
                [(5, b'\1' + v24(b'\x30\x82' + b'\x30' * 60000))])))],
        }[name]()
    chunk = 11 if name == 'fragments' else 2**14
    data = [s.wrap(raw[i:i + chunk]) for raw in raws for i in range(0, len(raw), chunk)]
    t = time.process_time()
    for d in data:
        if not s.dut.rx(d):
            break
    spent = time.process_time() - t
    what = f'{who} {name}: {sum(map(len, raws))} bytes'
    need(spent < CPU, f'{what}: {spent:.1f} s of processor time')
    if s.dut.error is not None:
        need(s.dut.alert not in (None, ref.ALERTS['internal_error']),
             lambda: f'{what}: {s.dut.error!r}'[:500])
    close(s, what)
    obs.step(len(data))
    obs.trace()
    obs.outcome(f'{name}/big/{s.dut.alert}')

"""
C16: every message of a bounded domain is encoded by mc/grammar.py (an encoder written from the
RFCs), parsed by siotls, compared field by field, serialized again, and built from scratch.
"""
import itertools
from types import SimpleNamespace

from .. import grammar as G
from .. import impl, pki, ref
from ..engine import need

from siotls.configuration import TLSNegotiatedConfiguration
from siotls.contents import Content, alerts
from siotls.contents import handshakes as H
from siotls.contents.handshakes import extensions as X
from siotls.contents.handshakes.certificate import X509, RawPublicKey
from siotls.contents.handshakes.extensions.early_data import NewSessionEarlyData
from siotls import iana
from siotls.serial import SerialIO
from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat

PROP = 'C16'
ASSUMPTIONS = ['protocol names that are not printable ASCII (GREASE) are dropped by design, and '
               'unknown kinds of server names and certificate statuses refused, so they are not '
               'part of the domain']

HOSTS = [(b'a', 'a'), (b'siotls.test', 'siotls.test'), (b'xn--bcher-kva.example', 'b\xfccher.example'),
         (b'.'.join([b'l' * 60] * 4), '.'.join(['l' * 60] * 4))]
HOST = dict(HOSTS)
PAIRS16 = lambda ints: [(i >> 8, i & 255) for i in ints]
ints = lambda seq: [int(i) for i in seq]


def entry(cls, make, read, domain=None, sort=None):
    return SimpleNamespace(cls=cls, make=make, read=read, domain=domain)


def one(field, cls, conv=lambda v: v, back=lambda v: v, domain=None):
    return entry(cls, lambda v: cls(conv(v)), lambda o: back(getattr(o, field)), domain)


def empty(cls):
    return entry(cls, lambda v: cls(), lambda o: ())


# opaque means that these are nothing special
EDGES = [b' edge ', b'\n', b'\r\n\t', b'\0x\0', b'\x0b\x0c', bytes(range(250)), b'\xff\xfe', b'{}%s\\',
         'ß€'.encode(), b'\x14\x03\x03\0\1\1', b'AAAA==']
SRTP = entry(X.UseSRTP, lambda v: X.UseSRTP(PAIRS16(v[0]), v[1]),
             lambda o: ([(a << 8) + b for a, b in o.protection_profiles], o.mki),
             [*G.CH_EXTS[14].domain(), *(([1, 2], e) for e in EDGES)])
MFL = entry(X.MaxFragmentLength, lambda v: X.MaxFragmentLength(octets=256 << v),
            lambda o: (o.octets == 256 << o.code) and int(o.code))
HB = one('mode', X.Heartbeat, iana.HeartbeatMode, int)
ALPN_NAMES = [[p] for p in (b'h2', b'http/1.1', b'zz-unknown', b'x' * 255, b' ', b'~')] + \
    [[b'h2', b'http/1.1'], [b'http/1.1', b'h2'], [b'a', b'b', b'a'], [b'p%d' % i for i in range(40)]]
ALPN = one('protocol_name_list', X.ALPN, lambda v: [p.decode() for p in v],
           lambda v: [str(p).encode() for p in v], ALPN_NAMES)
GROUPS = one('named_group_list', X.SupportedGroups, back=ints)
SCHEMES = one('supported_signature_algorithms', X.SignatureAlgorithms, back=ints)
SCHEMES_CERT = one('supported_signature_algorithms', X.SignatureAlgorithmsCert, back=ints)
CAS = one('autorities', X.CertificateAuthorities)
OCSP_REQ = entry(X.OCSPStatusRequest, lambda v: X.OCSPStatusRequest(*v),
                 lambda o: (o.responder_id_list, o.request_extensions),
                 # every list with every extension block
                 [(l, b) for l in ([], [b'\0'], [b'id' * 128], [b'a', b'bc'], [b'x'] * 3)
                  for b in (b'', b'\0', b'e' * 300, b' \n', b'\0e\0')])
COOKIE = one('cookie', X.Cookie, domain=[b'\0', b'cookie' * 40, bytes(40000), *EDGES])
BIG_LISTS = [[0x0a0a + i for i in range(200)], [0x1d] * 2]


def dom(t, table, limit=None):
    e = SPEC[table].get(t)
    if e is not None and e.domain is not None:
        return e.domain
    if t in G_TABLE[table]:
        g = G_TABLE[table][t]
        out = list(g.domain()) or [()]
        if g is G.SIGALGS or t == 10:
            out = out + BIG_LISTS
        return out
    return UNKNOWN_DATA


UNKNOWN_DATA = [b'', b'\0', bytes(range(256)), b'\xff' * 1000, *EDGES]
UNKNOWN_TYPES = [0x0a0a, 27, 57, 0xff01, 0xffff, 2, 3, 4]

SPEC = {
    'client_hello': {
        0: entry(X.ServerNameListRequest,
                 lambda v: X.ServerNameListRequest([X.HostName(HOST[h]) for h in v]),
                 lambda o: [k for k, s in HOSTS if s == o.host_name.host_name and len(o.server_names) == 1],
                 [[h] for h, _ in HOSTS]),
        1: MFL, 5: OCSP_REQ, 10: GROUPS, 13: SCHEMES, 14: SRTP, 15: HB, 16: ALPN,
        18: empty(X.SignedCertificateTimestamp),
        19: one('certificate_types', X.ClientCertificateTypeRequest, back=ints),
        20: one('certificate_types', X.ServerCertificateTypeRequest, back=ints),
        21: one('zeros_count', X.Padding, len, bytes, [b'', b'\0', bytes(300), bytes(17)]),
        41: entry(X.PreSharedKeyRequest,
                  lambda v: X.PreSharedKeyRequest(
                      [SimpleNamespace(identity=i, obfuscated_ticket_age=a) for i, a in v[0]], v[1]),
                  lambda o: ([(p.identity, p.obfuscated_ticket_age) for p in o.identities], o.binders),
                  [*G.CH_EXTS[41].domain(),
                   *(([(e, i)], [(e * 32)[:32 + i]]) for i, e in enumerate(EDGES))]),
        42: empty(X.EarlyData), 43: one('versions', X.SupportedVersionsRequest, back=ints),
        44: COOKIE, 45: one('ke_modes', X.PskKeyExchangeModes, back=ints,
                            domain=[[0], [1], [0, 1], [1, 0], [0x0b, 1, 255]]),
        47: CAS, 49: empty(X.PostHandshakeAuth), 50: SCHEMES_CERT,
        51: entry(X.KeyShareRequest, lambda v: X.KeyShareRequest(dict(v)),
                  lambda o: [(int(g), s) for g, s in o.client_shares.items()],
                  [[], [(0x1d, bytes(32))], [(0x0a0a, b'\0')], [(0x17, b'\4' * 65), (0x1d, b'k' * 32)],
                   [(0x1d, b'k' * 32), (0x17, b'\4' * 65), (0x0100, b'f' * 256)], [(0xffff, b'z' * 2000)],
                   *([(0x1d, e), (0x17, e[::-1])] for e in EDGES)]),
    },
    'server_hello': {
        41: one('selected_identity', X.PreSharedKeyResponse),
        43: one('selected_version', X.SupportedVersionsResponse, iana.TLSVersion, int),
        51: entry(X.KeyShareResponse, lambda v: X.KeyShareResponse(*v),
                  lambda o: (int(o.group), o.key_exchange),
                  [(g, s) for g in (0x1d, 0x17, 0x18, 0x19, 0x1e, 0x100, 0x104)
                   for s in (b'\0', bytes(range(32)), b'\xff' * 1024, *EDGES)]),
    },
    'retry': {
        43: one('selected_version', X.SupportedVersionsResponse, iana.TLSVersion, int),
        44: COOKIE,
        51: one('selected_group', X.KeyShareRetry, iana.NamedGroup, int,
                [0x1d, 0x17, 0x18, 0x19, 0x1e, 0x100, 0x101, 0x102, 0x103, 0x104]),
    },
    'encrypted_extensions': {
        0: empty(X.ServerNameResponse), 1: MFL, 10: GROUPS, 14: SRTP, 15: HB, 16: ALPN,
        19: one('certificate_type', X.ClientCertificateTypeResponse, iana.CertificateType, int, [0, 1, 2, 3]),
        20: one('certificate_type', X.ServerCertificateTypeResponse, iana.CertificateType, int, [0, 1, 2, 3]),
        42: empty(X.EarlyData),
    },
    'certificate_request': {
        13: SCHEMES, 18: empty(X.SignedCertificateTimestamp), 47: CAS, 50: SCHEMES_CERT,
        48: entry(X.OIDFilters,
                  lambda v: X.OIDFilters([SimpleNamespace(certificate_extension_oid=a,
                                                          certificate_extension_values=b) for a, b in v]),
                  lambda o: [(f.certificate_extension_oid, f.certificate_extension_values) for f in o.filters]),
    },
    'ticket': {42: one('max_early_data_size', NewSessionEarlyData)},
    'certificate': {5: one('ocsp_response', X.OCSPStatus, domain=[b'\0', b'r' * 255, b'r' * 256, bytes(60000), *EDGES])},
}
G_TABLE = {'client_hello': G.CH_EXTS, 'server_hello': G.SH_EXTS, 'retry': G.HRR_EXTS,
           'encrypted_extensions': G.EE_EXTS, 'certificate_request': G.CR_EXTS,
           'ticket': G.NST_EXTS, 'certificate': G.CERT_EXTS}
RANDOM = bytes(range(100, 132))
# the extensions that must be there for the message to be valid
NEEDED = {'client_hello': {41: [(45, [1])]}, 'certificate_request': {None: [(13, [0x0403])]}}
MSG = {'client_hello': 1, 'server_hello': 2, 'retry': 2, 'ticket': 4, 'encrypted_extensions': 8,
       'certificate': 11, 'certificate_request': 13, 'certificate_verify': 15, 'finished': 20}


SIDS = [b'', b'\0', bytes(range(32)), b' sid\n', b'\0' * 32]
SUITE_LISTS = [[0x1301], [0x1303, 0x1302, 0x1301], [0x0a0a, 0xffff], [0x00ff] * 100]
BLOBS1 = [b'', b'\0', b'n' * 255, b' n\n', b'\0n\0']
BLOBS2 = [b'\0', b't' * 256, b'T' * 65535, b' t\n', b'\0t\0']
INTS4 = [0, 1, 0x01020304, 0xffffffff]
VARIANTS = {
    'client_hello': [lambda e, s=s, c=c: (0x0303, RANDOM, s, c, b'\0', e)
                     for s, c in itertools.product(SIDS, SUITE_LISTS)],
    'server_hello': [lambda e, s=s, c=c: (0x0303, RANDOM, s, c, 0, e)
                     for s, c in itertools.product(SIDS, [0x1301, 0x1302, 0x1303, 0xffff, 0])],
    'retry': [lambda e, s=s, c=c: (0x0303, ref.HRR_RANDOM, s, c, 0, e)
              for s, c in itertools.product(SIDS, [0x1301, 0x1303, 0xffff])],
    'encrypted_extensions': [lambda e: e],
    'certificate_request': [lambda e, c=c: (c, e) for c in BLOBS1],
    'ticket': [lambda e, v=v: (*v, e) for v in itertools.product(INTS4, INTS4[::-1], BLOBS1, BLOBS2)],
}
ORDERED = {m: sorted(t for t in SPEC[m]) for m in VARIANTS}


def certs():
    leaf = pki.leaf('p256')[1]
    return [leaf[0], pki.root().cert, pki.leaf('rsa')[1][0], pki.leaf('ed25519')[1][0]]


def keys():
    return [pki.key(k, 'c16').public_key() for k in pki.KEY_KINDS]


def cases(tier):
    for m in VARIANTS:
        for v in range(len(VARIANTS[m])):
            yield ['body', m, v]
        for t in ORDERED[m] + UNKNOWN_TYPES:
            for i in range(len(dom(t, m))):
                yield ['exts', m, [[t, i]]]
        for a, b in itertools.permutations(ORDERED[m] + UNKNOWN_TYPES[:2], 2):
            yield ['exts', m, [[a, 0], [b, 0]]]
        yield ['exts', m, [[t, 0] for t in ORDERED[m]]]
        yield ['exts', m, [[t, 0] for t in ORDERED[m][::-1]]]
        if tier == 'thorough':
            for ts in itertools.permutations(ORDERED[m] + UNKNOWN_TYPES[:1], 3):
                yield ['exts', m, [[t, -1] for t in ts]]
            for a, b in itertools.combinations(ORDERED[m], 2):
                for i in range(len(dom(a, m))):
                    for j in range(len(dom(b, m))):
                        yield ['exts', m, [[a, i], [b, j]]]
    for t, n in [(44, 65531), (0xffff, 65531), (21, 65531), (0x0a0a, 65532 - 20)]:
        yield ['limit', t, n]
    for ctx in range(len(BLOBS1)):
        for kind in ('x509', 'rpk'):
            for n in range(0, 4):
                for idx in itertools.product(range(4 if tier == 'quick' else 6), repeat=min(n, 2)):
                    for st in range(len(dom(5, 'certificate')) + 2):
                        yield ['certificate', ctx, kind, n, list(idx), st]
    for alg in [*SCHEME_VALUES, 0, 0x0a0a, 0xffff]:
        for n in (0, 1, 64, 255, 256, 512, 65535):
            yield ['certificate_verify', alg, n]
    for n in (0, 1, 32, 48, 64):
        yield ['finished', n]
    for level in range(256) if tier == 'thorough' else (1, 2):
        for d in range(256):
            yield ['alert', level, d]
    for n in (0, 1, 255, 256, 16384):
        yield ['app', n]
    for i in range(len(EDGES)):
        for kind in ('certificate_verify', 'finished', 'app', 'heartbeat'):
            yield ['edge', kind, i]
    yield ['ccs']
    for t in (1, 2):
        for p in (0, 1, 255, 256, 16000):
            for pad in (0, 16, 300):
                yield ['heartbeat', t, p, pad]
    for e in IANA:
        yield ['iana', e]


def parse(ctype, raw, what, ctx_type=0, side='client'):
    config = CONFIG[side]
    nconfig = TLSNegotiatedConfiguration()
    nconfig.server_certificate_type = nconfig.client_certificate_type = iana.CertificateType(ctx_type)
    stream = SerialIO(raw)
    obj = Content.get_parser(ctype).parse(stream, config=config, nconfig=nconfig)
    need(stream.tell() == len(raw), f'{what}: {stream.tell()} bytes consumed out of {len(raw)}')
    return obj


CONFIG = {}


def prepare(tier):
    certs(), keys()
    CONFIG['client'] = impl.client_config()
    CONFIG['server'] = impl.server_config()


def roundtrip(ctype, raw, what, **kw):
    obj = parse(ctype, raw, what, **kw)
    out = bytes(obj.serialize())
    need(out == bytes(obj.serialize()), lambda: f'{what}: serialized differently the second time')
    need(out == raw, lambda: f'{what}: parsed then serialized differently: {diff(raw, out)}')
    again = parse(ctype, out, what, **kw)
    return obj, again


def built(obj, raw, what):
    out = bytes(obj.serialize())
    need(out == raw, lambda: f'{what}: serialized differently than the RFC says: {diff(raw, out)}')


def diff(a, b):
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f'{len(a)} vs {len(b)} bytes, first difference at {i}: {a[i:i + 8].hex()} vs {b[i:i + 8].hex()}'


def read_exts(m, exts):
    out = []
    for t, ext in exts.items():
        need(int(ext.extension_type) == int(t), f'extension {t} stored under {ext.extension_type}')
        spec = SPEC[m].get(int(t))
        out.append((int(t), spec.read(ext) if spec else ext.extension_data))
    return out


def same_exts(m, exts, want, what):
    got = read_exts(m, exts)
    norm = lambda v: [(t, list(x) if isinstance(x, list) else x) for t, x in v]
    need(norm(got) == norm(want), lambda: f'{what}: parsed as {got!r}'[:400] + f' instead of {want!r}'[:400])


def handshake(m, value, what):
    return ref.hs(MSG[m], G.BODY[m].encode(value))


def fields(m, obj):
    """ the fields of a parsed message but its extensions, as in the grammar """
    if m == 'client_hello':
        return (int(obj.legacy_version), obj.random, obj.legacy_session_id, ints(obj.cipher_suites),
                obj.legacy_compression_methods)
    if m in ('server_hello', 'retry'):
        return (int(obj.legacy_version), obj.random, obj.legacy_session_id_echo, int(obj.cipher_suite),
                int(obj.legacy_compression_methods))
    if m == 'certificate_request':
        return (obj.certificate_request_context,)
    if m == 'ticket':
        return (obj.ticket_lifetime, obj.ticket_age_add, obj.ticket_nonce, obj.ticket)
    return ()


CLASSES = {'client_hello': H.ClientHello, 'server_hello': H.ServerHello, 'retry': H.HelloRetryRequest,
           'encrypted_extensions': H.EncryptedExtensions, 'certificate_request': H.CertificateRequest,
           'ticket': H.NewSessionTicket}


def construct(m, value, exts):
    if m == 'client_hello':
        obj = H.ClientHello(value[1], value[3], exts)
        obj.legacy_session_id = value[2]
        return obj
    if m in ('server_hello', 'retry'):
        return CLASSES[m](value[1], value[2], value[3], exts)
    if m == 'encrypted_extensions':
        return H.EncryptedExtensions(exts)
    return CLASSES[m](*value[:-1], exts)


def check_message(m, exts, variant, what):
    value = VARIANTS[m][variant](exts)
    raw = handshake(m, value, what)
    kw = {'side': 'server' if m == 'client_hello' else 'client'}
    obj, again = roundtrip(22, raw, what, **kw)
    for o in (obj, again):
        need(type(o) is CLASSES[m], f'{what}: parsed as a {type(o).__name__}')
        want = value[:-1] if m != 'encrypted_extensions' else ()
        need(fields(m, o) == want, lambda: f'{what}: parsed as {fields(m, o)!r}'[:600])
        same_exts(m, o.extensions, exts, what)
    if all(t in SPEC[m] for t, _ in exts):
        built(construct(m, value, [SPEC[m][t].make(v) for t, v in exts]), raw, what)


def with_needed(m, exts):
    have = {t for t, _ in exts}
    for t, more in NEEDED.get(m, {}).items():
        if t is None or t in have:
            exts = [e for e in more if e[0] not in have] + exts
    return exts if m != 'client_hello' else sorted(exts, key=lambda e: e[0] == 41)


def run(case, obs):
    what = f'{case}'
    obs.state(*[str(c) for c in case])
    obs.step()
    kind = case[0]
    if kind == 'body':
        m = case[1]
        check_message(m, with_needed(m, []), case[2], what)
        t = ORDERED[m][0]
        check_message(m, with_needed(m, [(t, dom(t, m)[0]), (0xffff, b'end')]),
                      case[2], what)
    elif kind == 'exts':
        m = case[1]
        check_message(m, with_needed(m, [(t, dom(t, m)[i]) for t, i in case[2]]), 0, what)
    elif kind == 'limit':
        t, n = case[1:]
        v = bytes(n - 2) if t == 44 else bytes(n)
        check_message('client_hello', [(t, v)], 0, what)
    elif kind == 'certificate':
        certificate(case, what)
    elif kind == 'certificate_verify':
        _, alg, n = case
        raw = handshake('certificate_verify', (alg, b's' * n), what)
        for o in roundtrip(22, raw, what):
            need((int(o.algorithm), o.signature) == (alg, b's' * n), f'{what}: wrong fields')
        built(H.CertificateVerify(alg, b's' * n), raw, what)
    elif kind == 'finished':
        data = bytes(range(case[1]))
        raw = handshake('finished', data, what)
        for o in roundtrip(22, raw, what):
            need(o.verify_data == data, f'{what}: wrong fields')
        built(H.Finished(data), raw, what)
    elif kind == 'alert':
        _, level, d = case
        raw = bytes([level, d])
        try:
            obj, _ = roundtrip(21, raw, what)
        except alerts.IllegalParameter:
            need(level not in (1, 2), f'{what}: refused')
        else:
            need((int(obj.level), int(obj.description)) == (level, d), f'{what}: wrong fields')
    elif kind == 'edge':
        edge(case[1], EDGES[case[2]], what)
    elif kind == 'app':
        data = bytes(case[1])
        obj, _ = roundtrip(23, data, what)
        need(obj.content_data == data, f'{what}: wrong data')
    elif kind == 'ccs':
        roundtrip(20, b'\1', what)
    elif kind == 'heartbeat':
        _, t, p, pad = case
        raw = bytes([t]) + ref.u16(p) + b'p' * p + b'.' * pad
        obj, _ = roundtrip(24, raw, what)
        need((int(obj.heartbeat_type), obj.payload, obj.padding) == (t, b'p' * p, b'.' * pad),
             f'{what}: wrong fields')
    elif kind == 'iana':
        known = {m.name: m.value for m in getattr(iana, case[1])}
        for name, value in IANA[case[1]].items():
            need(known.get(name, value) == value, f'{what}: {name} is {known.get(name)}, not {value}')
            obs.step()
        need(len(set(known.values())) == len(known), f'{what}: duplicated values')
    obs.outcome(f'{kind}/{case[1] if kind in ("body", "exts") else ""}')
    obs.trace()


def edge(kind, data, what):
    if kind == 'certificate_verify':
        raw = handshake(kind, (0x0403, data), what)
        for o in roundtrip(22, raw, what):
            need(o.signature == data, f'{what}: wrong signature')
        built(H.CertificateVerify(0x0403, data), raw, what)
    elif kind == 'finished':
        raw = handshake(kind, data, what)
        for o in roundtrip(22, raw, what):
            need(o.verify_data == data, f'{what}: wrong data')
        built(H.Finished(data), raw, what)
    elif kind == 'app':
        for o in roundtrip(23, data, what):
            need(o.content_data == data, f'{what}: wrong data')
    else:
        for t in (1, 2):
            for pad in (data, bytes(16)):
                for o in roundtrip(24, bytes([t]) + ref.u16(len(data)) + data + pad, what):
                    need((o.payload, o.padding) == (data, pad), f'{what}: wrong fields')


def certificate(case, what):
    _, ctx, kind, n, idx, st = case
    idx = (list(idx) + list(idx))[:n]
    ders, objs = [], []
    statuses = dom(5, 'certificate')
    for pos, i in enumerate(idx):
        if kind == 'x509':
            o = certs()[i % 4]
            ders.append(o.public_bytes(Encoding.DER))
        else:
            o = keys()[i]
            ders.append(o.public_bytes(Encoding.DER, PublicFormat.SubjectPublicKeyInfo))
        objs.append(o)
    exts = [[] for _ in idx]
    if idx and st < len(statuses):
        exts[0] = [(5, statuses[st])]
    elif idx and st == len(statuses):
        exts = [[(5, b'r%d' % i), (0xffff, b'')] for i in range(len(idx))]
    value = (BLOBS1[ctx], list(zip(ders, exts)))
    raw = handshake('certificate', value, what)
    for side in ('client', 'server'):
        for o in roundtrip(22, raw, what, ctx_type=0 if kind == 'x509' else 2, side=side):
            need(o.certificate_request_context == BLOBS1[ctx], f'{what}: wrong context')
            need(len(o.certificate_list) == len(idx), f'{what}: wrong number of entries')
            for e, want, x in zip(o.certificate_list, objs, exts):
                got = e.certificate if kind == 'x509' else e.public_key
                need(got == want, f'{what}: wrong certificate')
                same_exts('certificate', e.extensions, x, what)
    if st != len(statuses):
        cls = X509 if kind == 'x509' else RawPublicKey
        built(H.Certificate(BLOBS1[ctx], [cls(o, [X.OCSPStatus(v) for _, v in x])
                                          for o, x in zip(objs, exts)]), raw, what)


SCHEME_VALUES = [0x0401, 0x0501, 0x0601, 0x0403, 0x0503, 0x0603, 0x0804, 0x0805, 0x0806, 0x0807,
                 0x0808, 0x0809, 0x080a, 0x080b, 0x0201, 0x0203]
# the registries of RFC 8446, 7919, 6066, 7250, 6520 and 7301, written independently
IANA = {
    'AlertDescription': dict(
        CLOSE_NOTIFY=0, UNEXPECTED_MESSAGE=10, BAD_RECORD_MAC=20, RECORD_OVERFLOW=22,
        HANDSHAKE_FAILURE=40, BAD_CERTIFICATE=42, UNSUPPORTED_CERTIFICATE=43, CERTIFICATE_REVOKED=44,
        CERTIFICATE_EXPIRED=45, CERTIFICATE_UNKNOWN=46, ILLEGAL_PARAMETER=47, UNKNOWN_CA=48,
        ACCESS_DENIED=49, DECODE_ERROR=50, DECRYPT_ERROR=51, PROTOCOL_VERSION=70,
        INSUFFICIENT_SECURITY=71, INTERNAL_ERROR=80, INAPPROPRIATE_FALLBACK=86, USER_CANCELED=90,
        MISSING_EXTENSION=109, UNSUPPORTED_EXTENSION=110, UNRECOGNIZED_NAME=112,
        BAD_CERTIFICATE_STATUS_RESPONSE=113, UNKNOWN_PSK_IDENTITY=115, CERTIFICATE_REQUIRED=116,
        NO_APPLICATION_PROTOCOL=120),
    'AlertLevel': dict(WARNING=1, FATAL=2),
    'CertificateStatusType': dict(OCSP=1),
    'CertificateType': dict(X509=0, OPENPGP=1, RAW_PUBLIC_KEY=2, CT_1609DOT2=3),
    'CipherSuites': dict(
        TLS_EMPTY_RENEGOTIATION_INFO_SCSV=0xff, TLS_AES_128_GCM_SHA256=0x1301,
        TLS_AES_256_GCM_SHA384=0x1302, TLS_CHACHA20_POLY1305_SHA256=0x1303,
        TLS_AES_128_CCM_SHA256=0x1304, TLS_AES_128_CCM_8_SHA256=0x1305),
    'ContentType': dict(INVALID=0, CHANGE_CIPHER_SPEC=20, ALERT=21, HANDSHAKE=22,
                        APPLICATION_DATA=23, HEARTBEAT=24),
    'ExtensionType': dict(
        SERVER_NAME=0, MAX_FRAGMENT_LENGTH=1, STATUS_REQUEST=5, SUPPORTED_GROUPS=10,
        SIGNATURE_ALGORITHMS=13, USE_SRTP=14, HEARTBEAT=15,
        APPLICATION_LAYER_PROTOCOL_NEGOTIATION=16, SIGNED_CERTIFICATE_TIMESTAMP=18,
        CLIENT_CERTIFICATE_TYPE=19, SERVER_CERTIFICATE_TYPE=20, PADDING=21, PRE_SHARED_KEY=41,
        EARLY_DATA=42, SUPPORTED_VERSIONS=43, COOKIE=44, PSK_KEY_EXCHANGE_MODES=45,
        CERTIFICATE_AUTHORITIES=47, OID_FILTERS=48, POST_HANDSHAKE_AUTH=49,
        SIGNATURE_ALGORITHMS_CERT=50, KEY_SHARE=51),
    'HandshakeType': dict(
        CLIENT_HELLO=1, SERVER_HELLO=2, NEW_SESSION_TICKET=4, END_OF_EARLY_DATA=5,
        ENCRYPTED_EXTENSIONS=8, CERTIFICATE=11, CERTIFICATE_REQUEST=13, CERTIFICATE_VERIFY=15,
        FINISHED=20, KEY_UPDATE=24, MESSAGE_HASH=254),
    'HeartbeatMessageType': dict(heartbeat_request=1, heartbeat_response=2),
    'HeartbeatMode': dict(PEER_ALLOWED_TO_SEND=1, PEER_NOT_ALLOWED_TO_SEND=2),
    'MaxFragmentLengthCode': dict(MAX_512=1, MAX_1024=2, MAX_2048=3, MAX_4096=4),
    'NamedGroup': dict(secp256r1=23, secp384r1=24, secp521r1=25, x25519=29, x448=30,
                       ffdhe2048=256, ffdhe3072=257, ffdhe4096=258, ffdhe6144=259, ffdhe8192=260),
    'NameType': dict(HOST_NAME=0),
    'PskKeyExchangeMode': dict(PSK_KE=0, PSK_DHE_KE=1),
    'SignatureScheme': dict(
        rsa_pkcs1_sha256=0x0401, rsa_pkcs1_sha384=0x0501, rsa_pkcs1_sha512=0x0601,
        ecdsa_secp256r1_sha256=0x0403, ecdsa_secp384r1_sha384=0x0503, ecdsa_secp521r1_sha512=0x0603,
        rsa_pss_rsae_sha256=0x0804, rsa_pss_rsae_sha384=0x0805, rsa_pss_rsae_sha512=0x0806,
        ed25519=0x0807, ed448=0x0808, rsa_pss_pss_sha256=0x0809, rsa_pss_pss_sha384=0x080a,
        rsa_pss_pss_sha512=0x080b, rsa_pkcs1_sha1=0x0201, ecdsa_sha1=0x0203),
    'TLSVersion': dict(TLS_1_0=0x0301, TLS_1_1=0x0302, TLS_1_2=0x0303, TLS_1_3=0x0304),
}

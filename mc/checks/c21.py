""" C21: only a good, current, authentic status of the right certificate is accepted. """
import functools
import itertools

from cryptography import x509
from cryptography.exceptions import InvalidSignature
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec, padding, rsa
from cryptography.hazmat.primitives.serialization import Encoding
from cryptography.x509 import ocsp
from cryptography.x509.verification import Store

from .. import impl, pki, ref
from ..engine import need
from siotls.crypto.ocsp import make_ocsp_request, validate_ocsp

PROP = 'C21'
CHUNK = 16
NOW, DAY = pki.NOW, pki.DAY
MIN = DAY / 24 / 60
CA_KINDS = ['p256', 'p384', 'p521', 'rsa']
# expected: True accept, False refuse, None either
RESPONSE = {'successful': True, 'malformed_request': False, 'internal_error': False,
            'try_later': False, 'sig_required': False, 'unauthorized': False}
CERT = {'good': True, 'revoked': False, 'unknown': False}
SERIAL = 0x5a << 120 | 0x0123456789abcdef01234567
# those an arithmetic shortcut would mistake for it
SERIALS = {'low 96': SERIAL % 2**96, 'low 64': SERIAL % 2**64, 'low 32': SERIAL % 2**32,
           'high': SERIAL >> 8, 'shifted': SERIAL << 8, 'next': SERIAL + 1,
           'top bit': SERIAL | 1 << 150, 'low 64 same': SERIAL ^ 1 << 100,
           'low 32 same': SERIAL ^ 1 << 40, 'high same': SERIAL ^ 1}
SUBJECT = {'same': True, 'other serial': False, **dict.fromkeys(SERIALS, False), 'other issuer': False, 'other issuer key': False,
           'other issuer name': False, 'issuer itself': False, 'swapped': False}
VALID = {'now': True, 'just issued': True, 'about to expire': True, 'long': True,
         'expired': False, 'just expired': False, 'future': False, 'just future': False,
         'no expiration': False, 'inverted': False, 'years ago': False}
SIGNER = {'issuer': True, 'other key': False, 'same name other key': False, 'subject': False,
          'root': False, 'delegate': None, 'delegate without usage': False,
          'delegate of another': False}
HASH = {'sha256': True, 'sha384': True, 'sha512': True, 'sha224': None, 'sha1': None}
FORM = {'plain': True, 'by name': True, 'with certificate': True, 'nonce': True,
        'certid sha256': None, 'trailing': False, 'no signature': False, 'flipped': False,
        'relabelled': False, 'second good': False, 'second revoked': False, 'no answer': False,
        'tbs changed': False}
DIMS = {'response': RESPONSE, 'cert': CERT, 'subject': SUBJECT, 'valid': VALID, 'signer': SIGNER,
        'hash': HASH, 'form': FORM}
BASE = {'response': 'successful', 'cert': 'good', 'subject': 'same', 'valid': 'now',
        'signer': 'issuer', 'hash': 'sha256', 'form': 'plain', 'kind': 'p256', 'via': 'client'}
LINK = {'none': True, 'good': True, 'revoked': False, 'unknown': False, 'old': False,
        'other': False, 'self': False, 'garbage': False, 'empty': False, 'down': False}
AIA = {'ocsp': (x509.oid.AuthorityInformationAccessOID.OCSP, pki.OCSP_URL),
       'issuer': (x509.oid.AuthorityInformationAccessOID.CA_ISSUERS, 'http://ca.example/ca.cer'),
       'ocsp 2': (x509.oid.AuthorityInformationAccessOID.OCSP, 'http://two.example/'),
       'other': (x509.ObjectIdentifier('1.3.6.1.5.5.7.48.3'), 'http://time.example/')}
PSS = ['sha256', 'sha384', 'sha512']
VIAS = ['client', 'service', 'server', 'api']
ASSUMPTIONS = [
    'Delegated responders may be refused. Validity is checked a minute around its limits, with '
    'the clock of the machine.',
    'ECDSA, RSA and EdDSA themselves are those of pyca/cryptography.']


def cases(tier):
    def case(**kw):
        return {**BASE, **kw}
    for via in VIAS:
        kinds = CA_KINDS if via != 'api' else pki.KEY_KINDS
        for kind in kinds:
            for dim, values in DIMS.items():
                for v in values:
                    yield case(**{dim: v, 'kind': kind, 'via': via})
        pairs = itertools.combinations(DIMS.items(), 2)
        for (d1, v1), (d2, v2) in pairs:
            for a, b in itertools.product(v1, v2):
                for kind in (kinds if tier == 'thorough' else ['p256']):
                    yield case(**{d1: a, d2: b, 'via': via, 'kind': kind})
    for kind in pki.KEY_KINDS:
        n = len(good(kind, 'api'))
        for i in range(0, n + 1):
            yield {'via': 'cut', 'kind': kind, 'at': i}
        for i in range(n):
            yield {'via': 'byte', 'kind': kind, 'at': i, 'all': tier == 'thorough'}
    n = len(good('p256', 'client'))
    for i in range(0, n, 1 if tier == 'thorough' else 7):
        yield {'via': 'client byte', 'kind': 'p256', 'at': i}
    for what in ('', '00', '30', '3000', '0a0100', '30030a0100', '30050a0100a000', 'ff' * 100):
        for via in ('api', 'client', 'service', 'server'):
            yield {'via': 'garbage', 'der': what, 'to': via}
    # identifiers that are almost the right one
    for kind in ('p256', 'rsa'):
        for field in ('name', 'key', 'serial'):
            n = 20 if field != 'serial' else 16
            for how in [*range(n), 'cut', 'head', 'empty', 'double', 'zero', 'reverse']:
                for via in VIAS if tier == 'thorough' else ('api', 'service'):
                    yield {'via': 'near', 'kind': kind, 'field': field, 'how': how, 'to': via}
    # the statuses of a chain: the one of the leaf x the one of its issuer x how they get there
    for leaf, issuer in itertools.product(LINK, repeat=2):
        for how in itertools.product(('stapled', 'fetched'), repeat=2):
            yield {'via': 'chain', 'leaf': leaf, 'issuer': issuer, 'how': '/'.join(how)}
    # a refused status that was stored is forgotten
    for role in ('client', 'issuer', 'server'):
        for bad in LINK:
            if LINK[bad] is False and bad != 'down':
                yield {'via': 'forgotten', 'role': role, 'bad': bad}
    # where the certificate says its status can be asked
    for n in range(1, 4 if tier == 'thorough' else 3):
        for locations in itertools.product(AIA, repeat=n):
            for answer in ('good', 'revoked'):
                for role in ('client', 'server'):
                    yield {'via': 'aia', 'locations': '/'.join(locations), 'answer': answer,
                           'role': role}
    # PSS
    for hash_, signed, salt in itertools.product(PSS, PSS, ('digest', 0, 1, 'most')):
        for via in VIAS:
            yield {'via': 'pss', 'hash': hash_, 'signed': signed, 'salt': salt, 'to': via}
    for error in ('OSError', 'TimeoutError', 'ValueError', 'RuntimeError'):
        yield {'via': 'down', 'error': error}


def prepare(tier):
    for kind in pki.KEY_KINDS:
        pki.key(kind, 'ca21')
        pki.key(kind, 'other21')
        pki.key(kind, 'leaf')
        good(kind, 'api')
    good('p256', 'client')


# ---------------------------------------------------------------- a bit of DER
def tlv(tag, body):
    n = len(body)
    if n < 128:
        return bytes([tag, n]) + body
    size = n.to_bytes((n.bit_length() + 7) // 8, 'big')
    return bytes([tag, 0x80 | len(size)]) + size + body


def parse(der):
    """ [(tag, header+body, body)] """
    out, i = [], 0
    while i < len(der):
        tag, n, j = der[i], der[i + 1], i + 2
        if n & 0x80:
            k = n & 0x7f
            n, j = int.from_bytes(der[j:j + k], 'big'), j + k
        out.append((tag, der[i:j + n], der[j:j + n]))
        i = j + n
    return out


def raw_sign(key, hash_, message):
    if isinstance(key, rsa.RSAPrivateKey):
        return key.sign(message, padding.PKCS1v15(), hash_)
    if isinstance(key, ec.EllipticCurvePrivateKey):
        return key.sign(message, ec.ECDSA(hash_))
    return key.sign(message)


def rebuild(der, change, key, hash_):
    """ Change the list of single responses of a response, and sign it again (or don't). """
    (_, _, outer), = parse(der)
    status, (_, _, wrapped) = parse(outer)
    (_, _, typed), = parse(wrapped)
    oid, (_, _, octets) = parse(typed)
    (_, _, basic), = parse(octets)
    (_, tbs, tbs_body), alg, sig, *certs = parse(basic)
    items = parse(tbs_body)
    at = next(i for i, (tag, _, _) in enumerate(items) if tag == 0x30)
    singles = change([raw for _, raw, _ in parse(items[at][2])])
    new = tlv(0x30, b''.join(raw for _, raw, _ in items[:at]) + tlv(0x30, b''.join(singles))
              + b''.join(raw for _, raw, _ in items[at + 1:]))
    signature = sig[1] if key is None else tlv(3, b'\0' + raw_sign(key, hash_, new))
    basic = tlv(0x30, new + alg[1] + signature + b''.join(c[1] for c in certs))
    return tlv(0x30, status[1] + tlv(0xa0, tlv(0x30, oid[1] + tlv(4, basic))))


def identifier(der, field, change):
    """ a change of the identifier of the certificate a single response is about """
    (_, _, body), = parse(der)
    (_, _, cert_id), *rest = parse(body)
    items = parse(cert_id)
    at = {'name': 1, 'key': 2, 'serial': 3}[field]
    tag, _, value = items[at]
    items = [raw for _, raw, _ in items]
    items[at] = tlv(tag, change(value))
    return tlv(0x30, tlv(0x30, b''.join(items)) + b''.join(raw for _, raw, _ in rest))


def nearly(value, how):
    match how:
        case int():
            return value[:how] + bytes([value[how] ^ (0x10 if how == 0 else 0x80)]) + value[how + 1:]
        case 'cut': return value[:-1]
        case 'head': return value[:4]
        case 'empty': return b'\0'
        case 'double': return value + value
        case 'zero': return value + b'\0'
        case 'reverse': return value[:1] + value[:0:-1]


def single_of(der):
    out = []
    rebuild(der, lambda s: out.extend(s) or s, None, None)
    return out[0]


# ---------------------------------------------------------------- certificates
@functools.cache
def world(kind):
    """ (root, issuer, other, leaf, other leaf of the issuer, leaf of the other) """
    root = pki.CA('Root21', private_key=pki.key('p256', 'ca21 root'))
    kw = {'parent': root}
    issuer = pki.CA('Issuer21', private_key=pki.key(kind, 'ca21'), **kw)
    twin = pki.CA('Issuer21', private_key=pki.key(kind, 'other21'), **kw)     # same name
    other = pki.CA('Other21', private_key=pki.key(kind, 'other21'), **kw)
    renamed = pki.CA('Other21', private_key=pki.key(kind, 'ca21'), **kw)      # same key
    leaf = issuer.issue(kind='p256', serial=SERIAL, ocsp_url=pki.OCSP_URL)
    plain = issuer.issue(kind='p256', serial=SERIAL)
    sibling = issuer.issue(kind='p256', serial=7654321)
    return dict(root=root, issuer=issuer, twin=twin, other=other, renamed=renamed, leaf=leaf,
                sibling=sibling, plain=plain, foreign=other.issue(kind='p256', serial=SERIAL),
                namesake=renamed.issue(kind='p256', serial=SERIAL))


def the_leaf(case):
    return world(case['kind'])['plain' if case['via'] in ('client', 'client byte') else 'leaf']


def delegate(by, usage, subject='Delegate21'):
    key = pki.key('p256', 'delegate21')
    eku = (x509.oid.ExtendedKeyUsageOID.OCSP_SIGNING,) if usage else (pki.EKU_SERVER,)
    return key, by.issue(subject, leaf_key=key, eku=eku, san=False)


def make(case):
    w = world(case['kind'])
    issuer = w['issuer']
    if case['response'] != 'successful':
        status = getattr(ocsp.OCSPResponseStatus, case['response'].upper())
        return ocsp.OCSPResponseBuilder.build_unsuccessful(status).public_bytes(Encoding.DER)
    leaf, by = the_leaf(case), issuer.cert
    subject = case['subject']
    if subject == 'other serial':
        leaf = w['sibling']
    elif subject in SERIALS:
        leaf = issuer.issue(kind='p256', serial=SERIALS[subject])
    elif subject == 'other issuer':
        leaf, by = w['foreign'], w['other'].cert
    elif subject == 'other issuer key':
        by = w['twin'].cert
    elif subject == 'other issuer name':
        # its certificate identifier holds the name found in the certificate
        leaf, by = w['namesake'], w['renamed'].cert
    elif subject == 'issuer itself':
        leaf, by = issuer.cert, w['root'].cert
    elif subject == 'swapped':
        leaf, by = issuer.cert, leaf
    this, until = {
        'now': (NOW - DAY, NOW + DAY), 'just issued': (NOW - MIN, NOW + DAY),
        'about to expire': (NOW - DAY, NOW + 30 * MIN), 'long': (NOW - DAY, NOW + 36500 * DAY),
        'expired': (NOW - 9 * DAY, NOW - DAY), 'just expired': (NOW - DAY, NOW - MIN),
        'future': (NOW + DAY, NOW + 9 * DAY), 'just future': (NOW + 30 * MIN, NOW + 9 * DAY),
        'no expiration': (NOW - DAY, None), 'inverted': (NOW - DAY, NOW - 2 * DAY),
        'years ago': (NOW - 3650 * DAY, NOW - 3600 * DAY),
    }[case['valid']]
    if case['valid'] == 'inverted':
        this = NOW - 2 * DAY
        until = NOW - 2 * DAY
    form = case['form']
    cert_hash = hashes.SHA256() if form == 'certid sha256' else hashes.SHA1()
    revoked = case['cert'] == 'revoked'
    b = ocsp.OCSPResponseBuilder().add_response(
        cert=leaf, issuer=by, algorithm=cert_hash,
        cert_status=getattr(ocsp.OCSPCertStatus, case['cert'].upper()),
        this_update=this, next_update=until,
        revocation_time=NOW - DAY if revoked else None, revocation_reason=None)
    signer, signer_cert, certs = issuer.key, issuer.cert, []
    who = case['signer']
    if who == 'other key':
        signer, signer_cert = w['other'].key, w['other'].cert
    elif who == 'same name other key':
        signer, signer_cert = w['twin'].key, w['twin'].cert
        certs = [w['twin'].cert]
    elif who == 'subject':
        signer, signer_cert = pki.key('p256', 'leaf'), the_leaf(case)
        certs = [signer_cert]
    elif who == 'root':
        signer, signer_cert = w['root'].key, w['root'].cert
        certs = [signer_cert]
    elif who.startswith('delegate'):
        signer, signer_cert = delegate(w['other'] if 'another' in who else issuer,
                                       'without' not in who)
        certs = [signer_cert]
    how = ocsp.OCSPResponderEncoding.NAME if form == 'by name' else ocsp.OCSPResponderEncoding.HASH
    b = b.responder_id(how, signer_cert)
    if form == 'with certificate' and not certs:
        certs = [issuer.cert]
    if certs:
        b = b.certificates(certs)
    if form == 'nonce':
        b = b.add_extension(x509.OCSPNonce(b'n' * 16), critical=False)
    hash_ = getattr(hashes, case['hash'].upper())()
    if pki.sig_hash(signer) is None:
        hash_ = None
    try:
        der = b.sign(signer, hash_).public_bytes(Encoding.DER)
    except Exception:
        return None                                   # pyca does not want to
    if form == 'trailing':
        der += b'\0'
    elif form == 'no signature':
        (_, _, outer), = parse(der)
        der = tlv(0x30, parse(outer)[0][1])
    elif form == 'flipped':
        tbs = ocsp.load_der_ocsp_response(der).signature
        i = der.rindex(tbs) + len(tbs) - 1
        der = der[:i] + bytes([der[i] ^ 1]) + der[i + 1:]
    elif form == 'relabelled':
        # the signature of something else by the same key
        der = rebuild(der, lambda s: s, pki.key(case['kind'], 'ca21'), hash_)
        sig = ocsp.load_der_ocsp_response(der).signature
        new = raw_sign(pki.key(case['kind'], 'ca21'), hash_, b'something else')
        if len(new) != len(sig):
            return None
        der = der.replace(sig, new)
    elif form in ('second good', 'second revoked'):
        # two single responses: about the sibling, then about the certificate (or the reverse)
        extra = ocsp.OCSPResponseBuilder().add_response(
            cert=w['sibling'], issuer=issuer.cert, algorithm=hashes.SHA1(),
            cert_status=ocsp.OCSPCertStatus.GOOD, this_update=NOW - DAY, next_update=NOW + DAY,
            revocation_time=None, revocation_reason=None).responder_id(how, signer_cert)
        extra = single_of(extra.sign(signer, hash_).public_bytes(Encoding.DER))
        mine = single_of(der)
        bad = ocsp.OCSPResponseBuilder().add_response(
            cert=the_leaf(case), issuer=issuer.cert, algorithm=hashes.SHA1(),
            cert_status=ocsp.OCSPCertStatus.REVOKED, this_update=NOW - DAY,
            next_update=NOW + DAY, revocation_time=NOW - DAY, revocation_reason=None,
        ).responder_id(how, signer_cert)
        bad = single_of(bad.sign(signer, hash_).public_bytes(Encoding.DER))
        order = [extra, bad] if form == 'second revoked' else [bad, mine]
        der = rebuild(der, lambda s: order, signer, hash_)
    elif form == 'no answer':
        der = rebuild(der, lambda s: [], signer, hash_)
    elif form == 'tbs changed':
        # the status of the sibling, under the signature of this response
        other = the_leaf(case).serial_number + 1
        old = the_leaf(case).serial_number.to_bytes(16, 'big')
        if old not in der:
            return None
        der = der.replace(old, other.to_bytes(16, 'big'))
    return der


@functools.cache
def good(kind, via):
    return make({**BASE, 'kind': kind, 'via': via})


def expected(case):
    if case['response'] != 'successful':
        return False
    out = True
    for dim, values in DIMS.items():
        e = values[case[dim]]
        if dim == 'hash' and signer_kind(case) in ('ed25519', 'ed448'):
            e = True
        if e is False:
            return False
        if e is None:
            out = None
    # hash and curve are tied together in TLS 1.3
    if case['hash'] != 'sha256' or signer_kind(case) != 'p256':
        if signer_kind(case) in ('p256', 'p384', 'p521'):
            size = {'p256': 'sha256', 'p384': 'sha384', 'p521': 'sha512'}[signer_kind(case)]
            if size != case['hash']:
                out = out and None
    return out


def signer_kind(case):
    return case['kind']


# ---------------------------------------------------------------- where it is presented
class Service:
    def __init__(self, answer):
        self.answer, self.asked, self.cached, self.uncached = answer, [], [], []

    def request(self, url, req):
        self.asked.append((url, req))
        if isinstance(self.answer, Exception):
            raise self.answer
        return self.answer

    def cache(self, until, req, res):
        self.cached.append((until, req, res))

    def uncache(self, req):
        self.uncached.append(req)


def via_api(w, leaf, der):
    req = make_ocsp_request(leaf, w['issuer'].cert)
    try:
        until = validate_ocsp(w['issuer'].cert, req, der)
    except ValueError:
        return False, None
    need(until == ocsp.load_der_ocsp_response(der).next_update, 'wrong expiration')
    return True, None


def via_client(w, leaf, der, service=None):
    """ stapled by the server, or fetched by the client """
    key = pki.key('p256', 'leaf')
    chain = [leaf, w['issuer'].cert]
    dut = impl.Impl.client(trust_store=Store([w['root'].cert]), ocsp_service=service).start()
    peer = ref.RefServer(key, chain)
    peer.feed(dut.tx())
    if service is None:
        peer.cert_extensions[0] = [(ref.X_STATUS, ref.u8(1) + ref.v24(der))]
    ok = dut.rx(peer.flight())
    out = dut.tx()
    peer.sent_finished = True
    if ok:
        peer.feed(out)
        need(dut.connected and peer.client_finished, 'not connected')
    else:
        need(not dut.connected, 'refused yet connected')
        need(dut.alert is not None or service, lambda: f'{dut.error!r}')
        dut.assert_dead('refused')
    return ok, dut


def via_service(w, leaf, der):
    service = Service(der)
    ok, _ = via_client(w, leaf, der, service)
    need(len(service.asked) == 1 and service.asked[0][0] == pki.OCSP_URL, 'not asked')
    req = ocsp.load_der_ocsp_request(service.asked[0][1])
    need(req.serial_number == leaf.serial_number, 'another status was asked')
    check_cached(service, ok, der)
    return ok, None


def check_cached(service, ok, der):
    if ok:
        res = ocsp.load_der_ocsp_response(der)
        need([c[2] for c in service.cached] == [der], 'not cached')
        until = service.cached[0][0]
        need(until == res.next_update, 'cached for another time than its validity')
        need(service.cached[0][1] == service.asked[0][1], 'cached for another request')
    else:
        need(not service.cached, 'refused status cached')


def via_server(w, leaf, der):
    service = Service(der)
    dut = impl.Impl(impl.server_config(
        private_key=pki.key('p256', 'leaf'), certificate_chain=[leaf, w['issuer'].cert]),
        ocsp_service=service).start()
    peer = ref.RefClient(groups=[ref.X25519],
                         extra=[(ref.X_STATUS, ref.u8(1) + ref.v16(b'') + ref.v16(b''))])
    need(dut.rx(peer.hello()), lambda: f'the server fails on a bad status: {dut.error!r}')
    peer.feed(dut.tx())
    need(peer.server_finished and dut.rx(peer.finished()) and dut.connected, 'not connected')
    entries = dict(peer.cert[0][1])
    need(all(not e for _, e in peer.cert[1:]), 'status of the issuer')
    need(len(service.asked) == 1, 'not asked')
    if ref.X_STATUS in entries:
        need(entries[ref.X_STATUS] == ref.u8(1) + ref.v24(der), 'another status is stapled')
        check_cached(service, True, der)
        return True, None
    check_cached(service, False, der)
    return False, None


# ---------------------------------------------------------------- chains
@functools.cache
def links():
    """ root > issuer > leaf, both with the address of their responder, and without """
    root = pki.CA('Root21', private_key=pki.key('p256', 'ca21 root'))
    out = {}
    for url in (True, False):
        kw = {'ocsp_url': pki.OCSP_URL} if url else {}
        out[url] = pki.CA('Link21', private_key=pki.key("p256", "ca21"), parent=root, **kw)
    leaves = {(url, above): out[above].issue(
        kind='p256', serial=SERIAL, **({'ocsp_url': pki.OCSP_URL} if url else {}))
        for url in (True, False) for above in (True, False)}
    return root, out, leaves


def status_of(kind, by, cert, other, self_key):
    if kind in ('none', 'down'):
        return None
    if kind in ('garbage', 'empty'):
        return b'0\0' if kind == 'garbage' else b''
    if kind == 'other':
        return by.ocsp(other)
    if kind == 'self':
        return by.ocsp(cert, signer=self_key, signer_cert=cert)
    if kind == 'old':
        return by.ocsp(cert, this_update=NOW - 9 * DAY, next_update=NOW - DAY)
    return by.ocsp(cert, status=kind)


class Memory(Service):
    """ remembers what it is asked to, until it is asked to forget it """
    def __init__(self, answers):
        super().__init__(None)
        self.answers, self.stored = answers, {}

    def request(self, url, req):
        serial = ocsp.load_der_ocsp_request(req).serial_number
        self.asked.append(serial)
        if req in self.stored:
            return self.stored[req]
        if self.answers.get(serial) is None:
            raise OSError('down')
        return self.answers[serial]

    def cache(self, until, req, res):
        self.stored.setdefault(req, res)

    def uncache(self, req):
        self.stored.pop(req, None)


def chain_client(leaf, issuer, staples, service, root):
    dut = impl.Impl.client(trust_store=Store([root.cert]), ocsp_service=service).start()
    peer = ref.RefServer(pki.key('p256', 'leaf'), [leaf, issuer.cert])
    peer.feed(dut.tx())
    for i, der in staples.items():
        peer.cert_extensions[i] = [(ref.X_STATUS, ref.u8(1) + ref.v24(der))]
    ok = dut.rx(peer.flight())
    need(ok == dut.connected, 'neither connected nor refused')
    if not ok:
        dut.tx()
        dut.assert_dead('refused')
    return ok, dut


def run_chain(case, what):
    root, issuers, leaves = links()
    how = case['how'].split('/')
    kinds = [case['leaf'], case['issuer']]
    fetched = [h == 'fetched' and k != 'none' for h, k in zip(how, kinds)]
    issuer = issuers[fetched[1]]
    leaf = leaves[fetched[0], fetched[1]]
    ders = [status_of(kinds[0], issuer, leaf, world('p256')['sibling'], pki.key('p256', 'leaf')),
            status_of(kinds[1], root, issuer.cert, leaf, issuer.key)]
    staples = {i: d for i, d in enumerate(ders) if not fetched[i] and d is not None}
    service = Memory({c.serial_number: d for c, d, f in
                      zip((leaf, issuer.cert), ders, fetched) if f and d is not None})
    ok, dut = chain_client(leaf, issuer, staples, service, root)
    # nobody is down when nothing is asked
    want = all(LINK[k] or k == 'down' and not f for k, f in zip(kinds, fetched))
    need(ok == want, lambda: f'{what}: {"accepted" if ok else "refused"} {dut.error!r}')
    need(all(LINK[k] for k, f in zip(kinds, fetched) if f) or
         not set(service.stored.values()) & {d for d, k in zip(ders, kinds) if not LINK[k]},
         f'{what}: a refused status was stored')


def run_forgotten(case, what):
    """ someone stored a bad status: it is refused once, then asked for again """
    root, issuers, leaves = links()
    role, at_issuer = case['role'], case['role'] == 'issuer'
    issuer = issuers[at_issuer]
    leaf = leaves[not at_issuer, at_issuer]
    by, cert = (root, issuer.cert) if at_issuer else (issuer, leaf)
    other = leaf if at_issuer else world('p256')['sibling']
    self_key = issuer.key if at_issuer else pki.key('p256', 'leaf')
    bad = status_of(case['bad'], by, cert, other, self_key)
    good_ = status_of('good', by, cert, other, self_key)
    service = Memory({cert.serial_number: good_})
    service.stored[make_ocsp_request(cert, by.cert)] = bad
    results = []
    for _ in range(2):
        if role == 'server':
            dut = impl.Impl(impl.server_config(
                private_key=pki.key('p256', 'leaf'), certificate_chain=[leaf, issuer.cert]),
                ocsp_service=service).start()
            peer = ref.RefClient(groups=[ref.X25519],
                                 extra=[(ref.X_STATUS, ref.u8(1) + ref.v16(b'') + ref.v16(b''))])
            need(dut.rx(peer.hello()), lambda: f'{what}: {dut.error!r}')
            peer.feed(dut.tx())
            got = dict(peer.cert[0][1]).get(ref.X_STATUS)
            need(got in (None, ref.u8(1) + ref.v24(good_)), f'{what}: bad status stapled')
            results.append(got is not None)
        else:
            ok, dut = chain_client(leaf, issuer, {}, service, root)
            results.append(ok)
    need(results[1], f'{what}: a refused status is still in use: {results}')
    need(bad not in service.stored.values(), f'{what}: a refused status is still stored')


def run_aia(case, what):
    w = world('p256')
    locations = [AIA[x] for x in case['locations'].split('/')]
    leaf = w['issuer'].issue(kind='p256', serial=SERIAL, aia=x509.AuthorityInformationAccess([
        x509.AccessDescription(oid, x509.UniformResourceIdentifier(url))
        for oid, url in locations]))
    urls = [url for oid, url in locations if oid == x509.oid.AuthorityInformationAccessOID.OCSP]
    service = Service(w['issuer'].ocsp(leaf, status=case['answer']))
    if case['role'] == 'client':
        ok, _ = via_client(w, leaf, b'', service)
        need(ok == (not urls or case['answer'] == 'good'),
             f'{what}: {"accepted" if ok else "refused"}')
    else:
        dut = impl.Impl(impl.server_config(
            private_key=pki.key('p256', 'leaf'), certificate_chain=[leaf, w['issuer'].cert]),
            ocsp_service=service).start()
        peer = ref.RefClient(groups=[ref.X25519],
                             extra=[(ref.X_STATUS, ref.u8(1) + ref.v16(b'') + ref.v16(b''))])
        need(dut.rx(peer.hello()), lambda: f'{what}: {dut.error!r}')
        peer.feed(dut.tx())
        need((ref.X_STATUS in dict(peer.cert[0][1])) == bool(urls and case['answer'] == 'good'),
             f'{what}: stapled {peer.cert[0][1]}')
    asked = [url for url, _ in service.asked]
    need(all(url in urls for url in asked), f'{what}: asked at {asked}')
    need(bool(asked) == bool(urls), f'{what}: asked at {asked}')


@functools.cache
def pss_algorithm(hash_, salt):
    """ the algorithm identifier, taken out of a certificate """
    hash_ = getattr(hashes, hash_.upper())()
    key = pki.key('rsa', 'ca21')
    cert = (x509.CertificateBuilder().subject_name(pki.name('x')).issuer_name(pki.name('x'))
            .public_key(key.public_key()).serial_number(1).not_valid_before(NOW)
            .not_valid_after(NOW + DAY)
            .sign(key, hash_, rsa_padding=padding.PSS(padding.MGF1(hash_), salt))
            .public_bytes(Encoding.DER))
    return parse(parse(cert)[0][2])[1][1]


def run_pss(case, what):
    w = world('rsa')
    key = w['issuer'].key
    salts = {'digest': getattr(hashes, case['hash'].upper()).digest_size,
             'most': 256 - 2 - 64}
    salt = salts.get(case['salt'], case['salt'])
    hash_ = getattr(hashes, case['signed'].upper())()
    der = make({**BASE, 'kind': 'rsa', 'via': case['to']})
    (_, _, outer), = parse(der)
    status, (_, _, wrapped) = parse(outer)
    (_, _, typed), = parse(wrapped)
    oid, (_, _, octets) = parse(typed)
    (_, _, basic), = parse(octets)
    tbs = parse(basic)[0][1]
    signature = key.sign(tbs, padding.PSS(padding.MGF1(hash_), salt), hash_)
    basic = tlv(0x30, tbs + pss_algorithm(case['hash'], salt) + tlv(3, b'\0' + signature))
    der = tlv(0x30, status[1] + tlv(0xa0, tlv(0x30, oid[1] + tlv(4, basic))))
    ways = {'api': via_api, 'client': via_client, 'service': via_service, 'server': via_server}
    ok, _ = ways[case['to']](w, the_leaf({'kind': 'rsa', 'via': case['to']}), der)
    # those of the issuer itself may be refused too: pyca/cryptography knows no PSS in a status
    need(not ok or case['hash'] == case['signed'], f'{what}: accepted')


def run(case, obs):
    via = case['via']
    what = ' '.join(f'{k}={v}' for k, v in case.items())
    obs.state(what)
    ways = {'api': via_api, 'client': via_client, 'service': via_service, 'server': via_server}
    if via in ways:
        der = make(case)
        if der is None:
            obs.outcome('not buildable')
            return
        w = world(case['kind'])
        try:
            ok, dut = ways[via](w, the_leaf(case), der)
        except Exception as exc:
            raise type(exc)(f'{what}: {exc!r}') from exc
        want = expected(case)
        need(not (ok and want is False), f'{what}: accepted')
        need(ok or want is not True, lambda: f'{what}: refused {dut and dut.error!r}')
        obs.step()
        obs.outcome(f'{via}/{"accepted" if ok else "refused"}')
    elif via in ('cut', 'byte', 'client byte'):
        kind, at = case['kind'], case['at']
        w = world(kind)
        leaf = w['plain' if via == 'client byte' else 'leaf']
        der = good(kind, 'client' if via == 'client byte' else 'api')
        if at >= len(der) and via != 'cut':
            return                              # the length of signatures varies
        if via == 'cut':
            variants = [der[:at]] if at < len(der) else [der + b'\0', der + der]
        elif via == 'byte':
            masks = range(1, 256) if case['all'] else (1, 2, 0x20, 0x80, 0xff)
            variants = [der[:at] + bytes([der[at] ^ m]) + der[at + 1:] for m in masks]
        else:
            variants = [der[:at] + bytes([der[at] ^ 1]) + der[at + 1:]]
        for bad in variants:
            obs.step()
            if via == 'client byte':
                ok, _ = via_client(w, leaf, bad)
            else:
                ok, _ = via_api(w, leaf, bad)
            if ok:
                need(authentic(w['issuer'], der, bad), f'{what}: {bad.hex()} accepted')
                obs.outcome('changed outside of what is signed')
            else:
                obs.outcome('refused')
    elif via == 'chain':
        run_chain(case, what)
        obs.step()
        obs.outcome('chain')
    elif via == 'forgotten':
        run_forgotten(case, what)
        obs.step(2)
        obs.outcome('forgotten')
    elif via in ('aia', 'pss'):
        (run_aia if via == 'aia' else run_pss)(case, what)
        obs.step()
        obs.outcome(via)
    elif via == 'near':
        kind, to = case['kind'], case['to']
        w = world(kind)
        der = make({**BASE, 'kind': kind, 'via': to})
        der = rebuild(der, lambda singles: [
            identifier(s, case['field'], lambda v: nearly(v, case['how'])) for s in singles],
            w['issuer'].key, hashes.SHA256())
        ok, _ = ways[to](w, the_leaf({'kind': kind, 'via': to}), der)
        need(not ok, f'{what}: accepted')
        obs.step()
        obs.outcome('near')
    elif via == 'garbage':
        w = world('p256')
        ok, _ = ways[case['to']](w, w['plain' if case['to'] == 'client' else 'leaf'],
                                 bytes.fromhex(case['der']))
        need(not ok, f'{what}: accepted')
        obs.step()
        obs.outcome('garbage')
    else:
        w = world('p256')
        service = Service({'OSError': OSError, 'TimeoutError': TimeoutError,
                           'ValueError': ValueError, 'RuntimeError': RuntimeError}[case['error']]('x'))
        # the client cannot verify the status, the server does without
        ok, _ = via_client(w, w['leaf'], b'', service)
        need(not ok and not service.cached, f'{what}: accepted without its status')
        del service.asked[:]
        ok, _ = via_server(w, w['leaf'], service.answer)
        need(not ok, f'{what}: stapled')
        obs.step(2)
        obs.outcome('down')
    obs.trace()


def authentic(issuer, der, bad):
    """ is it the very same statement, with the very same or another valid signature """
    try:
        a, b = ocsp.load_der_ocsp_response(der), ocsp.load_der_ocsp_response(bad)
        if a.tbs_response_bytes != b.tbs_response_bytes:
            return False
        pub, hash_ = issuer.key.public_key(), b.signature_hash_algorithm
        if isinstance(pub, rsa.RSAPublicKey):
            pub.verify(b.signature, b.tbs_response_bytes, padding.PKCS1v15(), hash_)
        elif isinstance(pub, ec.EllipticCurvePublicKey):
            pub.verify(b.signature, b.tbs_response_bytes, ec.ECDSA(hash_))
        else:
            pub.verify(b.signature, b.tbs_response_bytes)
    except (ValueError, InvalidSignature):
        return False
    return True

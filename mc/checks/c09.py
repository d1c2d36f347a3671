"""
C09: the whole matrix of what a server may present, against a client with a trust store.  Every
dimension has good values and faults; the oracle is known by construction: the handshake goes
through when every dimension is good and fails when any is not.
"""
import datetime
import functools
import itertools
import time

from cryptography.x509.verification import Store

from .. import impl, pki, ref
from ..engine import need

PROP = 'C09'
DAY = pki.DAY
NOW = pki.NOW
HOUR = DAY / 24
OLD = dict(not_before=NOW - 9 * DAY, not_after=NOW - DAY)
FUTURE = dict(not_before=NOW + DAY, not_after=NOW + 9 * DAY)
JUST_OLD = dict(not_before=NOW - 9 * DAY, not_after=NOW - HOUR)
JUST_FUTURE = dict(not_before=NOW + HOUR, not_after=NOW + 9 * DAY)
SHORT = dict(not_before=NOW - HOUR, not_after=NOW + HOUR)

# ------------------------------------------------------------------ dimensions
# name: (expected, description) expected: True accept, False refuse, None either
SHAPES = {
    'direct': True, 'i1': True, 'i2': True, 'i3': True, 'i4': True, 'i5': True, 'i6': False,
    'i1+root': True, 'i2 reversed': None, 'i1+extra': True, 'i1 missing': False,
    'i2 missing first': False, 'i2 missing last': False,
    'untrusted': False, 'untrusted+root': False, 'self signed': False, 'same name root': False,
    'bad signature': False, 'i1 bad signature': False, 'i1 not ca': False,
    'i2 path length': False, 'i1 issued by leaf': False, 'leaf first wrong': False,
    'none': False, 'depth1 i1': True, 'depth1 i2': False, 'depth0 direct': True,
    'depth0 i1': False, 'no trust': True,
}
NAMES = {
    'dns': True, 'dns second': True, 'wildcard': True, 'other': False, 'suffix': False,
    'prefix': False, 'wildcard deep': False, 'wildcard top': False, 'no san': False,
    'www only': False, 'www missing': False, 'www': True, 'upper': True, 'upper other': False,
    'idn': True, 'idn upper': True, 'idn other': False, 'idn alabel': True, 'idn wildcard': True,
    'idn 2008': True, 'idn 2003': False,
    'dot': True, 'dot other': False, 'parent': False, 'child': False, 'common name': False,
    'ip': True, 'ip6': True, 'ip6 other': False, 'ip6 long': True, 'ip zero': False, 'ip other': False, 'ip as dns': False, 'dns for ip only': False,
    'mapped host': False, 'mapped san': False, 'mapped': True, 'many': True, 'many other': False,
}
VALIDITY = {'ok': True, 'leaf old': False, 'leaf future': False, 'ca old': False,
            'ca future': False, 'leaf short': True, 'ca short': True, 'leaf just old': False,
            'leaf just future': False, 'ca just old': False, 'ca just future': False}
USAGE = {'server': True, 'both': True, 'client': False}
CRL = {'none': True, 'empty': True, 'other': True, 'leaf': False, 'inter': False}
STATUS = {'none': True, 'good': True, 'good both': True, 'revoked': False, 'unknown': False,
          'old': False, 'future': False, 'short': True, 'just old': False, 'just future': False,
          'other cert': False, 'other signer': False,
          'self attested': False, 'garbage': False, 'empty': False, 'inter revoked': False,
          'inter garbage': False, 'leaf good inter revoked': False,
          'service good': True, 'service revoked': False, 'service unknown': False,
          'service old': False, 'service garbage': False, 'service down': False,
          'service inter revoked': False, 'service no url': True}
# what is known of one certificate: stapled answer, answer of the service
EACH = {'n': (None, None), 'G': ('good', None), 'R': ('revoked', None), 'g': (None, 'good'),
        'r': (None, 'revoked'), 'd': (None, 'down'), 'o': (None, 'old'), 'Gr': ('good', 'revoked'),
        'Rg': ('revoked', 'good'), 'X': ('garbage', None), 'Xg': ('garbage', 'good')}
PROOF = {'ok': True, 'wrong key': False, 'client context': False, 'no padding': False,
         'before certificate': False, 'after': False, 'empty': False, 'flipped': False,
         'truncated': False, 'replayed': False, 'not offered': False, 'pkcs1': False,
         'sha1': False, 'wrong curve': False}
DIMS = {'shape': SHAPES, 'name': NAMES, 'valid': VALIDITY, 'usage': USAGE, 'crl': CRL,
        'status': STATUS, 'proof': PROOF}
BASE = {'shape': 'i1', 'name': 'dns', 'valid': 'ok', 'usage': 'server', 'crl': 'none',
        'status': 'none', 'proof': 'ok', 'kind': 'p256'}


CA_KINDS = ['p256', 'p384', 'p521', 'rsa']        # pyca forbids the others


def cases(tier):
    def case(**kw):
        return {**BASE, **kw}
    # one value off the base, for every key kind
    for kind in pki.KEY_KINDS:
        for dim, values in DIMS.items():
            for v in values:
                yield case(**{dim: v, 'kind': kind})
    # every scheme each kind of key can sign with
    for kind in pki.KEY_KINDS:
        for alg in ref.algs_for(pki.key(kind, 'leaf')):
            yield case(kind=kind, alg=alg)
    # the key of the issuers, which differs from the one of the leaf
    for ca_kind, inter_kind in itertools.product(CA_KINDS, repeat=2):
        for shape in ('direct', 'i1', 'i2', 'bad signature', 'untrusted', 'i1 bad signature'):
            for status in ('none', 'good', 'good both', 'revoked', 'other signer',
                           'service good', 'service revoked'):
                yield case(ca=ca_kind, inter=inter_kind, shape=shape, status=status)
    # the client was configured before the certificate expired, or before it began
    yield ['clock']
    # every pair of dimensions
    for (d1, v1), (d2, v2) in itertools.combinations(DIMS.items(), 2):
        for a, b in itertools.product(v1, v2):
            if tier == 'thorough' or v1[a] or v2[b]:
                yield case(**{d1: a, d2: b})
    # every certificate of the chain has a status of its own
    for n in (1, 2, 3) if tier == 'thorough' else (1, 2):
        for each in itertools.product(EACH, repeat=n + 1):
            if n < 3 or sum(e in 'nGg' for e in each) >= 3:
                if n == 2 and tier == 'quick' and sum(e in 'nGg' for e in each) < 2:
                    continue
                yield case(shape=f'i{n}', status='each ' + ' '.join(each))
        for each in itertools.product(('-', 'x'), repeat=n + 1):
            yield case(shape=f'i{n}', crl='each ' + ' '.join(each))
    # no host name to check: the chain still is
    for shape in SHAPES:
        yield case(shape=shape, name='no host')
    for shape in ('direct', 'i1'):
        for dim in ('valid', 'crl', 'status', 'proof'):
            for v in DIMS[dim]:
                for kind in pki.KEY_KINDS if dim == 'proof' else ('p256', 'rsa'):
                    yield case(**{'shape': shape, 'name': 'no host', 'kind': kind, dim: v})
    # what revokes, whatever else is known
    for name, crl, status, shape in itertools.product(('dns', 'ip', 'no host'), CRL, STATUS,
                                                      ('direct', 'i1')):
        yield case(shape=shape, name=name, crl=crl, status=status)
    for n in (0, 1):
        for each in itertools.product(EACH, repeat=n + 1):
            yield case(shape=f'i{n}' if n else 'direct', name='no host',
                       status='each ' + ' '.join(each))
        for each in itertools.product(('-', 'x'), repeat=n + 1):
            yield case(shape=f'i{n}' if n else 'direct', name='no host',
                       crl='each ' + ' '.join(each))
    # no trust store: anyone is accepted, yet must prove the possession of its key
    for proof in PROOF:
        for kind in pki.KEY_KINDS:
            yield case(shape='no trust', proof=proof, kind=kind)
    if tier == 'thorough':
        for (d1, v1), (d2, v2), (d3, v3) in itertools.combinations(DIMS.items(), 3):
            for a, b, c in itertools.product(v1, v2, v3):
                if v1[a] and v2[b] or v2[b] and v3[c] or v1[a] and v3[c]:
                    yield case(**{d1: a, d2: b, d3: c})


def prepare(tier):
    for kind in pki.KEY_KINDS:
        for tag in ('leaf', 'other', 'first', 'fake', 'ca:Root:', 'ca:Evil:', *(f'ca:I{i}:' for i in range(6))):
            if kind in CA_KINDS or tag in ('leaf', 'other', 'first'):
                pki.key(kind, tag)


# ------------------------------------------------------------------ building
@functools.cache
def ca(cn, parent=None, kind='p256', tag='', **kw):
    kw = dict(kw)
    if kw.pop('bad', False):
        fake = pki.CA.__new__(pki.CA)
        fake.cn, fake.key, fake.hash = parent.cn, pki.key('p256', 'fake'), None
        parent = fake
    return pki.CA(cn, parent=parent, private_key=pki.key(kind, f'ca:{cn}:{tag}'), **kw)


def host_and_san(name):
    h = pki.HOST
    return {
        'dns': (h, dict(dns=(h,))),
        'dns second': (h, dict(dns=('a.test', h))),
        'wildcard': (h, dict(dns=('*.example',))),
        'other': (h, dict(dns=('other.example',))),
        'suffix': (h, dict(dns=('evil' + h,))),
        'prefix': (h, dict(dns=(h + '.evil.test',))),
        'wildcard deep': ('a.b.example', dict(dns=('*.example',))),
        'wildcard top': ('example', dict(dns=('*.example',))),
        'www only': (h, dict(dns=('www.' + h,))),
        'www missing': ('www.' + h, dict(dns=(h,))),
        'www': ('www.' + h, dict(dns=('www.' + h,))),
        'upper': (h.upper(), dict(dns=(h,))),
        'upper other': (h.upper(), dict(dns=('other.example',))),
        'idn': ('b\xfccher.example', dict(dns=('xn--bcher-kva.example',))),
        'idn upper': ('B\xdccher.example', dict(dns=('xn--bcher-kva.example',))),
        'idn other': ('b\xfccher.example', dict(dns=('bucher.example', 'bcher.example'))),
        'idn alabel': ('xn--bcher-kva.example', dict(dns=('xn--bcher-kva.example',))),
        # two registrations since IDNA 2008, the older standard takes one for the other
        'idn 2008': ('fa\xdf.example', dict(dns=('xn--fa-hia.example',))),
        'idn 2003': ('fa\xdf.example', dict(dns=('fass.example',))),
        'idn wildcard': ('www.b\xfccher.example', dict(dns=('*.xn--bcher-kva.example',))),
        'dot': (h + '.', dict(dns=(h,))),
        'dot other': (h + '.', dict(dns=('other.example',))),
        'parent': ('a.' + h, dict(dns=(h,))),
        'child': (h, dict(dns=('a.' + h,))),
        'common name': ('other.example', dict(dns=('a.test',), cn='other.example')),
        'ip6 other': ('2001:db8::7', dict(dns=(), ips=('2001:db8::8',))),
        'ip6 long': ('2001:0db8:0:0:0:0:0:7', dict(dns=(), ips=('2001:db8::7',))),
        'ip zero': ('192.0.2.7', dict(dns=(), ips=('0.0.0.0', '192.0.2.0'))),
        'no san': (h, dict(san=False)),
        'ip': ('192.0.2.7', dict(dns=(), ips=('192.0.2.7',))),
        'ip6': ('2001:db8::7', dict(dns=(), ips=('2001:db8::7',))),
        'ip other': ('192.0.2.7', dict(dns=(h,), ips=('192.0.2.8',))),
        'ip as dns': ('192.0.2.7', dict(dns=('192.0.2.7',))),
        'dns for ip only': (h, dict(dns=(), ips=('192.0.2.7',))),
        'mapped host': ('::ffff:192.0.2.7', dict(dns=(), ips=('192.0.2.7',))),
        'mapped san': ('192.0.2.7', dict(dns=(), ips=('::ffff:192.0.2.7',))),
        'mapped': ('::ffff:192.0.2.7', dict(dns=(), ips=('::ffff:192.0.2.7',))),
        # a certificate that does not fit in a record
        'many': (h, dict(dns=(*(f'host-{i:04}.{h}' for i in range(900)), h))),
        'many other': (h, dict(dns=tuple(f'host-{i:04}.{h}' for i in range(900)))),
        'no host': (None, dict(dns=(h,))),
    }[name]


class Service:
    """ stand-in of siotls.ocsp_over_http: answers are prepared, nothing goes on the network """
    def __init__(self, answers):
        self.answers, self.cached, self.requests = answers, [], []

    def request(self, url, req):
        from cryptography.x509 import ocsp
        serial = ocsp.load_der_ocsp_request(req).serial_number
        self.requests.append((url, serial))
        res = self.answers[serial]
        if res is None:
            raise OSError('the responder is down')
        return res

    def cache(self, until, req, res):
        self.cached.append(res)

    def uncache(self, req):
        pass


def validity(case, who):
    v = case['valid']
    if not v.startswith(who):
        return {}
    return {'old': OLD, 'future': FUTURE, 'just old': JUST_OLD, 'just future': JUST_FUTURE,
            'short': SHORT}[v.removeprefix(who)]


def build(case):
    """ everything the server presents and the client trusts """
    kind, ca_kind = case['kind'], case.get('ca', 'p256')
    inter_kind = case.get('inter', ca_kind)
    shape, status = case['shape'], case['status']
    host, san = host_and_san(case['name'])
    root = ca('Root', kind=ca_kind)
    depth = 5
    if shape.startswith('depth'):
        depth = int(shape[5])
        shape = shape.split(' ', 1)[1]
    ca_kw = validity(case, 'ca ')
    each = [EACH[e][1] for e in status.split()[1:]] if status.startswith('each') else None
    url = pki.OCSP_URL if status.startswith('service') and status != 'service no url' else None
    n = int(shape[1]) if shape[0] == 'i' and shape[1].isdigit() else 0
    chain_root, bad_leaf = root, None
    if shape.startswith('untrusted'):
        chain_root = ca('Evil', kind=ca_kind)
    elif shape == 'same name root':
        chain_root = ca('Root', kind=ca_kind, tag='evil')
    issuers = [chain_root]
    for i in range(n):
        kw = dict(ca_kw) if i == n - 1 else {}
        if shape == 'i1 not ca':
            kw['ca'] = False
        if shape == 'i2 path length' and i == 0:
            kw['path_length'] = 0
        if shape == 'i1 bad signature':
            kw['bad'] = True
        if shape == 'i1 issued by leaf':
            rogue = pki.CA.__new__(pki.CA)
            rogue.cn, rogue.key, rogue.hash = pki.HOST, pki.key('p256', 'leaf'), None
            issuers.append(pki.CA('Rogue', parent=rogue, private_key=pki.key('p256', 'ca:Rogue')))
            continue
        has_url = each[n - i] if each else url
        issuers.append(ca(f'I{i}', issuers[-1], kind=inter_kind,
                          ocsp_url=pki.OCSP_URL if has_url else None, **kw))
    if n == 0 and ca_kw and chain_root is root:
        chain_root = root = ca('Root', kind=ca_kind, tag=case['valid'], **ca_kw)
        issuers = [root]
    leaf_kw = validity(case, 'leaf ')
    eku = {'server': (pki.EKU_SERVER,), 'client': (pki.EKU_CLIENT,),
           'both': (pki.EKU_CLIENT, pki.EKU_SERVER)}[case['usage']]
    if shape in ('bad signature',):
        bad_leaf = pki.key(ca_kind, 'fake')
    if host is None:
        eku = (pki.EKU_CLIENT, pki.EKU_SERVER)
    leaf_key = pki.key(kind, 'leaf')
    issuer = issuers[-1]
    if shape == 'self signed':
        issuer = pki.CA.__new__(pki.CA)
        issuer.cn, issuer.key, issuer.hash = pki.HOST, leaf_key, None
    if each and each[0]:
        url = pki.OCSP_URL
    leaf = issuer.issue(leaf_key=leaf_key, eku=eku, ocsp_url=url, tamper_key=bad_leaf,
                        **san, **leaf_kw)
    chain = [leaf, *[c.cert for c in reversed(issuers[1:])]]
    if shape == 'i1+root' or shape == 'untrusted+root':
        chain.append(chain_root.cert)
    elif shape == 'i2 reversed':
        chain[1:] = chain[1:][::-1]
    elif shape == 'i1+extra':
        chain.append(ca('Extra').cert)
    elif shape == 'i1 missing':
        chain = chain[:1]
    elif shape == 'i2 missing first':
        chain = [chain[0], chain[2]]
    elif shape == 'i2 missing last':
        chain = chain[:2]
    elif shape == 'leaf first wrong':
        other = root.issue(leaf_key=pki.key(kind, 'first'))
        chain = [other, leaf]        # the proof is made with the key of the second one
    elif shape == 'none':
        chain = []
    return host, root, issuers, chain, leaf, leaf_key, depth


def crl_of(case, root, issuers, chain, leaf):
    crl = case['crl']
    if crl.startswith('each'):
        certs = [leaf, *[i.cert for i in issuers[:0:-1]]]
        return ca('Root').crl([c.serial_number for c, x in zip(certs, crl.split()[1:], strict=True)
                               if x == 'x'])
    serials = {'none': None, 'empty': [], 'other': [4242], 'leaf': [leaf.serial_number],
               'inter': [issuers[-1].cert.serial_number]}[crl]
    if serials is None:
        return None
    return ca('Root').crl(serials)


def statuses(case, issuers, chain, leaf):
    """ ({index: response stapled}, service) """
    status = case['status']
    issuer = issuers[-1]
    up = issuers[-2] if len(issuers) > 1 else None
    evil = ca('Evil', kind=case.get('ca', 'p256'))

    def resp(what, cert, by):
        kw = {}
        if what == 'old':
            kw = dict(this_update=NOW - 9 * DAY, next_update=NOW - DAY)
        elif what == 'future':
            kw = dict(this_update=NOW + DAY, next_update=NOW + 9 * DAY)
        elif what in ('short', 'just old', 'just future'):
            v = {'short': SHORT, 'just old': JUST_OLD, 'just future': JUST_FUTURE}[what]
            kw = dict(this_update=v['not_before'], next_update=v['not_after'])
        elif what in ('revoked', 'unknown'):
            kw = dict(status=what)
        return by.ocsp(cert, **kw)

    if status.startswith('each'):
        stapled, answers = {}, {}
        signers = issuers[::-1]            # leaf, then intermediates, with who signed them
        certs = [leaf, *[i.cert for i in signers[:-1]]]
        for i, (cert, by, e) in enumerate(zip(certs, signers, status.split()[1:], strict=True)):
            st, sv = EACH[e]
            if st:
                stapled[i] = b'garbage' if st == 'garbage' else resp(st, cert, by)
            if sv:
                answers[cert.serial_number] = None if sv == 'down' else resp(sv, cert, by)
        return stapled, Service(answers)
    if status == 'none':
        return {}, None
    if status in ('good', 'revoked', 'unknown', 'old', 'future', 'short', 'just old',
                  'just future'):
        return {0: resp(status, leaf, issuer)}, None
    if status == 'good both':
        out = {0: resp('good', leaf, issuer)}
        if up:
            out[1] = resp('good', issuer.cert, up)
        return out, None
    if status == 'other cert':
        return {0: resp('good', issuer.issue(leaf_key=pki.key('p256', 'other')), issuer)}, None
    if status == 'other signer':
        return {0: issuer.ocsp(leaf, signer=evil.key, signer_cert=evil.cert)}, None
    if status == 'self attested':
        # signed with the key of the (possibly revoked) server itself
        me = pki.key(case['kind'], 'leaf')
        return {0: issuer.ocsp(leaf, signer=me, signer_cert=leaf)}, None
    if status == 'garbage':
        return {0: b'garbage'}, None
    if status == 'empty':
        return {0: b''}, None
    if status.startswith('inter'):
        if not up:
            return None, None
        return {1: b'garbage' if 'garbage' in status else resp('revoked', issuer.cert, up)}, None
    if status == 'leaf good inter revoked':
        if not up:
            return None, None
        return {0: resp('good', leaf, issuer), 1: resp('revoked', issuer.cert, up)}, None
    answers = {}
    for i in range(1, len(issuers)):
        answers[issuers[i].cert.serial_number] = resp('good', issuers[i].cert, issuers[i - 1])
    what = status.split(' ', 1)[1]
    if what in ('good', 'revoked', 'unknown', 'old'):
        answers[leaf.serial_number] = resp(what, leaf, issuer)
    elif what == 'garbage':
        answers[leaf.serial_number] = b'garbage'
    elif what == 'down':
        answers[leaf.serial_number] = None
    elif what == 'inter revoked':
        if not up:
            return None, None
        answers[leaf.serial_number] = resp('good', leaf, issuer)
        answers[issuer.cert.serial_number] = resp('revoked', issuer.cert, up)
    return {}, Service(answers)


def proof(case, peer, leaf_key, th_before):
    what, kind = case['proof'], case['kind']
    other_kind = {'p256': 'p384'}.get(kind, 'p256')
    algs = ref.algs_for(leaf_key)
    alg = case.get('alg') or algs[0]
    if what == 'ok':
        return peer.cv_raw(alg=alg)
    if what == 'wrong key':
        return peer.cv_raw(key=pki.key(kind, 'other'), alg=alg)
    if what == 'client context':
        return peer.cv_raw(alg=alg, context=b' ' * 64 + b'TLS 1.3, client CertificateVerify\0')
    if what == 'no padding':
        return peer.cv_raw(alg=alg, context=b'TLS 1.3, server CertificateVerify\0')
    if what == 'before certificate':
        return peer.cv_raw(alg=alg, th=th_before)
    if what == 'after':
        return peer.cv_raw(alg=alg, th=bytes(len(th_before)))
    if what == 'empty':
        return peer.cv_raw(alg=alg, sig=b'')
    good = ref.sign(leaf_key, alg, ref.CV_SERVER + peer.th())
    if what == 'flipped':
        return peer.cv_raw(alg=alg, sig=good[:-1] + bytes([good[-1] ^ 1]))
    if what == 'truncated':
        return peer.cv_raw(alg=alg, sig=good[:-1])
    if what == 'replayed':
        return peer.cv_raw(alg=alg, sig=ref.sign(leaf_key, alg, ref.CV_SERVER + bytes(32)))
    if what == 'not offered':
        return peer.cv_raw(alg=alg)                 # the client does not offer it, see run()
    if what == 'wrong curve':
        # announced with the scheme of another key
        return peer.cv_raw(alg=ref.algs_for(pki.key(other_kind, 'other'))[0], sig=good)
    if what == 'pkcs1':
        return ref.hs(ref.CERT_VERIFY, ref.u16(0x0401) + ref.v16(legacy_sign(leaf_key, 256)))
    if what == 'sha1':
        return ref.hs(ref.CERT_VERIFY, ref.u16(0x0201) + ref.v16(legacy_sign(leaf_key, 1)))
    raise AssertionError(what)


def legacy_sign(key, n):
    from cryptography.hazmat.primitives import hashes
    from cryptography.hazmat.primitives.asymmetric import padding, rsa
    if isinstance(key, rsa.RSAPrivateKey):
        h = hashes.SHA256() if n == 256 else hashes.SHA512()
        return key.sign(b'whatever', padding.PKCS1v15(), h)
    return b'\x30\x06\x02\x01\x01\x02\x01\x01'


def expected(case, issuers):
    out = True
    for dim, values in DIMS.items():
        v = case[dim]
        if str(v).startswith('each'):
            bad = {'R', 'r', 'd', 'o', 'Rg', 'X', 'Xg', 'x'} & set(v.split()[1:])
            if bad:
                return False
            if 'Gr' in v.split():
                out = None
            continue
        if dim == 'name' and v == 'no host':
            continue
        if case['shape'] == 'no trust' and dim not in ('shape', 'proof'):
            continue
        e = values[v]
        if dim == 'crl' and v == 'inter' and len(issuers) < 2:
            e = None                      # the trust anchor itself
        if dim == 'proof' and v == 'pkcs1' and case['kind'] != 'rsa':
            e = False
        if e is False:
            return False
        if e is None:
            out = None
    return out


def run_clock(obs):
    """ The validity is the one at the time the certificate is presented. """
    now = datetime.datetime.now(datetime.UTC).replace(tzinfo=None, microsecond=0)
    edge = now + datetime.timedelta(seconds=4)
    todo = [clock_case(now, edge, *variant, obs) for variant in itertools.product(
        ('leaf', 'inter'), ('ends', 'begins'), ('dns', 'ip', 'no host'),
        ('config', 'connection', 'hello'))]
    for steps in todo:          # up to the pause
        next(steps)
    while datetime.datetime.now(datetime.UTC).replace(tzinfo=None) \
            < edge + datetime.timedelta(seconds=1.5):
        time.sleep(.1)
    for steps in todo:
        for _ in steps:
            pass


def clock_case(now, edge, who, change, name, when, obs):
    what = f'clock {who} {change} {name} {when}'
    host, san = host_and_san(name)
    kw = dict(not_before=now - DAY, not_after=edge) if change == 'ends' \
        else dict(not_before=edge, not_after=now + DAY)
    root, key = ca('Root'), pki.key('p256', 'leaf')
    inter = pki.CA('I0', parent=root, private_key=pki.key('p256', 'ca:I0:'),
                   **(kw if who == 'inter' else {}))
    leaf = inter.issue(leaf_key=key, eku=(pki.EKU_CLIENT, pki.EKU_SERVER), **san,
                       **(kw if who == 'leaf' else {}))
    config = impl.client_config(trust_store=Store([root.cert]))
    if when == 'config':
        yield
    dut = impl.Impl(config, server_hostname=host)
    if when == 'connection':
        yield
    dut.start()
    peer = ref.RefServer(key, [leaf, inter.cert])
    peer.feed(dut.tx())
    if when == 'hello':
        yield
    ok = dut.rx(peer.flight())
    obs.step()
    obs.state(what)
    if change == 'ends':
        need(not ok and not dut.connected, f'{what}: accepted, it is expired')
        peer.feed(dut.tx())
        need(len(peer.alerts) == 1 and peer.alerts[0][0] == 2, f'{what}: alerts {peer.alerts}')
        dut.assert_dead(what)
    else:
        need(ok and dut.connected, lambda: f'{what}: refused: {dut.error!r}')
    obs.outcome(f'clock {change}')
    obs.trace()


def run(case, obs):
    if isinstance(case, list):
        run_clock(obs)
        return
    host, root, issuers, chain, leaf, leaf_key, depth = build(case)
    stapled, service = statuses(case, issuers, chain, leaf)
    if stapled is None:
        obs.outcome('not buildable')
        return
    kw = dict(max_chain_depth=depth) if depth != 5 else {}     # 5 by default
    if case['shape'] == 'no trust':
        kw['trust'] = False
    else:
        kw['trust_store'] = Store([root.cert])
    crl = crl_of(case, root, issuers, chain, leaf)
    if crl is not None:
        kw['revocation_list'] = crl
    algs = ref.algs_for(leaf_key)
    if case['proof'] == 'not offered':
        alg = case.get('alg') or algs[0]
        kw['signature_algorithms'] = impl.sigalgs([a for a in ref.ALL_SIGALGS if a != alg])
    elif case['proof'] in ('pkcs1', 'sha1'):
        kw['signature_algorithms'] = impl.sigalgs([*ref.ALL_SIGALGS, 0x0401])
    dut = impl.Impl.client(host=host, ocsp_service=service, **kw).start()
    peer = ref.RefServer(leaf_key, chain)
    peer.feed(dut.tx())
    for i, der in stapled.items():
        peer.cert_extensions[i] = [(ref.X_STATUS, ref.u8(1) + ref.v24(der))]
    want = expected(case, issuers)
    what = ' '.join(f'{k}={v}' for k, v in case.items())
    obs.state(what)
    ok = dut.rx(peer.sh() + ref.CCS_RECORD + peer.send_hs(peer.ee_raw()))
    need(ok, lambda: f'{what}: {dut.error!r}')
    th_before = peer.th()
    messages = [lambda: peer.cert_raw(), lambda: proof(case, peer, leaf_key, th_before)]
    ok = True
    for message in messages:
        ok = ok and dut.rx(peer.send_hs(message()))
        obs.step()
    ok = ok and dut.rx(peer.fin())
    obs.step()
    out = dut.tx()
    peer.sent_finished = True
    if ok:
        need(want is not False, f'{what}: accepted')
        peer.feed(out)
        need(dut.connected and peer.client_finished, f'{what}: not connected')
        need(dut.rx(peer.send(ref.APPDATA, b'hello')) and dut.read == b'hello', what)
        if chain:
            need(dut.conn.nconfig.peer_certificate == chain[0],
                 f'{what}: another certificate is reported')
    else:
        need(want is not True, lambda: f'{what}: refused: {dut.error!r} {dut.error.__cause__!r}')
        need(not dut.connected, f'{what}: refused yet connected')
        peer.feed(out)
        need(len(peer.alerts) == 1 and peer.alerts[0][0] == 2, f'{what}: alerts {peer.alerts}')
        need(not peer.client_finished and not peer.app, f'{what}: finished')
        dut.assert_dead(what)
    obs.outcome('accepted' if ok else f'refused {peer.alerts[0][1]}')
    obs.trace()


ASSUMPTIONS = ['certification path building and signature checks are those of pyca/cryptography',
               'the clock of the machine is right']

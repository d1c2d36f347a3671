""" Certificates, revocation lists and OCSP responders, all built in memory at start up. """
import datetime
import functools
import ipaddress

from cryptography import x509
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec, ed448, ed25519, rsa
from cryptography.x509 import ocsp
from cryptography.x509.oid import (
    AuthorityInformationAccessOID, ExtendedKeyUsageOID, NameOID,
)

DAY = datetime.timedelta(days=1)
NOW = datetime.datetime.now(datetime.UTC).replace(tzinfo=None, microsecond=0)
HOST = 'server.example'
EKU_SERVER, EKU_CLIENT = ExtendedKeyUsageOID.SERVER_AUTH, ExtendedKeyUsageOID.CLIENT_AUTH
OCSP_URL = 'http://ocsp.example/'


@functools.cache
def key(kind, tag=''):
    """ One private key per (kind, tag), memoized. """
    if kind == 'ed25519': return ed25519.Ed25519PrivateKey.generate()
    if kind == 'ed448': return ed448.Ed448PrivateKey.generate()
    if kind == 'rsa': return rsa.generate_private_key(65537, 2048)
    return ec.generate_private_key({'p256': ec.SECP256R1, 'p384': ec.SECP384R1,
                                    'p521': ec.SECP521R1}[kind]())

KEY_KINDS = ['p256', 'p384', 'p521', 'ed25519', 'ed448', 'rsa']


def name(cn):
    return x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, cn)])


def sig_hash(private_key):
    if isinstance(private_key, ed25519.Ed25519PrivateKey | ed448.Ed448PrivateKey):
        return None
    return hashes.SHA256()


class CA:
    def __init__(self, cn, private_key=None, parent=None, kind='p256', *, path_length=None,
                 not_before=NOW - 10 * DAY, not_after=NOW + 30 * DAY, ca=True, crl_sign=True,
                 ocsp_url=None, hash_=None):
        self.cn, self.key = cn, private_key or key(kind, 'ca:' + cn)
        self.hash = hash_
        pub = self.key.public_key()
        issuer = parent or self
        b = (x509.CertificateBuilder().subject_name(name(cn)).issuer_name(name(issuer.cn))
             .public_key(pub).serial_number(x509.random_serial_number())
             .not_valid_before(not_before).not_valid_after(not_after)
             .add_extension(x509.BasicConstraints(ca=ca, path_length=path_length if ca else None),
                            critical=True)
             .add_extension(x509.KeyUsage(
                 digital_signature=not ca, key_cert_sign=ca, crl_sign=ca and crl_sign,
                 content_commitment=False, key_encipherment=False, data_encipherment=False,
                 key_agreement=False, encipher_only=False, decipher_only=False), critical=True)
             .add_extension(x509.SubjectKeyIdentifier.from_public_key(pub), critical=False)
             .add_extension(x509.AuthorityKeyIdentifier.from_issuer_public_key(
                 issuer.key.public_key()), critical=False))
        if ocsp_url:
            b = b.add_extension(_aia(ocsp_url), critical=False)
        self.cert = b.sign(issuer.key, issuer.hash or sig_hash(issuer.key))

    def issue(self, cn=HOST, leaf_key=None, *, kind='p256', dns=(HOST,), ips=(),
              not_before=NOW - DAY, not_after=NOW + 20 * DAY, eku=(EKU_SERVER,), san=True,
              ocsp_url=None, serial=None, aia=None, tamper_key=None, ca_issuers=None):
        leaf_key = leaf_key or key(kind, 'leaf')
        b = (x509.CertificateBuilder().subject_name(name(cn)).issuer_name(name(self.cn))
             .public_key(leaf_key.public_key())
             .serial_number(serial or x509.random_serial_number())
             .not_valid_before(not_before).not_valid_after(not_after)
             .add_extension(x509.BasicConstraints(ca=False, path_length=None), critical=True)
             .add_extension(x509.AuthorityKeyIdentifier.from_issuer_public_key(
                 self.key.public_key()), critical=False)
             .add_extension(x509.KeyUsage(
                 digital_signature=True, key_cert_sign=False, crl_sign=False,
                 content_commitment=False, key_encipherment=False, data_encipherment=False,
                 key_agreement=False, encipher_only=False, decipher_only=False), critical=True))
        if san:
            b = b.add_extension(x509.SubjectAlternativeName(
                [x509.DNSName(d) for d in dns]
                + [x509.IPAddress(ipaddress.ip_address(i)) for i in ips]), critical=False)
        if eku:
            b = b.add_extension(x509.ExtendedKeyUsage(list(eku)), critical=False)
        if aia or ocsp_url or ca_issuers:
            b = b.add_extension(aia or _aia(ocsp_url, ca_issuers), critical=False)
        signer = tamper_key or self.key
        return b.sign(signer, self.hash or sig_hash(signer))

    def crl(self, serials):
        b = (x509.CertificateRevocationListBuilder().issuer_name(name(self.cn))
             .last_update(NOW - DAY).next_update(NOW + DAY))
        for s in serials:
            b = b.add_revoked_certificate(
                x509.RevokedCertificateBuilder().serial_number(s).revocation_date(NOW - DAY)
                .build())
        return b.sign(self.key, sig_hash(self.key))

    def ocsp(self, cert, issuer=None, *, status='good', this_update=NOW - DAY,
             next_update=NOW + DAY, signer=None, signer_cert=None, alg=hashes.SHA1, hash_=...):
        signer = signer or self.key
        bad = status == 'revoked'
        b = ocsp.OCSPResponseBuilder().add_response(
            cert=cert, issuer=issuer or self.cert, algorithm=alg(),
            cert_status={'good': ocsp.OCSPCertStatus.GOOD,
                         'revoked': ocsp.OCSPCertStatus.REVOKED,
                         'unknown': ocsp.OCSPCertStatus.UNKNOWN}[status],
            this_update=this_update, next_update=next_update,
            revocation_time=NOW - DAY if bad else None, revocation_reason=None,
        ).responder_id(ocsp.OCSPResponderEncoding.HASH, signer_cert or self.cert)
        from cryptography.hazmat.primitives.serialization import Encoding
        return b.sign(signer, sig_hash(signer) if hash_ is ... else hash_
                      ).public_bytes(Encoding.DER)


def _aia(url, ca_issuers=None):
    descs = []
    if ca_issuers:
        descs.append(x509.AccessDescription(AuthorityInformationAccessOID.CA_ISSUERS,
                                            x509.UniformResourceIdentifier(ca_issuers)))
    if url:
        descs.append(x509.AccessDescription(AuthorityInformationAccessOID.OCSP,
                                            x509.UniformResourceIdentifier(url)))
    return x509.AuthorityInformationAccess(descs)


@functools.cache
def root():
    return CA('Root')

@functools.cache
def leaf(kind='p256'):
    """ (private key, [certificate]) of a plain server certificate. """
    return key(kind, 'leaf'), [root().issue(kind=kind)]

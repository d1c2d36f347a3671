""" Two siotls connections back to back, with throw-away certificates. """
import datetime, os, sys, logging
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
logging.disable(logging.CRITICAL)
from cryptography import x509
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec, ed25519, rsa
from cryptography.x509.oid import ExtendedKeyUsageOID, NameOID
from cryptography.x509.verification import Store

NOW = datetime.datetime.now(datetime.timezone.utc).replace(tzinfo=None, microsecond=0)
DAY = datetime.timedelta(days=1)
HOST = 'server.example'


def name(cn):
    return x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, cn)])


def make_cert(cn, key, issuer_cn, issuer_key, ca=False, dns=(), days=(-2, 20), eku=True, pathlen=None,
              serial=None, exts=()):
    b = (x509.CertificateBuilder().subject_name(name(cn)).issuer_name(name(issuer_cn))
         .public_key(key.public_key()).serial_number(serial or x509.random_serial_number())
         .not_valid_before(NOW + days[0] * DAY).not_valid_after(NOW + days[1] * DAY)
         .add_extension(x509.BasicConstraints(ca=ca, path_length=pathlen), critical=True)
         .add_extension(x509.KeyUsage(digital_signature=True, key_cert_sign=ca, crl_sign=ca,
             content_commitment=False, key_encipherment=False, data_encipherment=False,
             key_agreement=False, encipher_only=False, decipher_only=False), critical=True)
         .add_extension(x509.SubjectKeyIdentifier.from_public_key(key.public_key()), critical=False)
         .add_extension(x509.AuthorityKeyIdentifier.from_issuer_public_key(issuer_key.public_key()),
                        critical=False))
    if dns:
        b = b.add_extension(x509.SubjectAlternativeName([x509.DNSName(d) for d in dns]), critical=False)
    if eku and not ca:
        b = b.add_extension(x509.ExtendedKeyUsage([ExtendedKeyUsageOID.SERVER_AUTH]), critical=False)
    for e in exts:
        b = b.add_extension(e, critical=False)
    return b.sign(issuer_key, hashes.SHA256())


def setup(leaf_key=None, **kw):
    ca_key = ec.generate_private_key(ec.SECP256R1())
    ca = make_cert('root', ca_key, 'root', ca_key, ca=True)
    leaf_key = leaf_key or ec.generate_private_key(ec.SECP256R1())
    leaf = make_cert(HOST, leaf_key, 'root', ca_key, dns=[HOST], **kw)
    return ca_key, ca, leaf_key, leaf


def pair(client=None, server=None, host=HOST, material=None):
    from siotls.configuration import TLSConfiguration
    from siotls.connection import TLSConnection
    ca_key, ca, key, leaf = material or setup()
    s = {'private_key': key, 'certificate_chain': [leaf]} | (server or {})
    c = {'trust_store': Store([ca])} | (client or {})
    return (TLSConnection(TLSConfiguration('client', **c), server_hostname=host),
            TLSConnection(TLSConfiguration('server', **s)))


def move(src, dst):
    data = bytes(src.data_to_send())
    if data:
        dst.receive_data(data)
    return len(data)


def handshake(client, server):
    client.initiate_connection()
    server.initiate_connection()
    while move(client, server) + move(server, client):
        pass
    assert client.is_connected() and server.is_connected(), 'not connected'
    return client, server

""" Drives one real siotls connection through its public interface only. """
from . import env, pki  # noqa: F401
from .engine import need

from cryptography.x509.verification import Store
from siotls import TLSError
from siotls.configuration import TLSConfiguration
from siotls.connection import TLSConnection
from siotls.contents import alerts
from siotls.iana import (
    ALPNProtocol, CipherSuites, MaxFragmentLengthOctets, NamedGroup, SignatureScheme,
)

SUITE = {0x1301: CipherSuites.TLS_AES_128_GCM_SHA256, 0x1302: CipherSuites.TLS_AES_256_GCM_SHA384,
         0x1303: CipherSuites.TLS_CHACHA20_POLY1305_SHA256}
MFL_CODE = {512: 1, 1024: 2, 2048: 3, 4096: 4}


def suites(codes): return [CipherSuites(c) for c in codes]
def groups(codes): return [NamedGroup(c) for c in codes]
def sigalgs(codes): return [SignatureScheme(c) for c in codes]


def server_config(kind='p256', **kw):
    key, chain = pki.leaf(kind)
    kw.setdefault('private_key', key)
    if 'public_key' not in kw:
        kw.setdefault('certificate_chain', chain)
    return TLSConfiguration('server', **kw)


def client_config(*, trust=True, **kw):
    if trust:
        kw.setdefault('trust_store', Store([pki.root().cert]))
    return TLSConfiguration('client', **kw)


class Impl:
    """
    ``error`` is the first exception a call raised; ``read`` everything the application could
    read so far.
    """
    def __init__(self, config, **kw):
        self.conn = TLSConnection(config, **kw)
        self.side = config.side
        self.error = None
        self.read = b''

    @classmethod
    def server(cls, kind='p256', **kw):
        return cls(server_config(kind, **kw))

    @classmethod
    def client(cls, host=pki.HOST, ocsp_service=None, **kw):
        return cls(client_config(**kw), server_hostname=host, ocsp_service=ocsp_service)

    def start(self):
        self.conn.initiate_connection()
        return self

    def rx(self, data, chunk=None):
        """ Deliver bytes, True when nothing was raised. """
        data = bytes(data)
        step = chunk or len(data) or 1
        for i in range(0, len(data), step):
            try:
                self.conn.receive_data(data[i:i + step])
            except Exception as exc:
                if self.error is None:
                    self.error = exc
                self.read += bytes(self.conn.data_to_read())
                return False
        self.read += bytes(self.conn.data_to_read())
        return True

    def tx(self):
        return bytes(self.conn.data_to_send())

    def send(self, data):
        self.conn.send_data(data)

    @property
    def alert(self):
        """ alert description number the last failure maps to, None when it isn't an alert """
        if isinstance(self.error, alerts.Alert):
            return int(self.error.description)
        return None

    @property
    def connected(self):
        return bool(self.conn.is_connected())

    @property
    def post(self):
        return bool(self.conn.is_post_handshake())

    def assert_alive(self, what=''):
        need(self.error is None, lambda: f'{what}: unexpectedly failed: {self.error!r}')

    def assert_dead(self, what='', junk=()):
        """ A failed connection: not connected, cannot send, delivers and emits nothing more. """
        need(not self.connected, f'{what}: still connected after the failure')
        need(self.post, f'{what}: a failed connection is not a connection in handshake')
        self.tx()
        before = self.read
        for data in (b'', b'x', b'y' * 20000):
            try:
                self.conn.send_data(data)
            except Exception:
                pass
            else:
                need(False, f'{what}: application data can be sent on a failed connection')
        for data in junk:
            try:
                self.conn.receive_data(data)
            except Exception:
                pass
        need(not self.conn.data_to_read(), f'{what}: data readable after the failure')
        need(self.read == before, 'x')
        need(not self.tx(), f'{what}: a failed connection emits data')
        need(not self.connected, f'{what}: a failed connection came back')
        need(self.post, f'{what}: a failed connection went back to the handshake')

""" Established connections, between siotls and the puppet or between two siotls. """
from . import impl, pki, ref
from .engine import need


def server_vs_ref(suite=ref.CHACHA, group=ref.X25519, mfl=None, kind='p256', **kw):
    """ (siotls server, puppet client), handshake complete """
    dut = impl.Impl.server(kind, cipher_suites=impl.suites([suite]),
                           key_exchanges=impl.groups([group]), **kw).start()
    peer = ref.RefClient(suites=[suite], groups=[group], mfl=impl.MFL_CODE.get(mfl))
    need(dut.rx(peer.hello()), lambda: f'ClientHello refused: {dut.error!r}')
    peer.feed(dut.tx())
    need(peer.server_finished, 'no complete server flight')
    need(dut.rx(ref.CCS_RECORD + peer.finished()), lambda: f'Finished refused: {dut.error!r}')
    peer.feed(dut.tx())
    need(dut.connected, 'server not connected')
    return dut, peer


def client_vs_ref(suite=ref.CHACHA, group=ref.X25519, mfl=None, kind='p256', ee=(), **kw):
    """ (siotls client, puppet server), handshake complete """
    key, chain = pki.leaf(kind)
    if mfl:
        kw['max_fragment_length'] = impl.MaxFragmentLengthOctets(mfl)
        ee = [*ee, (ref.X_MFL, ref.u8(impl.MFL_CODE[mfl]))]
    dut = impl.Impl.client(cipher_suites=impl.suites([suite]),
                           key_exchanges=impl.groups([group]), **kw).start()
    peer = ref.RefServer(key, chain, suite=suite, group=group, ee=ee)
    peer.feed(dut.tx())
    need(dut.rx(peer.flight(frag=mfl)), lambda: f'server flight refused: {dut.error!r}')
    peer.feed(dut.tx())
    need(dut.connected and peer.client_finished, 'client not connected')
    return dut, peer


def vs_ref(role, **kw):
    return (server_vs_ref if role == 'server' else client_vs_ref)(**kw)


def pump(a, b, limit=20):
    """ Exchange bytes until both are quiet. """
    for _ in range(limit):
        x = a.tx()
        if x:
            b.rx(x)
        y = b.tx()
        if y:
            a.rx(y)
        if not x and not y:
            return
    need(False, 'the two peers never stop talking to each other')


def siotls_pair(client_kw=None, server_kw=None, kind='p256'):
    c = impl.Impl.client(**(client_kw or {})).start()
    s = impl.Impl.server(kind, **(server_kw or {})).start()
    return c, s


def connected_pair(client_kw=None, server_kw=None, kind='p256'):
    c, s = siotls_pair(client_kw, server_kw, kind)
    pump(c, s)
    need(c.error is None and s.error is None,
         lambda: f'handshake failed: client {c.error!r}, server {s.error!r}')
    need(c.connected and s.connected, 'handshake incomplete')
    return c, s

"""
C23: two connections of one configuration, interleaved in every way; what is observable of each is
what it is when it is alone.
"""
import dataclasses
import functools
import itertools
import multiprocessing

from .. import impl, pki, ref
from ..engine import need
from . import c10

PROP = 'C23'
CHUNK = 4
ASSUMPTIONS = ['Steps are atomic calls of the public interface: one connection is never shared by '
               'two threads.']
GROUPS = [ref.X25519, ref.P256]
SIGALGS = [ref.RSAE256, ref.EC384, ref.EC256, ref.ED25519, ref.PSS256]
H1, H2 = b'http/1.1', b'h2'

# what the puppet client asks
ASKS = {
    'plain': {}, 'aes': dict(suites=[ref.AES128], alpn=[H2]),
    'alpn': dict(alpn=[H1, H2]), 'sha384': dict(suites=[ref.AES256]),
    'p256': dict(groups=[ref.P256, ref.X25519]), 'mfl': dict(mfl=1),
    'raw': dict(extra=[(ref.X_SCT, b'\1\2')]), 'both': dict(extra=[(ref.X_SCT, b'\2\2\0')]),
    'sigalg': dict(sigalgs=[ref.EC384]), 'badalpn': dict(alpn=[b'smtp']),
    'late': dict(groups=[ref.P384, ref.P256], suites=[ref.CHACHA], alpn=[H2]),
    'sid': dict(sid=b's' * 32), 'nosuite': dict(suites=[0x1304]),
}
# what the puppet server answers
ANSWERS = {
    'plain': {}, 'aes': dict(suite=ref.AES128), 'sha384': dict(suite=ref.AES256),
    'alpn': dict(ee=[(ref.X_ALPN, ref.v16(ref.v8(H2)))]),
    'mfl': dict(ee=[(ref.X_MFL, b'\1')]), 'badalpn': dict(ee=[(ref.X_ALPN, ref.v16(ref.v8(b'smtp')))]),
    'rsa': dict(kind='rsa'), 'host': dict(host='other.example'),
}
SERVER_KINDS = [*(('ok', a) for a in ASKS), ('hrr', 'plain'), ('hrr', 'sha384'), ('hrr', 'alpn'),
                ('hrr_late', 'late'), ('no_share', 'plain'), ('bad_fin', 'plain'), ('bad_fin', 'aes'), ('fatal', 'plain'),
                ('early_app', 'plain'), ('close', 'alpn'), ('bad_ch', 'plain'), ('bad_mac', 'aes'),
                ('abandon', 'plain'), ('big_record', 'plain'), ('unknown', 'sha384'),
                ('close2', 'plain'), ('cancel', 'plain'), ('cancel2', 'plain'), ('warn', 'plain')]
CLIENT_KINDS = [*(('ok', a) for a in ANSWERS), ('hrr', 'plain'), ('hrr', 'sha384'),
                ('bad_fin', 'plain'), ('bad_cv', 'aes'), ('fatal', 'plain'), ('nst', 'alpn'),
                ('close', 'plain'), ('bad_cert', 'plain'), ('cert_req_twice', 'plain'),
                ('bad_mac', 'sha384'), ('abandon', 'plain'), ('double_sh', 'plain'),
                ('close2', 'plain'), ('cancel', 'plain'), ('cancel2', 'plain'), ('warn', 'plain')]
ALPN = [impl.ALPNProtocol.HTTP_1_1, impl.ALPNProtocol.HTTP_2]


@functools.cache
def leaf(kind):
    return pki.leaf(kind)


def config(role):
    # what is chosen is not always the first choice
    kw = dict(key_exchanges=impl.groups(GROUPS), alpn=list(ALPN),
              signature_algorithms=impl.sigalgs(SIGALGS))
    if role == 'server':
        key, chain = leaf('ed25519')
        return impl.server_config('ed25519', public_key=key.public_key(),
                                  certificate_chain=chain, **kw)
    return impl.client_config(max_fragment_length=impl.MaxFragmentLengthOctets(512), **kw)


@dataclasses.dataclass
class Link:
    """ One connection and its puppet, ``steps`` yields after each atomic step. """
    role: str
    kind: tuple
    config: object
    halves: bool = False

    def steps(self):
        scenario, profile = self.kind
        self.ok = True
        if self.role == 'server':
            self.dut = impl.Impl(self.config).start()
            self.peer = ref.RefClient(**{'groups': GROUPS, **ASKS[profile]})
            yield
            stages = c10.server_stages('ok' if scenario == 'abandon' else scenario, self.peer,
                                       lambda s, r: ())
        else:
            kw = dict(ANSWERS[profile])
            host = kw.pop('host', pki.HOST)
            self.dut = impl.Impl(self.config, server_hostname=host)
            self.peer = ref.RefServer(*leaf(kw.pop('kind', 'ed25519')), **kw)
            yield
            self.dut.start()
            self.peer.feed(self.dut.tx())
            yield
            self.peer.pick()
            stages = c10.client_stages('ok' if scenario == 'abandon' else scenario, self.peer,
                                       lambda s, r: ())
        for data in stages:
            pieces = [data[:len(data) // 2], data[len(data) // 2:]] if self.halves else [data]
            for piece in pieces:
                if piece and self.ok:
                    self.ok = self.dut.rx(piece)
                    self.peer.feed(self.dut.tx())
                    yield
            if not self.ok:
                break
            if scenario == 'abandon':
                return
        if self.ok and self.dut.connected:
            for data in (b'from the connection', b'x' * 1000):
                self.dut.send(data)
                self.peer.feed(self.dut.tx())
            yield
            self.dut.conn.close_sending_end()
            self.peer.feed(self.dut.tx())
            yield

    def observed(self):
        out = c10.summary(self.dut, self.peer, self.ok)
        out['app'] = self.peer.app
        n = self.dut.conn.nconfig
        out['peer'] = n and (n.peer_certificate and n.peer_certificate.subject.rfc4514_string(),
                             n.peer_public_key is not None, str(n.client_certificate_type),
                             n.can_send_heartbeat, n.can_echo_heartbeat, n.peer_want_ocsp_stapling)
        # signatures have no fixed length
        out['events'] = [(c, e) for c, e, _ in out['events']]
        if self.role == 'server':
            out['certificate'] = self.peer.cert and [der for der, _ in self.peer.cert]
            out['ee'] = self.peer.ee
        else:
            out['offers'] = [{k: v for k, v in h.items() if k not in ('random', 'shares', 'exts', 'x')}
                             for h in self.peer.hellos]
            out['extensions'] = [[(t, d) for t, d in h['exts'] if t != ref.X_KEYSHARE]
                                 for h in self.peer.hellos]
            out['groups'] = [[g for g, _ in h['shares']] for h in self.peer.hellos]
        return out

    def fresh(self):
        """ values that no two connections may have in common """
        out = set()
        if self.role == 'server':
            if self.peer.server_finished or hasattr(self.peer, 'server_random'):
                out |= {self.peer.server_random, self.peer.server_pub}
        else:
            out |= {h['random'] for h in self.peer.hellos}
            out |= {share for h in self.peer.hellos for _, share in h['shares']}
        return out


def snapshot(conf):
    out = {}
    for field in dataclasses.fields(conf):
        value = getattr(conf, field.name)
        out[field.name] = list(value) if isinstance(value, list) else value
    for name in ('certificate_types', 'peer_certificate_types', 'require_peer_authentication'):
        value = getattr(conf, name)
        out[name] = list(value) if isinstance(value, list) else value
    return out


def alone(spec):
    role, kind, halves = spec
    link = Link(role, kind, config(role), halves)
    n = sum(1 for _ in link.steps())
    return link.observed(), n


ALONE = {}


def prepare(tier):
    """ what each connection is in a process where there never was another one """
    for kind in {'ed25519', *(kw.get('kind', 'ed25519') for kw in ANSWERS.values())}:
        leaf(kind)
    pki.root()
    specs = [(role, kind, halves) for halves in (False, True)
             for role, kinds in (('server', SERVER_KINDS), ('client', CLIENT_KINDS))
             for kind in kinds]
    with multiprocessing.get_context('fork').Pool(8, maxtasksperchild=1) as pool:
        ALONE.update(zip(specs, pool.map(alone, specs, 1)))


def interleavings(n, m, switches):
    """ every word of n 0s and m 1s with at most that many switches """
    def words(left, cur, budget):
        if not any(left):
            yield ()
            return
        for tid in (cur, 1 - cur):
            cost = tid != cur
            if left[tid] and budget >= cost:
                rest = list(left)
                rest[tid] -= 1
                for tail in words(rest, tid, budget - cost):
                    yield (tid, *tail)
    for first in (0, 1):
        if (n, m)[first]:
            rest = [n, m]
            rest[first] -= 1
            for tail in words(rest, first, switches):
                yield (first, *tail)


def cases(tier):
    thorough = tier == 'thorough'
    bound = 99 if thorough else 3
    servers = [('server', k) for k in SERVER_KINDS]
    clients = [('client', k) for k in CLIENT_KINDS]
    for group in (servers, clients):
        for a, b in itertools.combinations_with_replacement(group, 2):
            yield [*a, *b, 0, bound]
            if thorough:
                yield [*a, *b, 1, 4]
    for a, b in itertools.product(servers, clients):
        if thorough or (a[1][0] != 'ok') == (b[1][0] != 'ok'):
            yield [*a, *b, 0, 5 if thorough else 2]


def run(case, obs):
    role_a, kind_a, role_b, kind_b, halves, bound = case
    specs = [(role_a, tuple(kind_a)), (role_b, tuple(kind_b))]
    shared = {role: config(role) for role in {role_a, role_b}}
    before = {role: snapshot(c) for role, c in shared.items()}
    want = [ALONE[(*spec, bool(halves))] for spec in specs]
    seen = set()
    for word in interleavings(want[0][1], want[1][1], bound):
        what = f'{specs[0]} and {specs[1]}, in the order {"".join(map(str, word))}'
        links = [Link(role, kind, shared[role], bool(halves)) for role, kind in specs]
        runs = [link.steps() for link in links]
        try:
            for tid in word:
                next(runs[tid], None)
                obs.step()
            for r in runs:
                need(next(r, 'end') == 'end', 'takes more steps than alone')
        except ref.RefError as exc:
            need(False, f'{what}: {exc}')
        for tid, link in enumerate(links):
            got = link.observed()
            for k, v in want[tid][0].items():
                need(got[k] == v, lambda: f'{what}: {k} of the connection {tid} is {got[k]!r}, '
                                          f'{v!r} when it is alone')
            values = link.fresh()
            need(not values & seen, f'{what}: random value or key share used twice')
            seen |= values
        obs.trace()
    for role, conf in shared.items():
        need(snapshot(conf) == before[role], f'{specs}: the configuration of the {role} changed')
    obs.state(*map(str, case))
    obs.outcome(f'{role_a}/{role_b}/{want[0][0]["error"]}/{want[1][0]["error"]}')

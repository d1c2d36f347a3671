""" C03: application data only travels over an established connection, under application keys. """
import itertools

from .. import automaton as A
from .. import ref
from ..engine import need
from ..ref import APPDATA, rec

PROP = 'C03'
WORLDS = {'server': A.ServerWorld, 'client': A.ClientWorld}
OPS = ['send', 'send_big', 'recv_plain', 'recv_current', 'recv_future', 'recv_past', 'read',
       'close_sending', 'close_receiving', 'peer_close', 'bad_record']
CONFIGS = [dict(), dict(suite=ref.AES256, group=ref.P256, other=ref.X25519, kind='ed25519')]


def cases(tier):
    depth = 2 if tier == 'quick' else 3
    for role, world in WORLDS.items():
        for ci in range(len(CONFIGS)):
            for stage, path in A.honest_paths(world):
                if stage in ('cert_r', 'cv_r', 'fin_r'):
                    continue
                for d in range(1, depth + 1):
                    for ops in itertools.product(OPS, repeat=d):
                        yield [role, ci, list(path), list(ops)]
    # data glued behind the last handshake message, at every possible boundary
    for role in WORLDS:
        for n in (1, 2, 3):
            for split in range(0, 5):
                yield [role, 'glued', n, split]


def run(case, obs):
    if case[1] == 'glued':
        return glued(case, obs)
    role, ci, path, ops = case
    w = WORLDS[role](**CONFIGS[ci])
    need(A.run_path(w, path, obs) is True, 'the honest handshake does not go through')
    can_send = w.stage == 'conn'
    optional = role == 'server' and w.stage == 'fin'      # 0.5-RTT data
    receiving = w.stage == 'conn'
    dead = False
    expected_rx, expected_tx = b'', b''
    for i, op in enumerate(ops):
        what = f'{role} {path} {ops[:i + 1]}'
        obs.state(role, ci, w.stage, tuple(ops[:i]), op)
        obs.step()
        if op in ('send', 'send_big'):
            data = b'sent by the dut %d.' % i * (1 if op == 'send' else 1100)
            try:
                w.dut.send(data)
            except Exception:
                need(not can_send, f'{what}: cannot send on an established connection')
                out = w.dut.tx()
                need(not out, f'{what}: refused data was sent')
            else:
                need(can_send or optional, f'{what}: data accepted before the connection '
                     'is established or after it is over')
                out = w.dut.tx()
                need(data not in out, f'{what}: data sent in clear')
                w.peer.feed(out)
                expected_tx += data
            obs.outcome(f'{role}/{w.stage}/{op}/{"sent" if expected_tx else "refused"}')
            need(w.peer.app == expected_tx, f'{what}: wrong data on the wire')
        elif op in ('recv_plain', 'recv_current', 'recv_future', 'recv_past', 'bad_record'):
            data = b'received %d' % i
            if op == 'recv_plain' or op == 'recv_current' and not w.peer.tx:
                raw, fine = rec(APPDATA, data), False
            elif op == 'recv_current':
                raw, fine = w.peer.send(APPDATA, data), receiving
            elif op == 'bad_record':
                raw = bytearray(w.peer.tx.seal(APPDATA, data) if w.peer.tx
                                else rec(APPDATA, data))
                raw[-1] ^= 1
                fine = False
            elif op == 'recv_future':
                raw, fine = w.build('new:app'), False
            else:
                raw, fine = w.build('old:app'), False
            if raw is None:
                continue
            ok = w.dut.rx(raw)
            quiet_feed(w, w.dut.tx())
            if fine and not dead:
                need(ok, lambda: f'{what}: legitimate data refused: {w.dut.error!r}')
                expected_rx += data
            elif not dead and receiving:
                need(not ok, f'{what}: forged record accepted')
            need(w.dut.read == expected_rx, f'{what}: wrong data delivered')
            if not fine and (receiving or w.stage != 'conn'):
                dead = True
            if not fine and dead:
                can_send = optional = receiving = False
            obs.outcome(f'{role}/{w.stage}/{op}/{"ok" if ok else "failed"}')
        elif op == 'read':
            need(not w.dut.conn.data_to_read(), f'{what}: unexpected data readable')
        elif op == 'close_sending':
            w.dut.conn.close_sending_end()
            can_send = optional = False
            if w.stage != 'conn':
                dead, receiving = True, False
            quiet_feed(w, w.dut.tx())
        elif op == 'close_receiving':
            w.dut.conn.close_receiving_end()
            receiving = False
            if w.stage != 'conn':
                dead, can_send, optional = True, False, False
            quiet_feed(w, w.dut.tx())
        elif op == 'peer_close':
            w.dut.rx(w.peer.send_alert(0, 1))
            receiving = False
            if w.stage != 'conn':
                dead, can_send, optional = True, False, False
            quiet_feed(w, w.dut.tx())
        need(w.peer.app == expected_tx, f'{what}: wrong data on the wire')
        if dead:
            need(not w.dut.connected, f'{what}: connected')
    if not dead and w.stage != 'conn':
        # whatever was attempted did not damage the handshake
        w.dut.error = None
        while w.stage != 'conn':
            w.deliver(next(iter(w.NEXT[w.stage])), obs, 'completion')
        need(w.peer.app == expected_tx, 'data appeared after the handshake')
        raw = w.peer.send(APPDATA, b'after')
        need(w.dut.rx(raw) and w.dut.read == expected_rx + b'after', 'data lost after handshake')
    elif dead:
        w.dut.assert_dead(f'{role} {path} {ops}',
                          [d for d in (safe_build(w, s) for s in w.remainder()) if d])
    obs.trace()


def safe_build(w, sym):
    try:
        return w.build(sym)
    except Exception:
        return None


def quiet_feed(w, out):
    app = w.peer.app
    w.peer_feed_quiet(out)
    need(w.peer.app == app, 'closing emitted application data')


def glued(case, obs):
    """ the last handshake flight and application data received together """
    role, _, n, split = case
    w = WORLDS[role]()
    path = ['ch'] if role == 'server' else ['sh', 'ee', 'cert', 'cv']
    A.run_path(w, path, obs)
    data = w.build('fin')
    if role == 'server':
        w.peer.use_app_keys()
    else:
        w.peer.tx, w.peer.tx_epoch = w.new_tx(), 'ap'
    sent = b''
    raws = [data]
    for i in range(n):
        sent += b'glued%d' % i
        raws.append(w.peer.send(APPDATA, b'glued%d' % i))
    stream = b''.join(raws)
    obs.state(role, 'glued', n, split)
    obs.step(n + 1)
    cut = [len(stream), 3, len(data), len(data) + 3, len(stream) - 1][split]
    ok = w.dut.rx(stream[:cut]) and (cut == len(stream) or w.dut.rx(stream[cut:]))
    need(ok, lambda: f'data right behind the handshake refused: {w.dut.error!r}')
    need(w.dut.connected and w.dut.read == sent, 'data right behind the handshake lost')
    w.peer.feed(w.dut.tx())
    obs.outcome(f'{role}/glued')
    obs.trace()

"""
C12: the closure automaton (two independent directions, plus death) in lockstep with a real
connection, from the first byte of the handshake on.

The model is explored breadth first; two histories are merged only when they lead to the same
model state through the same last WINDOW operations, so that every sequence of WINDOW+1 operations
is executed from every reachable model state.
"""
from .. import automaton as A
from .. import ref
from ..engine import need
from ..ref import ALERT, APPDATA, rec

PROP = 'C12'
WORLDS = {'server': A.ServerWorld, 'client': A.ClientWorld}
OPS = ['next', 'send', 'peer_data', 'peer_data_close_data', 'peer_close', 'peer_cancel',
       'peer_error', 'garbage', 'close_sending', 'close_receiving', 'read']
CONFIGS = [dict(), dict(suite=ref.AES256, group=ref.P256, other=ref.X25519, kind='ed25519')]


def step(role, m, op):
    """ m = (stage, receiving open, sending open, dead, unread data) """
    stage, rx, tx, dead, unread = m
    if op == 'read':
        return (stage, rx, tx, dead, False)
    if dead:
        return m
    live = stage == 'conn'
    if op == 'next':
        if live:
            return m
        nxt = next(iter(WORLDS[role].NEXT[stage].values()))
        return (nxt, True, True, False, False)
    die = (stage, False, False, True, unread)
    if op == 'send' or op == 'peer_cancel':
        return m
    if op == 'close_sending':
        return (stage, rx, False, False, unread) if live else die
    if op == 'close_receiving':
        return (stage, False, tx, False, unread) if live else die
    # what the peer sends
    if not rx:
        return m
    if not live or op in ('peer_error', 'garbage'):
        return die
    if op == 'peer_data':
        return (stage, rx, tx, False, True)
    return (stage, False, tx, False, unread or op == 'peer_data_close_data')


def histories(role, start, window):
    first = (start, True, True, False, False)
    seen, todo, out = set(), [(first, ())], []
    while todo:
        nxt = []
        for m, path in todo:
            extended = False
            for op in OPS:
                if op == 'next' and (m[0] == 'conn' or m[3]) and path and path[-1] == 'next':
                    continue
                if op == 'read' and path and path[-1] == 'read':
                    continue
                m2, p2 = step(role, m, op), (*path, op)
                key = (m, p2[-window:])
                if key in seen:
                    continue
                seen.add(key)
                nxt.append((m2, p2))
                extended = True
            if not extended:
                out.append(path)
        todo = nxt
    return out


def cases(tier):
    window = 3 if tier == 'quick' else 4
    for role, world in WORLDS.items():
        for ci in range(1 if tier == 'quick' else 2):
            for path in ([], ['hrr' if role == 'client' else 'ch_hrr']):
                stage = world.FIRST
                for sym in path:
                    stage = world.NEXT[stage][sym]
                for h in histories(role, stage, window - (1 if path else 0)):
                    yield [role, ci, path, list(h)]


def describe(tier):
    return {'bounds': 'fixpoint of (model state, last %d operations)' % (3 if tier == 'quick' else 4)}


def run(case, obs):
    role, ci, path, ops = case
    w = WORLDS[role](**CONFIGS[ci])
    need(A.run_path(w, path, obs) is True, 'honest handshake refused')
    dut, peer = w.dut, w.peer
    m = (w.stage, True, True, False, False)
    unread, sent, closes, fatal, told = b'', b'', 0, 0, False
    for i, op in enumerate(ops):
        what = f'{role} {path} {ops[:i + 1]}'
        stage, rx, tx, dead, _ = m
        live = stage == 'conn'
        m = step(role, m, op)
        obs.state(role, ci, m, op, tuple(ops[max(0, i - 1):i]))
        obs.step()
        events = len(peer.events)
        if op == 'next':
            if live or dead:
                deliver(w, dead_next(w))
            else:
                need(w.deliver(next(iter(w.NEXT[stage])), obs, what) is True, f'{what}: not accepted')
                need(w.stage == m[0], 'model out of step')
                events = len(peer.events)
        elif op == 'send':
            data = b'data %d' % i
            try:
                dut.send(data)
            except Exception:
                need(not (live and tx and not dead), f'{what}: the open sending side refused data')
            else:
                need(live and tx or (role, stage) == ('server', 'fin') and not dead,
                     f'{what}: data accepted by a closed sending side')
                sent += data
        elif op == 'read':
            data = bytes(dut.conn.data_to_read())
            need(data == unread, f'{what}: read {data}, expected {unread}')
            unread = b''
        elif op == 'close_sending':
            dut.conn.close_sending_end()
        elif op == 'close_receiving':
            dut.conn.close_receiving_end()
        else:
            tag = b'from the peer %d' % i
            raw = from_peer(w, op, tag)
            ok = receive(dut, raw)
            if live and rx and not dead and op.startswith('peer_data'):
                unread += tag
            if op == 'peer_cancel' and not dead and rx:
                need(ok, f'{what}: a warning is not an error')
        # what was emitted
        try:
            peer.feed(dut.tx())
        except ref.RefError as exc:
            need(False, f'{what}: {exc}')
        need(not peer.inbuf, f'{what}: incomplete record emitted')
        new = peer.events[events:]
        alerts = [tuple(e[1]) for e in new if e[0] == ALERT]
        died = m[3] and not dead
        if op == 'close_sending' and tx and not dead:
            need(live and [a[1] for a in alerts] == [0] or not live and len(alerts) <= 2,
                 f'{what}: emitted {new}, expected a close_notify')
        elif died and op in ('close_receiving', 'peer_close'):
            need(len(alerts) <= 1, f'{what}: emitted {new}')
        elif died and op != 'peer_error' and tx:
            need(len(alerts) == 1 and alerts[0][0] == 2 and len(new) == 1,
                 f'{what}: emitted {new}, expected one fatal alert')
        elif op == 'send':
            need(not alerts, f'{what}: emitted {new}')
        elif op != 'next':
            need(not new, f'{what}: emitted {new}')
        need(dead is False or not new, f'{what}: a dead connection emitted {new}')
        need(tx or not new, f'{what}: emitted {new} after the sending side was closed')
        closes += sum(1 for a in alerts if a[1] == 0)
        need(closes <= 1, f'{what}: more than one close_notify')
        need(peer.app == sent, f'{what}: data sent {sent}, received {peer.app}')
        stage, rx, tx, dead, has = m
        need(has == bool(unread), f'{what}: model')
        # what is reported
        if dead or stage != 'conn' or not (rx or tx):
            need(not dut.connected, f'{what}: reported connected')
        elif rx:
            need(dut.connected, f'{what}: reported disconnected')
        else:       # a loop that reads while connected would never end
            need(not dut.connected, f'{what}: reported connected, nothing can be received')
        need(dut.post == (dead or stage == 'conn'), f'{what}: is_post_handshake={dut.post}')
    data = bytes(dut.conn.data_to_read())
    need(data == unread, f'{role} {path} {ops}: in the end read {data}, expected {unread}')
    obs.outcome(f'{m[0]}/rx={m[1]}/tx={m[2]}/dead={m[3]}')
    obs.trace()


def receive(dut, raw):
    try:
        dut.conn.receive_data(raw)
    except Exception:
        return False
    return True


def deliver(w, raw):
    if raw:
        receive(w.dut, raw)


def dead_next(w):
    """ the rest of the handshake, on a connection that is over """
    if w.stage == 'conn':
        return None
    try:
        return w.build(next(iter(w.NEXT[w.stage])))
    except Exception:
        return None


def from_peer(w, op, tag):
    peer = w.peer
    if op == 'garbage':
        return b'\xff' * 30
    if op == 'peer_data_close_data':
        if not peer.tx:
            return rec(APPDATA, tag)
        return (peer.send(APPDATA, tag) + peer.send_alert(0, 1)
                + peer.send(APPDATA, b'too late'))
    if op == 'peer_data':
        return peer.send(APPDATA, tag) if peer.tx else rec(APPDATA, tag)
    return peer.send_alert({'peer_close': 0, 'peer_cancel': 90, 'peer_error': 40}[op],
                           2 if op == 'peer_error' else 1)

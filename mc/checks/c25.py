""" C25: every alert received has the effect the RFC gives it, in every stage. """
from .. import automaton as A
from .. import impl, ref
from ..engine import need

PROP = 'C25'
CHUNK = 32
CLOSE_NOTIFY, USER_CANCELED = 0, 90
# RFC 8446 appendix B.2
NAMES = {
    0: 'close_notify', 10: 'unexpected_message', 20: 'bad_record_mac', 22: 'record_overflow',
    40: 'handshake_failure', 42: 'bad_certificate', 43: 'unsupported_certificate',
    44: 'certificate_revoked', 45: 'certificate_expired', 46: 'certificate_unknown',
    47: 'illegal_parameter', 48: 'unknown_ca', 49: 'access_denied', 50: 'decode_error',
    51: 'decrypt_error', 70: 'protocol_version', 71: 'insufficient_security',
    80: 'internal_error', 86: 'inappropriate_fallback', 90: 'user_canceled',
    109: 'missing_extension', 110: 'unsupported_extension', 112: 'unrecognized_name',
    113: 'bad_certificate_status_response', 115: 'unknown_psk_identity',
    116: 'certificate_required', 120: 'no_application_protocol',
}
WORLDS = {'server': A.ServerWorld, 'client': A.ClientWorld}
CONFIGS = [dict(), dict(suite=ref.AES256, group=ref.P384, kind='rsa')]
SUITES = {'server': ref.CHACHA, 'client': ref.CHACHA}
ASSUMPTIONS = [
    'An alert whose level is neither warning nor fatal ends the connection (close_notify and '
    'user_canceled apart, that may be taken as such or refused); whether it is answered is not '
    'decided.',
]


def stages(role):
    out = []
    for stage, path in A.honest_paths(WORLDS[role]):
        out.append((stage, list(path)))
    return out


def cases(tier):
    thorough = tier == 'thorough'
    for role in WORLDS:
        for stage, path in stages(role):
            for form in ('now', 'plain', 'old', 'padded'):
                for level in (1, 2):
                    for lo in range(0, 256, 32):
                        yield [role, 0, path, form, level, lo, 32]
                if thorough:
                    for level in (1, 2):
                        for lo in range(0, 256, 32):
                            yield [role, 1, path, form, level, lo, 32]
            for level in (0, 3, 99, 255):
                yield [role, 0, path, 'now', level, 0, 256]
            for n in (0, 1, 3, 4, 100):
                yield [role, 0, path, 'length', n, 0, 0]
            for what in ('split', 'two', 'interleaved', 'then data', 'twice', 'canceled'):
                yield [role, 0, path, what, 0, 0, 0]
        if thorough:
            for stage, path in stages(role):
                for level in range(256):
                    for lo in range(0, 256, 64):
                        yield [role, 0, path, 'now', level, lo, 64]


def start(role, config, path, obs):
    w = WORLDS[role](**CONFIGS[config])
    need(A.run_path(w, path, obs) is True, 'honest handshake refused')
    return w


def wire(w, form, payload):
    """ None when there is no such form in this stage """
    if form == 'now':
        return w.peer.send(ref.ALERT, payload)
    if form == 'padded':
        return w.peer.send(ref.ALERT, payload, pad=200) if w.peer.tx else None
    if form == 'plain':
        return ref.rec(ref.ALERT, payload) if w.peer.tx else None
    if form == 'old':
        return w.old_tx().seal(ref.ALERT, payload) if w.peer.tx_epoch == 'ap' else None
    raise AssertionError(form)


def went_on(w, obs, what):
    """ the connection is as if nothing happened """
    need(w.dut.error is None, lambda: f'{what}: {w.dut.error!r}')
    A.finish(w, obs)
    if w.stage == 'conn':
        need(w.dut.rx(w.peer.send(ref.APPDATA, b'still here')), f'{what}: dead')
        need(w.dut.read.endswith(b'still here'), f'{what}: data lost')


def ended(w, what, answered):
    """ answered: 'no', 'yes', 'maybe' """
    out = w.dut.tx()
    before = len(w.peer.alerts)
    w.feed_failure(out, what) if out else None
    n = len(w.peer.alerts) - before
    need(answered != 'no' or not out, f'{what}: answered with {w.peer.alerts}')
    need(answered != 'yes' or n == 1, f'{what}: not answered')
    need(n <= 1, f'{what}: answered several times')
    need(not w.dut.connected, f'{what}: still connected')
    w.dut.assert_dead(what, [w.current(ref.APPDATA, b'x'), ref.rec(ref.ALERT, b'\2\x28')])


def reported(w, description, what):
    """ how it was reported to the caller """
    err = w.dut.error
    need(err is not None, f'{what}: not reported')
    got = getattr(err, 'description', None)
    need(got is not None and int(got) == description, lambda: f'{what}: reported as {err!r}')
    from siotls import TLSError
    need(isinstance(err, TLSError), f'{what}: reported as {err!r}')


def one(role, config, path, form, level, description, obs):
    w = start(role, config, path, obs)
    what = f'{role} {w.stage} {form} level {level} {NAMES.get(description, description)}'
    data = wire(w, form, bytes([level, description]))
    if data is None:
        return
    was = w.stage
    obs.state(role, config, was, form, level, description)
    obs.step()
    before = w.dut.read
    ok = w.dut.rx(data)
    need(w.dut.read == before, f'{what}: data appeared')
    if form in ('plain', 'old'):
        need(not ok, f'{what}: alert under the wrong protection accepted')
        obs.outcome('wrong protection')
        # an attacker must not be able to pretend that the peer sent it
        need(w.dut.alert in (ref.ALERTS['bad_record_mac'], ref.ALERTS['unexpected_message'],
                             ref.ALERTS['decode_error']),
             lambda: f'{what}: reported as {w.dut.error!r}')
        ended(w, what, 'yes')
    elif description == USER_CANCELED and (level in (1, 2) or ok):
        need(ok, lambda: f'{what}: {w.dut.error!r}')
        need(not w.dut.tx(), f'{what}: answered')
        went_on(w, obs, what)
        obs.outcome('user_canceled')
    elif description == CLOSE_NOTIFY and (level in (1, 2) or ok):
        if was != 'conn':
            ended(w, what, 'maybe')
            obs.outcome('closed during the handshake')
        else:
            need(ok and not w.dut.tx(), lambda: f'{what}: {w.dut.error!r}')
            need(not w.dut.connected and w.dut.post, f'{what}: still connected')
            # only that direction is closed
            w.dut.rx(w.peer.send(ref.APPDATA, b'more'))
            need(w.dut.read == before, f'{what}: data read after the close')
            w.dut.send(b'last words')
            w.dut.conn.close_sending_end()
            w.peer.feed(w.dut.tx())
            need(w.peer.app == b'last words' and w.peer.alerts == [(1, 0)],
                 f'{what}: the other direction is closed too')
            obs.outcome('closed')
    else:
        need(not ok, f'{what}: ignored')
        if level in (1, 2):
            reported(w, description, what)
            ended(w, what, 'no')
        else:
            ended(w, what, 'maybe')
        obs.outcome('ended')
    obs.trace()


def run(case, obs):
    role, config, path, form, level, lo, n = case
    if form in ('now', 'padded', 'plain', 'old'):
        for description in range(lo, lo + n):
            one(role, config, path, form, level, description, obs)
        return
    w = start(role, config, path, obs)
    what = f'{role} {w.stage} {form} {level}'
    obs.state(*case)
    obs.step()
    before = w.dut.read
    if form == 'length':
        data = w.peer.send(ref.ALERT, (b'\2\x28' * 50)[:level])
        ok = w.dut.rx(data)
        need(not ok, f'{what}: alert of {level} bytes accepted')
        need(w.dut.alert in (ref.ALERTS['decode_error'], ref.ALERTS['unexpected_message']),
             lambda: f'{what}: {w.dut.error!r}')
        ended(w, what, 'yes')
    elif form == 'split':
        # alerts are never split over records
        ok = w.dut.rx(w.peer.send(ref.ALERT, b'\2') + w.peer.send(ref.ALERT, b'\x28'))
        need(not ok, f'{what}: accepted')
        need(w.dut.alert in (ref.ALERTS['decode_error'], ref.ALERTS['unexpected_message']),
             lambda: f'{what}: {w.dut.error!r}')
        ended(w, what, 'yes')
    elif form == 'two':
        # the first of two records decides
        ok = w.dut.rx(w.peer.send(ref.ALERT, b'\2\x33') + w.peer.send(ref.ALERT, b'\2\x28'))
        need(not ok, f'{what}: accepted')
        reported(w, 0x33, what)
        ended(w, what, 'no')
    elif form == 'twice':
        # several alerts in a single record
        ok = w.dut.rx(w.peer.send(ref.ALERT, b'\2\x33\2\x28'))
        need(not ok, f'{what}: accepted')
        ended(w, what, 'yes')
    elif form == 'canceled':
        # however many times
        for n in (1, 2, 5, 30):
            raw = b''.join(w.peer.send(ref.ALERT, b'\1\x5a') for _ in range(n))
            need(w.dut.rx(raw), lambda: f'{what}: {w.dut.error!r}')
            need(not w.dut.tx(), f'{what}: answered')
        went_on(w, obs, what)
        before = w.dut.read
    elif form == 'interleaved':
        ok = w.dut.rx(w.peer.send(ref.HANDSHAKE, b'\x14\0\0') + w.peer.send(ref.ALERT, b'\2\x28'))
        need(not ok, f'{what}: accepted')
        need(w.dut.alert == ref.ALERTS['unexpected_message'], lambda: f'{what}: {w.dut.error!r}')
        ended(w, what, 'yes')
    else:
        if w.stage != 'conn':
            return
        ok = w.dut.rx(w.peer.send(ref.APPDATA, b'before') + w.peer.send(ref.ALERT, b'\2\x50')
                      + w.peer.send(ref.APPDATA, b'after'))
        need(not ok, f'{what}: accepted')
        need(w.dut.read in (before, before + b'before'), f'{what}: read {w.dut.read}')
        reported(w, 80, what)
        ended(w, what, 'no')
    need(form == 'then data' or w.dut.read == before, f'{what}: data')
    obs.outcome(form)
    obs.trace()

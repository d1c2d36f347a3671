""" C19: the key log is opt-in, is the NSS one, decrypts the session, and is the only leak. """
import ast
import base64
import logging
import re
import traceback

from .. import env, impl, pki, ref
from ..engine import need
from cryptography.hazmat.primitives.asymmetric import ec, x25519
from cryptography.hazmat.primitives.serialization import (
    Encoding, NoEncryption, PrivateFormat, PublicFormat,
)
from siotls import key_logger

PROP = 'C19'
CHUNK = 16
LINE = re.compile(r'^([A-Z0-9_]+) ([0-9a-f]{64}) ([0-9a-f]+)$')
LABELS = {
    'CLIENT_HANDSHAKE_TRAFFIC_SECRET': 'c_hs', 'SERVER_HANDSHAKE_TRAFFIC_SECRET': 's_hs',
    'CLIENT_TRAFFIC_SECRET_0': 'c_ap', 'SERVER_TRAFFIC_SECRET_0': 's_ap', 'EXPORTER_SECRET': 'exp',
}
DATA_OUT, DATA_IN = b'confidential words sent', b'confidential words received'
ASSUMPTIONS = [
    'Secrets are searched in the messages, arguments and formatted exceptions of every log record '
    'of every logger, raw, as repr, in hexadecimal, in decimal and in base64; any 8 bytes in a row '
    'of one are searched as repr and in hexadecimal.',
    'The application secrets are logged once the handshake is complete: for a handshake that '
    'fails before that the log only has to hold the handshake secrets.',
]


P256_ORDER = 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551
ENCODED = ('private key', 'private key (pem)')      # hold public things too


class Taps:
    """ Everything logged by anybody at any level, key log apart. """
    def __init__(self, key_handler=True):
        self.keys, self.others, self.key_handler = [], [], key_handler

    def __enter__(self):
        self.loggers = [logging.getLogger(), logging.getLogger('siotls'), key_logger]
        self.saved = [(x, x.level, x.handlers[:], x.propagate) for x in self.loggers]
        logging.getLogger('siotls').setLevel(logging.DEBUG)
        logging.getLogger('siotls').propagate = True
        logging.getLogger().setLevel(logging.DEBUG)
        taps = self

        class Others(logging.Handler):
            def emit(self, record):
                text = record.getMessage() + ' ' + repr(record.args)
                if record.exc_info:
                    text += logging.Formatter().formatException(record.exc_info)
                taps.others.append((record.name, text))

        class Keys(logging.Handler):
            def emit(self, record):
                taps.keys.append(record.getMessage())
        logging.getLogger().addHandler(Others())
        if self.key_handler:
            key_logger.addHandler(Keys())
        return self

    def __exit__(self, *exc):
        for log, level, handlers, propagate in self.saved:
            log.setLevel(level)
            log.handlers[:] = handlers
            log.propagate = propagate


def forms(secret):
    return {secret.hex(), secret.hex().upper(), repr(secret)[2:-1], secret.hex(' '),
            base64.b64encode(secret).decode(), str(int.from_bytes(secret, 'big')),
            str(list(secret))}


PART = 8                # bytes of a secret in a row
HEX = re.compile(r'(?<![0-9a-fA-F])(?:[0-9a-fA-F]{2}[ :]?)*[0-9a-fA-F]{2}(?![0-9a-fA-F])')
LITERAL = re.compile(r"""b'(?:[^'\\\n]|\\.)*'|b"(?:[^"\\\n]|\\.)*\"""")
NUMBER = re.compile(r'\d{60,}')


def byte_strings(text):
    """ The bytes that text shows, in hexadecimal or as literals """
    for m in HEX.finditer(text):
        run = m.group().replace(' ', '').replace(':', '')
        if len(run) >= 2 * PART:
            yield bytes.fromhex(run)
    for m in LITERAL.finditer(text):
        if len(m.group()) > PART:
            yield ast.literal_eval(m.group())
    for m in NUMBER.finditer(text):
        n = int(m.group())
        yield n.to_bytes((n.bit_length() + 7) // 8, 'big')


def is_private(data, publics):
    """ whether those bytes are the private key of one of those shares """
    if len(data) != 32:
        return False
    found = [x25519.X25519PrivateKey.from_private_bytes(data).public_key().public_bytes_raw()]
    n = int.from_bytes(data, 'big')
    if 0 < n < P256_ORDER:
        found.append(ec.derive_private_key(n, ec.SECP256R1()).public_key().public_bytes(
            Encoding.X962, PublicFormat.UncompressedPoint))
    return any(f in publics for f in found)


def no_leak(taps, secrets, what, error=None, publics=()):
    texts = [t for _, t in taps.others]
    if error is not None:
        texts.append(repr(error) + ''.join(traceback.format_exception(error)))
    for name, secret in secrets.items():
        if len(secret) < 8:
            continue
        for form in forms(secret):
            need(not any(form in t for t in texts), f'{what}: {name} appears in the logs')
    parts = {secret[i:i + PART]: name for name, secret in secrets.items()
             if name not in ENCODED for i in range(len(secret) - PART + 1)}
    for shown in {x for t in texts for x in byte_strings(t)}:
        for i in range(len(shown) - PART + 1):
            part = shown[i:i + PART]
            need(part not in parts, lambda: f'{what}: part of {parts[part]} appears in the logs')
        need(not is_private(shown, publics), f'{what}: an ephemeral key appears in the logs')
    for name, _ in taps.others:
        need(name != key_logger.name, f'{what}: the key log propagates to the other loggers')


def key_bytes(key):
    out = {}
    try:
        out['private key'] = key.private_bytes(
            Encoding.DER, PrivateFormat.PKCS8, NoEncryption())
        out['private key (pem)'] = key.private_bytes(
            Encoding.PEM, PrivateFormat.PKCS8, NoEncryption())
    except Exception:
        pass
    nums = getattr(key, 'private_numbers', None)
    if nums:
        n = nums()
        d = getattr(n, 'private_value', None) or n.d
        out['private number'] = d.to_bytes((d.bit_length() + 7) // 8, 'big')
        for name in ('p', 'q', 'dmp1', 'dmq1', 'iqmp'):
            if n := getattr(nums(), name, 0):
                out[f'private {name}'] = n.to_bytes((n.bit_length() + 7) // 8, 'big')
    return out


def check_keys(lines, on, random, sched, complete, hs_done, what, mine=None):
    """ ``lines`` is the key log of one connection """
    if not on:
        need(not lines, f'{what}: secrets logged without being asked for')
        return
    seen = {}
    for line in lines:
        m = LINE.match(line)
        need(m, f'{what}: not a key log line: {line!r}')
        label, rnd, secret = m.groups()
        need(label in LABELS, f'{what}: label {label}')
        need(rnd == random.hex(), f'{what}: {label} logged under another client random')
        need(label not in seen, f'{what}: {label} logged twice')
        expected = getattr(sched, LABELS[label], None) if sched else None
        need(expected is not None and secret == expected.hex(),
             f'{what}: {label} is not the secret in use')
        seen[label] = secret
    if hs_done:
        need({k for k in LABELS if 'HANDSHAKE' in k} <= set(seen),
             f'{what}: handshake secrets not logged')
    if complete:
        need(set(LABELS) <= set(seen), f'{what}: secrets missing of the log: {sorted(seen)}')


def records(data):
    out, i = [], 0
    while i < len(data):
        n = 5 + int.from_bytes(data[i + 3:i + 5], 'big')
        out.append(data[i:i + n])
        i += n
    return out


FAULTS = ['', 'cut', 'flip', 'alert', 'junk']


def cases(tier):
    thorough = tier == 'thorough'
    suites = [ref.AES128, ref.AES256, ref.CHACHA]
    for role in ('client', 'server'):
        for suite in suites if thorough else [ref.AES256, ref.CHACHA]:
            for hrr in (0, 1):
                for setting in ('off', 'on', 'nohandler'):
                    for kind in (pki.KEY_KINDS if thorough else ['p256', 'rsa']):
                        yield ['one', role, suite, hrr, setting, kind, 0, '']
                        for k in range(1 + 8):
                            for fault in FAULTS[1:] + ['send']:
                                yield ['one', role, suite, hrr, setting, kind, k, fault]
    names = ['c-on', 'c-off', 's-on', 's-off']
    for a in names:
        for b in names:
            for order in orders(4 if thorough else 3):
                yield ['two', a, b, order]


def orders(n):
    """ every interleaving of n steps of a and n steps of b """
    out = ['']
    for _ in range(2 * n):
        out = [o + x for o in out for x in 'ab' if o.count(x) < n]
    return out


def damage(record, fault, peer):
    if fault == 'flip':
        return record[:-1] + bytes([record[-1] ^ 1])
    if fault == 'alert':
        return ref.rec(ref.ALERT, b'\2\x28')
    return ref.rec(ref.HANDSHAKE, b'\xff\0\0\0')


class Side:
    """ One connection with its puppet, step by step. """
    def __init__(self, role, suite=ref.CHACHA, hrr=False, log=True, kind='p256'):
        self.role, self.hrr, self.log = role, hrr, log
        group, other = ref.X25519, ref.P256
        kw = {'log_keys': log, 'cipher_suites': impl.suites([suite])}
        self.key = pki.leaf(kind)[0]
        if role == 'server':
            self.dut = impl.Impl.server(kind, key_exchanges=impl.groups([group]), **kw).start()
            self.peer = ref.RefClient(suites=[suite], groups=[group, other])
            self.todo = [lambda: self.peer.hello(share_groups=[other])] if hrr else []
            self.todo += [lambda: self.peer.hello(share_groups=[group]),
                          lambda: ref.CCS_RECORD,
                          lambda: self.peer.finished()]
        else:
            key, chain = pki.leaf(kind)
            self.dut = impl.Impl.client(
                key_exchanges=impl.groups([other, group] if hrr else [group]), **kw).start()
            self.peer = p = ref.RefServer(key, chain, suite=suite, group=group)
            p.feed(self.dut.tx())
            self.todo = [lambda: p.hrr(group)] if hrr else []
            self.todo += [p.sh, lambda: ref.CCS_RECORD, lambda: p.send_hs(p.ee_raw()),
                          lambda: p.send_hs(p.cert_raw()), lambda: p.send_hs(p.cv_raw()), p.fin]

    @property
    def random(self):
        return self.peer.random if self.role == 'server' else self.peer.hellos[0]['random']

    def deliver(self, data):
        ok = self.dut.rx(data)
        self.peer.feed(self.dut.tx())
        return ok

    def step(self):
        """ False when there is nothing left to do """
        if self.todo:
            data = self.todo.pop(0)()
            need(self.deliver(data), lambda: f'{self.role}: {self.dut.error!r}')
            return True
        return False

    def talk(self):
        need(self.dut.connected, f'{self.role}: not connected')
        self.dut.send(DATA_OUT)
        self.peer.feed(self.dut.tx())
        need(self.dut.rx(self.peer.send(ref.APPDATA, DATA_IN)), 'data refused')
        need(self.peer.app == DATA_OUT and self.dut.read == DATA_IN, 'data')

    def secrets(self):
        out = {'sent data': DATA_OUT, 'received data': DATA_IN, **key_bytes(self.key)}
        sched = self.peer.sched
        for name in ('c_hs', 's_hs', 'c_ap', 's_ap', 'exp', '_m', '_h'):
            if hasattr(sched, name):
                secret = out[name] = getattr(sched, name)
                if name[1:] in ('_hs', '_ap'):
                    d = ref.Dir(sched.suite, secret)
                    out[f'{name} key'], out[f'{name} iv'] = d.key, d.iv
                    out[f'{name} finished'] = sched.d(secret, b'finished', b'')
        if self.role == 'server':
            pub = getattr(self.peer, 'server_pub', None)
            if pub:
                out['shared secret'] = self.peer.shares[self.peer.group].shared(pub)
        elif hasattr(self.peer, 'shared'):
            out['shared secret'] = self.peer.shared
        return out


    def publics(self):
        """ the shares of the connection under test """
        if self.role == 'server':
            return [getattr(self.peer, 'server_pub', None)]
        return [key for hello in self.peer.hellos for _, key in hello['shares']]


def run(case, obs):
    what = ' '.join(map(str, case))
    if case[0] == 'one':
        _, role, suite, hrr, setting, kind, k, fault = case
        with Taps(setting != 'nohandler') as taps:
            side = Side(role, suite, hrr, setting != 'off', kind)
            end = len(side.todo)
            if k > end and fault:
                obs.outcome('beyond the end')
                return
            for _ in range(k if fault else len(side.todo)):
                side.step()
                obs.step()
            if not fault or k == end:
                side.talk()
                # some more, that the application does not read nor the network take
                side.dut.conn.receive_data(side.peer.send(ref.APPDATA, DATA_IN))
                side.dut.send(DATA_OUT)
            if not fault:
                pass
            elif fault == 'send':
                pass
            elif fault == 'cut':
                try:
                    side.dut.conn.close_receiving_end()
                except Exception as exc:
                    side.dut.error = exc
            else:
                data = side.todo[0]() if k < end else side.peer.send(ref.APPDATA, DATA_IN)
                record = records(data)[0]
                if fault == 'flip' and record[0] != ref.APPDATA:
                    obs.outcome('a modified hello is another hello')
                    return
                side.dut.rx(damage(record, fault, side.peer))
                side.dut.tx()
            errors = [side.dut.error]
            up = not fault or k == end and fault == 'send'
            need(side.dut.connected == up, f'{what}: connected')
            refused = 0
            for finish in (None, side.dut.conn.close_sending_end, None):
                # data the connection can't send is refused without being told to the logs
                if finish:
                    try:
                        finish()
                    except Exception as exc:
                        errors.append(exc)
                    side.peer.feed(side.dut.tx()) if not side.dut.error else side.dut.tx()
                try:
                    side.dut.conn.send_data(DATA_OUT)
                except Exception as exc:
                    errors.append(exc)
                    refused += 1
            try:
                side.dut.conn.close_receiving_end()
            except Exception as exc:
                errors.append(exc)
            side.dut.conn.data_to_read()
        derived = bool(side.peer.tx)
        server_hello = 1 + bool(hrr)
        hs_done = (not fault or k >= server_hello)
        obs.state(role, suite, hrr, setting, k, fault, derived)
        if fault and not hs_done:
            need(not taps.keys, f'{what}: secrets logged before any was agreed on')
        check_keys(taps.keys, setting == 'on', side.random, side.peer.sched,
                   not fault or k == end, hs_done, what)
        need(refused > 0, f'{what}: data never refused')
        for error in errors:
            no_leak(taps, side.secrets(), what, error, side.publics())
        obs.outcome(f'{setting}/{fault or "complete"}')
    else:
        _, a, b, order = case
        with Taps() as taps:
            sides = {}
            for x, name in zip('ab', (a, b)):
                sides[x] = Side({'c': 'client', 's': 'server'}[name[0]], log=name[2:] == 'on')
            owner = []
            for x in order:
                n = len(taps.keys)
                sides[x].step()
                owner += [x] * (len(taps.keys) - n)
                obs.step()
            for x, side in sides.items():
                n = len(taps.keys)
                while side.step():
                    pass
                side.talk()
                owner += [x] * (len(taps.keys) - n)
        for x, side in sides.items():
            mine = [line for line, o in zip(taps.keys, owner) if o == x]
            check_keys(mine, side.log, side.random, side.peer.sched, True, True, f'{what} {x}')
            no_leak(taps, side.secrets(), what, None, side.publics())
        obs.state(a, b, order)
        obs.outcome('two connections')
    obs.trace()

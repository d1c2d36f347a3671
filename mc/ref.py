"""
Reference TLS 1.3, written from RFC 8446/7919/6066/7301/7250/6520 and sharing no code with
siotls.  It is the model side of every handshake-level check: a "puppet" peer that can speak each
protocol message correctly *or* deviate from the protocol on command, and that verifies
everything the implementation under test puts on the wire.
"""
import hashlib
import hmac
import os
import struct

from cryptography.exceptions import InvalidSignature, InvalidTag
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec, padding, rsa, x448, x25519
from cryptography.hazmat.primitives.ciphers.aead import AESGCM, ChaCha20Poly1305
from cryptography.hazmat.primitives.serialization import (
    Encoding, PublicFormat, load_der_public_key,
)
from cryptography.x509 import load_der_x509_certificate

# ---------------------------------------------------------------- code points
CCS, ALERT, HANDSHAKE, APPDATA, HEARTBEAT = 20, 21, 22, 23, 24
(CLIENT_HELLO, SERVER_HELLO, NST, EOED, EE, CERT, CERT_REQ, CERT_VERIFY, FINISHED, KEY_UPDATE,
 MESSAGE_HASH) = 1, 2, 4, 5, 8, 11, 13, 15, 20, 24, 254
X_SNI, X_MFL, X_STATUS, X_GROUPS, X_SIGALGS = 0, 1, 5, 10, 13
X_HEARTBEAT, X_ALPN, X_CCT, X_SCT, X_PSK, X_EARLY = 15, 16, 19, 20, 41, 42
X_VERSIONS, X_COOKIE, X_PSKMODES, X_KEYSHARE = 43, 44, 45, 51
HRR_RANDOM = hashlib.sha256(b'HelloRetryRequest').digest()
SID = b"legacy session id of 32 bytes..!"          # what most clients send

AES128, AES256, CHACHA = 0x1301, 0x1302, 0x1303
SUITES = {
    AES128: (AESGCM, 16, 'sha256'),
    AES256: (AESGCM, 32, 'sha384'),
    CHACHA: (ChaCha20Poly1305, 32, 'sha256'),
}
P256, P384, P521, X25519, X448 = 0x17, 0x18, 0x19, 0x1d, 0x1e
FFDHE = {0x100: 2048, 0x101: 3072, 0x102: 4096, 0x103: 6144, 0x104: 8192}
ALL_GROUPS = [P256, P384, P521, X25519, X448, *FFDHE]
FAST_GROUPS = [P256, P384, P521, X25519, X448]
CURVES = {P256: ec.SECP256R1, P384: ec.SECP384R1, P521: ec.SECP521R1}

ALERTS = {
    'close_notify': 0, 'unexpected_message': 10, 'bad_record_mac': 20, 'record_overflow': 22,
    'handshake_failure': 40, 'bad_certificate': 42, 'unsupported_certificate': 43,
    'illegal_parameter': 47, 'decode_error': 50, 'decrypt_error': 51, 'protocol_version': 70,
    'insufficient_security': 71, 'internal_error': 80, 'user_canceled': 90,
    'missing_extension': 109, 'unsupported_extension': 110, 'no_application_protocol': 120,
}


class RefError(Exception):
    """ The implementation under test sent something the reference rejects. """


# ---------------------------------------------------------------- FFDHE (RFC 7919)
def _euler_bits(n):
    """ floor(2**n * e) """
    extra = 64
    one = 1 << (n + extra)
    total, term, k = 0, one, 0
    while term:
        total += term
        k += 1
        term //= k
    return total >> extra

_FFDHE_X = {2048: 560316, 3072: 2625351, 4096: 5736041, 6144: 15705020, 8192: 10965728}
_ffdhe_cache = {}

def ffdhe_p(bits):
    if bits not in _ffdhe_cache:
        _ffdhe_cache[bits] = (2**bits - 2**(bits - 64)
            + (_euler_bits(bits - 130) + _FFDHE_X[bits]) * 2**64 - 1)
    return _ffdhe_cache[bits]

# private exponent sizes of RFC 7919 Appendix A
_FFDHE_EXP = {2048: 225, 3072: 275, 4096: 325, 6144: 375, 8192: 400}


class Share:
    """ One ephemeral key of the puppet. """
    def __init__(self, group):
        self.group = group
        if group == X25519:
            self.priv = x25519.X25519PrivateKey.generate()
            self.pub = self.priv.public_key().public_bytes_raw()
        elif group == X448:
            self.priv = x448.X448PrivateKey.generate()
            self.pub = self.priv.public_key().public_bytes_raw()
        elif group in CURVES:
            self.priv = ec.generate_private_key(CURVES[group]())
            self.pub = self.priv.public_key().public_bytes(
                Encoding.X962, PublicFormat.UncompressedPoint)
        elif group in FFDHE:
            bits = FFDHE[group]
            self.priv = int.from_bytes(os.urandom(_FFDHE_EXP[bits] // 8 + 1), 'big') | 1
            self.pub = pow(2, self.priv, ffdhe_p(bits)).to_bytes(bits // 8, 'big')
        else:
            raise ValueError(group)

    def shared(self, peer):
        if self.group == X25519:
            return self.priv.exchange(x25519.X25519PublicKey.from_public_bytes(peer))
        if self.group == X448:
            return self.priv.exchange(x448.X448PublicKey.from_public_bytes(peer))
        if self.group in CURVES:
            pub = ec.EllipticCurvePublicKey.from_encoded_point(CURVES[self.group](), peer)
            return self.priv.exchange(ec.ECDH(), pub)
        bits = FFDHE[self.group]
        if len(peer) != bits // 8:
            raise RefError(f'ffdhe share is {len(peer)} bytes, expected {bits // 8}')
        p, y = ffdhe_p(bits), int.from_bytes(peer, 'big')
        if not 1 < y < p - 1:
            raise RefError('ffdhe share out of range')
        return pow(y, self.priv, p).to_bytes(bits // 8, 'big')


# ---------------------------------------------------------------- key schedule
def hkdf_extract(h, salt, ikm):
    return hmac.new(salt, ikm, h).digest()

def hkdf_expand_label(h, secret, label, context, length):
    info = struct.pack('!HB', length, 6 + len(label)) + b'tls13 ' + label
    info += bytes([len(context)]) + context
    out, block, i = b'', b'', 1
    while len(out) < length:
        block = hmac.new(secret, block + info + bytes([i]), h).digest()
        out += block
        i += 1
    return out[:length]


class Dir:
    """ One direction of protected records under one traffic secret. """
    def __init__(self, suite, secret):
        aead, keylen, h = SUITES[suite]
        self.secret = secret
        self.key = hkdf_expand_label(h, secret, b'key', b'', keylen)
        self.iv = hkdf_expand_label(h, secret, b'iv', b'', 12)
        self.aead = aead(self.key)
        self.seq = 0

    def nonce(self, seq=None):
        n = (self.seq if seq is None else seq).to_bytes(12, 'big')
        return bytes(a ^ b for a, b in zip(n, self.iv, strict=True))

    def seal(self, ctype, data, pad=0, outer=APPDATA, version=0x0303, raw_inner=None):
        inner = data + bytes([ctype]) + bytes(pad) if raw_inner is None else raw_inner
        head = struct.pack('!BHH', outer, version, len(inner) + 16)
        rec = head + self.aead.encrypt(self.nonce(), inner, head)
        self.seq += 1
        return rec

    def open(self, head, frag):
        try:
            inner = self.aead.decrypt(self.nonce(), bytes(frag), bytes(head))
        except InvalidTag:
            raise RefError('cannot deprotect record') from None
        self.seq += 1
        body = inner.rstrip(b'\0')
        if not body:
            raise RefError('protected record without content type')
        return body[-1], body[:-1], len(inner)


class Schedule:
    def __init__(self, suite):
        self.suite, self.h = suite, SUITES[suite][2]
        self.hlen = hashlib.new(self.h).digest_size
        z = bytes(self.hlen)
        self.empty = hashlib.new(self.h).digest()
        early = hkdf_extract(self.h, z, z)
        self._s = hkdf_expand_label(self.h, early, b'derived', self.empty, self.hlen)

    def d(self, secret, label, ctx):
        return hkdf_expand_label(self.h, secret, label, ctx, self.hlen)

    def handshake(self, shared, th):
        hs = self._h = hkdf_extract(self.h, self._s, shared)
        self.c_hs, self.s_hs = self.d(hs, b'c hs traffic', th), self.d(hs, b's hs traffic', th)
        self._m = hkdf_extract(self.h, self.d(hs, b'derived', self.empty), bytes(self.hlen))

    def master(self, th_server_fin):
        self.c_ap = self.d(self._m, b'c ap traffic', th_server_fin)
        self.s_ap = self.d(self._m, b's ap traffic', th_server_fin)
        self.exp = self.d(self._m, b'exp master', th_server_fin)

    def fin(self, secret, th):
        return hmac.new(self.d(secret, b'finished', b''), th, self.h).digest()


# ---------------------------------------------------------------- wire helpers
def u8(n): return struct.pack('!B', n)
def u16(n): return struct.pack('!H', n)
def u24(n): return n.to_bytes(3, 'big')
def v8(b): return u8(len(b)) + b
def v16(b): return u16(len(b)) + b
def v24(b): return u24(len(b)) + b
def hs(t, body): return u8(t) + v24(body)
def ext(t, data): return u16(t) + v16(data)
def exts(items): return v16(b''.join(ext(t, d) for t, d in items))
def rec(ctype, frag, version=0x0303): return struct.pack('!BHH', ctype, version, len(frag)) + frag
CCS_RECORD = rec(CCS, b'\x01')


class R:
    """ strict reader """
    def __init__(self, data): self.d, self.p = bytes(data), 0
    def take(self, n):
        if self.p + n > len(self.d):
            raise RefError(f'short read in {self.d[:40].hex()}')
        self.p += n
        return self.d[self.p - n:self.p]
    def u(self, n): return int.from_bytes(self.take(n), 'big')
    def v(self, n): return self.take(self.u(n))
    def eof(self): return self.p == len(self.d)
    def end(self):
        if not self.eof():
            raise RefError(f'{len(self.d) - self.p} trailing bytes')
    def lst(self, data, n):
        if len(data) % n:
            raise RefError('bad list length')
        return [int.from_bytes(data[i:i + n], 'big') for i in range(0, len(data), n)]


def parse_exts(data):
    r, out = R(data), []
    while not r.eof():
        t = r.u(2)
        out.append((t, r.v(2)))
    types = [t for t, _ in out]
    if len(set(types)) != len(types):
        raise RefError(f'duplicated extensions {types}')
    return out


def parse_client_hello(body):
    r = R(body)
    out = {'version': r.u(2), 'random': r.take(32), 'sid': r.v(1)}
    out['suites'] = r.lst(r.v(2), 2)
    out['comp'] = r.v(1)
    out['exts'] = parse_exts(r.v(2))
    r.end()
    x = out['x'] = dict(out['exts'])
    if out['version'] != 0x0303 or out['comp'] != b'\0' or len(out['sid']) > 32:
        raise RefError('bad ClientHello legacy fields')
    if not out['suites']:
        raise RefError('no cipher suite offered')
    for name, code, pfx, size in (('versions', X_VERSIONS, 1, 2), ('groups', X_GROUPS, 2, 2),
                                  ('sigalgs', X_SIGALGS, 2, 2), ('sct', X_SCT, 1, 1),
                                  ('cct', X_CCT, 1, 1)):
        if code in x:
            rr = R(x[code]); out[name] = rr.lst(rr.v(pfx), size); rr.end()
            if not out[name]:
                raise RefError(f'empty {name}')
    if X_KEYSHARE in x:
        rr = R(x[X_KEYSHARE]); inner = R(rr.v(2)); rr.end()
        out['shares'] = []
        while not inner.eof():
            g = inner.u(2); out['shares'].append((g, inner.v(2)))
    if X_ALPN in x:
        rr = R(x[X_ALPN]); inner = R(rr.v(2)); rr.end()
        out['alpn'] = []
        while not inner.eof():
            out['alpn'].append(inner.v(1))
    if X_SNI in x:
        rr = R(x[X_SNI]); inner = R(rr.v(2)); rr.end()
        if inner.u(1) != 0:
            raise RefError('bad name type')
        out['sni'] = inner.v(2); inner.end()
    if X_COOKIE in x:
        rr = R(x[X_COOKIE]); out['cookie'] = rr.v(2); rr.end()
    if X_MFL in x:
        rr = R(x[X_MFL]); out['mfl'] = rr.u(1); rr.end()
    if X_HEARTBEAT in x:
        rr = R(x[X_HEARTBEAT]); out['heartbeat'] = rr.u(1); rr.end()
    return out


def parse_server_hello(body):
    r = R(body)
    out = {'version': r.u(2), 'random': r.take(32), 'sid': r.v(1), 'suite': r.u(2),
           'comp': r.u(1)}
    out['exts'] = parse_exts(r.v(2))
    r.end()
    out['x'] = dict(out['exts'])
    out['hrr'] = out['random'] == HRR_RANDOM
    return out


def client_hello(random, suites, extensions, sid=b'', comp=b'\0', version=0x0303):
    return hs(CLIENT_HELLO, u16(version) + random + v8(sid)
              + v16(b''.join(u16(s) for s in suites)) + v8(comp) + exts(extensions))

def server_hello(random, suite, extensions, sid=b'', comp=0, version=0x0303):
    return hs(SERVER_HELLO, u16(version) + random + v8(sid) + u16(suite) + u8(comp)
              + exts(extensions))

def x_versions(*vs): return (X_VERSIONS, v8(b''.join(u16(v) for v in vs)))
def x_groups(gs): return (X_GROUPS, v16(b''.join(u16(g) for g in gs)))
def x_sigalgs(ss): return (X_SIGALGS, v16(b''.join(u16(s) for s in ss)))
def x_shares(pairs): return (X_KEYSHARE, v16(b''.join(u16(g) + v16(k) for g, k in pairs)))
def x_alpn(ps): return (X_ALPN, v16(b''.join(v8(p) for p in ps)))
def x_sni(name): return (X_SNI, v16(b'\0' + v16(name)))


# ---------------------------------------------------------------- signatures
RSA_PKCS1_256 = 0x0401
EC256, EC384, EC521, ED25519, ED448 = 0x0403, 0x0503, 0x0603, 0x0807, 0x0808
RSAE256, RSAE384, RSAE512, PSS256, PSS384, PSS512 = (
    0x0804, 0x0805, 0x0806, 0x0809, 0x080a, 0x080b)
ALL_SIGALGS = [EC256, EC384, EC521, ED25519, ED448, RSAE256, RSAE384, RSAE512,
               PSS256, PSS384, PSS512]
_HASH = {EC256: hashes.SHA256, EC384: hashes.SHA384, EC521: hashes.SHA512,
         RSAE256: hashes.SHA256, RSAE384: hashes.SHA384, RSAE512: hashes.SHA512,
         PSS256: hashes.SHA256, PSS384: hashes.SHA384, PSS512: hashes.SHA512}
_CURVE_OF = {EC256: 'secp256r1', EC384: 'secp384r1', EC521: 'secp521r1'}
CV_SERVER = b' ' * 64 + b'TLS 1.3, server CertificateVerify\0'
CV_CLIENT = b' ' * 64 + b'TLS 1.3, client CertificateVerify\0'

def key_kind(key):
    name = type(key).__name__.lower()
    if 'ed25519' in name: return 'ed25519'
    if 'ed448' in name: return 'ed448'
    if 'rsa' in name: return 'rsa'
    return key.curve.name

def algs_for(key):
    """ CertificateVerify schemes RFC 8446 allows for a key """
    kind = key_kind(key)
    return {'ed25519': [ED25519], 'ed448': [ED448], 'rsa': [RSAE256, RSAE384, RSAE512],
            'secp256r1': [EC256], 'secp384r1': [EC384], 'secp521r1': [EC521]}[kind]

def sign(key, alg, msg):
    if alg in (ED25519, ED448):
        return key.sign(msg)
    h = _HASH[alg]()
    if alg in _CURVE_OF:
        return key.sign(msg, ec.ECDSA(h))
    return key.sign(msg, padding.PSS(padding.MGF1(h), h.digest_size), h)

def verify(pub, alg, sig, msg):
    try:
        if alg in (ED25519, ED448):
            if key_kind(pub) != ('ed25519' if alg == ED25519 else 'ed448'):
                raise RefError('signature scheme does not match key')
            pub.verify(sig, msg)
        elif alg in _CURVE_OF:
            if key_kind(pub) != _CURVE_OF[alg]:
                raise RefError('signature scheme does not match curve')
            pub.verify(sig, msg, ec.ECDSA(_HASH[alg]()))
        elif alg in _HASH:
            if not isinstance(pub, rsa.RSAPublicKey):
                raise RefError('signature scheme does not match key')
            h = _HASH[alg]()
            pub.verify(sig, msg, padding.PSS(padding.MGF1(h), h.digest_size), h)
        else:
            raise RefError(f'scheme 0x{alg:04x} is forbidden in CertificateVerify')
    except InvalidSignature:
        raise RefError('bad CertificateVerify signature') from None


# ---------------------------------------------------------------- transcript
class Transcript:
    def __init__(self): self.msgs = []
    def add(self, raw): self.msgs.append(bytes(raw))
    def digest(self, h):
        return hashlib.new(h, b''.join(self.msgs)).digest()
    def hrr(self, h):
        d = hashlib.new(h, b''.join(self.msgs)).digest()
        self.msgs = [u8(MESSAGE_HASH) + b'\0\0' + u8(len(d)) + d]


class Peer:
    """
    Common part of the puppets.  ``events`` collects what the implementation under test sent,
    already deprotected: (content type, payload, key epoch, size of the record on the wire).
    """
    max_plain = 2**14

    def __init__(self):
        self.t = Transcript()
        self.inbuf = b''
        self.hsbuf = b''
        self.rx = self.tx = None           # Dir
        self.rx_epoch = self.tx_epoch = 'plain'
        self.sched = None
        self.events = []
        self.got_hs = []                   # handshake types received
        self.app = b''                     # application data received
        self.alerts = []                   # (level, description)
        self.record_sizes = []             # (epoch, length field, inner length)

    # -- receive ------------------------------------------------------
    def feed(self, data):
        """ Process bytes emitted by the implementation under test. """
        self.inbuf += bytes(data)
        while len(self.inbuf) >= 5:
            ctype, version, length = struct.unpack('!BHH', self.inbuf[:5])
            if len(self.inbuf) < 5 + length:
                break
            head, frag = self.inbuf[:5], self.inbuf[5:5 + length]
            self.inbuf = self.inbuf[5 + length:]
            if version not in (0x0303, 0x0301):
                raise RefError(f'record version {version:04x}')
            if ctype == CCS:
                if frag != b'\x01':
                    raise RefError('bad ChangeCipherSpec')
                if self.hsbuf:
                    raise RefError('ChangeCipherSpec inside a handshake message')
                self.events.append((CCS, frag, 'plain', length))
                continue
            inner = length
            if self.rx:
                if ctype != APPDATA:
                    raise RefError(f'unprotected record of type {ctype} under {self.rx_epoch} keys')
                if length > 2**14 + 256:
                    raise RefError(f'protected record of {length} bytes')
                ctype, frag, inner = self.rx.open(head, frag)
            elif length > 2**14:
                raise RefError(f'plaintext record of {length} bytes')
            self.record_sizes.append((self.rx_epoch, length, inner, len(frag)))
            self.events.append((ctype, frag, self.rx_epoch, length))
            if ctype == HANDSHAKE:
                self.hsbuf += frag
                while len(self.hsbuf) >= 4:
                    n = int.from_bytes(self.hsbuf[1:4], 'big')
                    if len(self.hsbuf) < 4 + n:
                        break
                    raw, self.hsbuf = self.hsbuf[:4 + n], self.hsbuf[4 + n:]
                    self.got_hs.append(raw[0])
                    epoch = self.rx_epoch
                    self.on_handshake(raw[0], raw[4:], raw)
                    if self.rx_epoch != epoch and self.hsbuf:
                        raise RefError('handshake data spans a key change')
                continue
            if self.hsbuf:
                raise RefError('record interleaved with a fragmented handshake message')
            if ctype == ALERT:
                if len(frag) != 2:
                    raise RefError('bad alert')
                self.alerts.append((frag[0], frag[1]))
            elif ctype == APPDATA:
                if self.rx_epoch != 'ap':
                    raise RefError(f'application data under {self.rx_epoch} keys')
                self.app += frag
            else:
                raise RefError(f'unexpected content type {ctype}')

    def on_handshake(self, t, body, raw):
        raise NotImplementedError

    # -- send ---------------------------------------------------------
    def send(self, ctype, data, pad=0):
        if self.tx:
            return self.tx.seal(ctype, data, pad)
        return rec(ctype, data)

    def send_hs(self, raw, *, record=True, frag=None, update=True, pad=0):
        """ Add a handshake message to the transcript, return its record(s). """
        if update:
            self.t.add(raw)
        if not record:
            return raw
        if frag is None:
            frag = 2**14
        return b''.join(self.send(HANDSHAKE, raw[i:i + frag], pad)
                        for i in range(0, len(raw), frag))

    def send_alert(self, desc, level=2):
        return self.send(ALERT, bytes([level, desc]))

    def th(self):
        return self.t.digest(self.sched.h)


class RefClient(Peer):
    """ Puppet client: talks to a siotls server. """
    def __init__(self, suites=(CHACHA, AES256, AES128), groups=(X25519, P256), shares=None,
                 sigalgs=ALL_SIGALGS, extra=(), sid=SID, alpn=None, versions=(0x0304,),
                 mfl=None, drop=(), random=None, server_public_key=None):
        super().__init__()
        self.suites, self.groups = list(suites), list(groups)
        self.share_groups = list(shares) if shares is not None else self.groups[:1]
        self.sigalgs, self.extra, self.sid = list(sigalgs), list(extra), sid
        self.alpn, self.versions, self.mfl, self.drop = alpn, versions, mfl, set(drop)
        self.random = random or os.urandom(32)
        self.shares = {}
        self.suite = None
        self.hrr = None
        self.ee = self.cert = None
        self.server_finished = False
        self.server_public_key = server_public_key
        self.cookie = None
        self.cert_request = False

    def hello_raw(self, **kw):
        if 'share_groups' in kw:
            self.share_groups = kw['share_groups']
        self.shares = {g: self.shares.get(g) or Share(g) for g in self.share_groups}
        items = [
            x_versions(*self.versions), x_sigalgs(self.sigalgs), x_groups(self.groups),
            x_shares([(g, s.pub) for g, s in self.shares.items()]),
        ]
        if self.alpn:
            items.append(x_alpn(self.alpn))
        if self.mfl:
            items.append((X_MFL, u8(self.mfl)))
        if self.cookie is not None:
            items.append((X_COOKIE, v16(self.cookie)))
        items += self.extra
        items = [(t, d) for t, d in items if t not in self.drop]
        return client_hello(kw.get('random', self.random), kw.get('suites', self.suites), items,
                            sid=kw.get('sid', self.sid))

    def hello(self, **kw):
        return self.send_hs(self.hello_raw(**kw))

    def on_handshake(self, t, body, raw):
        if t == SERVER_HELLO:
            sh = parse_server_hello(body)
            if self.rx_epoch != 'plain':
                raise RefError('ServerHello in a protected record')
            if sh['version'] != 0x0303 or sh['comp'] != 0:
                raise RefError('bad ServerHello legacy fields')
            if sh['sid'] != self.sid:
                raise RefError('legacy_session_id not echoed')
            if sh['suite'] not in self.suites:
                raise RefError(f'server selected 0x{sh["suite"]:04x}, not offered')
            if self.suite not in (None, sh['suite']):
                raise RefError('cipher suite changed after HelloRetryRequest')
            if sh['x'].get(X_VERSIONS) != u16(0x0304):
                raise RefError('bad supported_versions')
            extra = set(sh['x']) - {X_VERSIONS, X_KEYSHARE, X_COOKIE}
            if extra:
                raise RefError(f'extensions {extra} not allowed in ServerHello')
            self.suite = sh['suite']
            if not self.sched:
                self.sched = Schedule(self.suite)
            if sh['hrr']:
                if self.hrr:
                    raise RefError('second HelloRetryRequest')
                self.hrr = sh
                r = R(sh['x'][X_KEYSHARE]); g = r.u(2); r.end()
                if g not in self.groups:
                    raise RefError('HelloRetryRequest group not offered')
                if g in self.shares:
                    raise RefError('HelloRetryRequest for a group already shared')
                self.hrr_group = g
                self.t.hrr(self.sched.h)
                self.t.add(raw)
                return
            r = R(sh['x'][X_KEYSHARE]); g = r.u(2); pub = r.v(2); r.end()
            if g not in self.shares:
                raise RefError('server share for a group not shared')
            self.group, self.server_pub, self.server_random = g, pub, sh['random']
            self.t.add(raw)
            self.sched.handshake(self.shares[g].shared(pub), self.th())
            self.rx, self.rx_epoch = Dir(self.suite, self.sched.s_hs), 'hs'
            self.tx, self.tx_epoch = Dir(self.suite, self.sched.c_hs), 'hs'
        elif t == EE:
            if self.rx_epoch != 'hs' or self.ee is not None:
                raise RefError('unexpected EncryptedExtensions')
            r = R(body); self.ee = dict(parse_exts(r.v(2))); r.end()
            self.t.add(raw)
        elif t == CERT_REQ:
            if self.ee is None or self.cert is not None:
                raise RefError('unexpected CertificateRequest')
            self.cert_request = True
            self.t.add(raw)
        elif t == CERT:
            if self.ee is None or self.cert is not None:
                raise RefError('unexpected Certificate')
            r = R(body)
            if r.v(1):
                raise RefError('certificate_request_context not empty')
            inner, self.cert = R(r.v(3)), []
            r.end()
            while not inner.eof():
                der = inner.v(3); self.cert.append((der, parse_exts(inner.v(2))))
            if not self.cert:
                raise RefError('empty server certificate')
            self.t.add(raw)
        elif t == CERT_VERIFY:
            if self.cert is None:
                raise RefError('unexpected CertificateVerify')
            r = R(body); alg = r.u(2); sig = r.v(2); r.end()
            if alg not in self.sigalgs:
                raise RefError('CertificateVerify scheme not offered')
            self.cv_scheme = alg
            if self.ee.get(X_SCT) == b'\x02':
                pub = load_der_public_key(self.cert[0][0])
            else:
                pub = load_der_x509_certificate(self.cert[0][0]).public_key()
            verify(pub, alg, sig, CV_SERVER + self.th())
            self.cv_alg = alg
            self.t.add(raw)
        elif t == FINISHED:
            if self.cert is None or self.server_finished:
                raise RefError('unexpected Finished')
            if body != self.sched.fin(self.sched.s_hs, self.th()):
                raise RefError('bad server Finished')
            self.t.add(raw)
            self.server_finished = True
            self.sched.master(self.th())
            self.rx, self.rx_epoch = Dir(self.suite, self.sched.s_ap), 'ap'
        else:
            raise RefError(f'unexpected handshake message {t}')

    def finished_raw(self):
        return hs(FINISHED, self.sched.fin(self.sched.c_hs, self.th()))

    def finished(self, raw=None, **kw):
        out = self.send_hs(raw or self.finished_raw(), **kw)
        self.use_app_keys()
        return out

    def use_app_keys(self):
        self.tx, self.tx_epoch = Dir(self.suite, self.sched.c_ap), 'ap'


class RefServer(Peer):
    """ Puppet server: talks to a siotls client. """
    def __init__(self, key, chain, suite=None, group=None, alg=None, ee=(), raw_key=False,
                 alpn=None, force_suite=None):
        super().__init__()
        self.key, self.chain = key, chain
        self.want_suite, self.want_group, self.alg = suite, group, alg
        self.ee_items, self.raw_key = list(ee), raw_key
        self.random = os.urandom(32)
        self.ch = None
        self.hellos = []
        self.client_finished = False
        self.sent_finished = False
        self.retried = False
        self.suite = None
        self.peer_random = None
        self.cert_extensions = {}
        self.share_filter = self.my_share = None

    def on_handshake(self, t, body, raw):
        if t == CLIENT_HELLO:
            if self.rx_epoch != 'plain':
                raise RefError('ClientHello in a protected record')
            ch = parse_client_hello(body)
            if len(self.hellos) >= (2 if self.retried else 1):
                raise RefError('unexpected ClientHello')
            if 0x0304 not in ch.get('versions', ()):
                raise RefError('ClientHello does not offer TLS 1.3')
            for field in ('groups', 'sigalgs', 'shares'):
                if field not in ch:
                    raise RefError(f'ClientHello without {field}')
            order = [g for g in ch['groups'] if g in dict(ch['shares'])]
            if [g for g, _ in ch['shares']] != order:
                raise RefError('key shares not a subsequence of supported_groups')
            if self.hellos and ch['random'] != self.hellos[0]['random']:
                raise RefError('client random changed after HelloRetryRequest')
            self.hellos.append(ch)
            self.ch = ch
            self.t.add(raw)
        elif t == CERT:
            if not self.sent_finished or self.client_finished:
                raise RefError('unexpected client Certificate')
            self.t.add(raw)
        elif t == FINISHED:
            if not self.sent_finished or self.client_finished:
                raise RefError('unexpected client Finished')
            if self.rx_epoch != 'hs':
                raise RefError('client Finished under the wrong keys')
            if body != self.sched.fin(self.sched.c_hs, self.th()):
                raise RefError('bad client Finished')
            self.t.add(raw)
            self.client_finished = True
            self.rx, self.rx_epoch = Dir(self.suite, self.sched.c_ap), 'ap'
        else:
            raise RefError(f'unexpected handshake message {t}')

    # -- flight -------------------------------------------------------
    def pick(self):
        self.suite = self.want_suite or self.ch['suites'][0]
        if not self.sched:
            self.sched = Schedule(self.suite)

    def hrr_raw(self, group, cookie=None, suite=None, drop_share=False, extra=()):
        self.pick()
        items = [(X_VERSIONS, u16(0x0304))]
        if not drop_share:
            items.append((X_KEYSHARE, u16(group)))
        if cookie is not None:
            items.append((X_COOKIE, v16(cookie)))
        return server_hello(HRR_RANDOM, suite or self.suite, items + list(extra),
                            sid=self.ch['sid'])

    def hrr(self, group, **kw):
        raw = self.hrr_raw(group, **kw)
        self.t.hrr(self.sched.h)
        self.retried = True
        return self.send_hs(raw)

    def sh_raw(self, **kw):
        self.pick()
        shares = dict(self.ch['shares'])
        group = self.want_group or next(iter(shares))
        self.group = group
        if group in shares:
            mine = self.my_share or Share(group)
            self.shared = mine.shared(shares[group])
            while self.share_filter and not self.share_filter(mine, self.shared):
                mine = Share(group)
                self.shared = mine.shared(shares[group])
            pub = mine.pub
        else:
            self.shared, pub = bytes(32), Share(group).pub
        self.my_pub = pub
        items = [(X_VERSIONS, u16(0x0304)), (X_KEYSHARE, u16(group) + v16(pub))]
        items = kw.pop('items', items) + kw.pop('extra', [])
        kw.setdefault('sid', self.ch['sid'])
        return server_hello(kw.pop('random', self.random), kw.pop('suite', self.suite), items,
                            **kw)

    def sh(self, raw=None, **kw):
        out = self.send_hs(raw or self.sh_raw(**kw))
        self.sched.handshake(self.shared, self.th())
        self.start_hs_keys()
        return out

    def start_hs_keys(self):
        self.tx, self.tx_epoch = Dir(self.suite, self.sched.s_hs), 'hs'
        self.rx, self.rx_epoch = Dir(self.suite, self.sched.c_hs), 'hs'

    def ee_raw(self, items=None):
        return hs(EE, exts(self.ee_items if items is None else items))

    def cert_request_raw(self):
        return hs(CERT_REQ, v8(b'') + exts([x_sigalgs(ALL_SIGALGS)]))

    def cert_raw(self, chain=None):
        chain = self.chain if chain is None else chain
        body = b''
        for i, c in enumerate(chain):
            if isinstance(c, bytes):
                der = c
            elif self.raw_key:
                der = c.public_bytes(Encoding.DER, PublicFormat.SubjectPublicKeyInfo)
            else:
                der = c.public_bytes(Encoding.DER)
            body += v24(der) + exts(self.cert_extensions.get(i, []))
        return hs(CERT, v8(b'') + v24(body))

    def cv_raw(self, key=None, alg=None, context=CV_SERVER, th=None, sig=None):
        key = key or self.key
        alg = alg or self.alg or algs_for(key)[0]
        if sig is None:
            sig = sign(key, alg, context + (self.th() if th is None else th))
        return hs(CERT_VERIFY, u16(alg) + v16(sig))

    def fin_raw(self):
        return hs(FINISHED, self.sched.fin(self.sched.s_hs, self.th()))

    def fin(self, raw=None, **kw):
        out = self.send_hs(raw or self.fin_raw(), **kw)
        self.sent_finished = True
        self.sched.master(self.th())
        self.tx, self.tx_epoch = Dir(self.suite, self.sched.s_ap), 'ap'
        return out

    def flight(self, ccs=True, **kw):
        """ The whole correct server flight. """
        out = self.sh()
        if ccs:
            out += CCS_RECORD
        out += self.send_hs(self.ee_raw(), **kw)
        out += self.send_hs(self.cert_raw(), **kw)
        out += self.send_hs(self.cv_raw(), **kw)
        out += self.fin(**kw)
        return out

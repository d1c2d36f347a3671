""" C24: invalid key shares never yield a connection. """
from .. import impl, pki, ref
from ..engine import need
from siotls.crypto import TLSKeyExchange
from siotls.iana import NamedGroup

PROP = 'C24'
ORDER = {ref.P256: 2**256 - 2**224 + 2**192 + 2**96 - 1,
         ref.P384: 2**384 - 2**128 - 2**96 + 2**32 - 1, ref.P521: 2**521 - 1}
SIZE = {ref.P256: 32, ref.P384: 48, ref.P521: 66, ref.X25519: 32, ref.X448: 56}
# every low order point of the two Montgomery curves (RFC 7748 section 6)
_p25519, _p448 = 2**255 - 19, 2**448 - 2**224 - 1
LOW25519 = [0, 1, _p25519 - 1, _p25519, _p25519 + 1,
            0xb8495f16056286fdb1329ceb8d09da6ac49ff1fae35616aeb8413b7c7aebe0,
            0x57119fd0dd4e22d8868e1c58c45c44045bef839c55b1d0b1248c50a3bc959c5f]
LOW448 = [0, 1, _p448 - 1, _p448, _p448 + 1]
LOW25519[5] = int.from_bytes(bytes.fromhex(
    'e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800'), 'little')
LOW25519[6] = int.from_bytes(bytes.fromhex(
    '5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157'), 'little')


def bad_shares(group, tier='quick'):
    """ {name: bytes} """
    good = ref.Share(group).pub
    out = {'empty?': b'\0', 'short': good[:-1], 'long': good + b'\0', 'half': good[:len(good) // 2],
           'double': good + good, 'front': b'\0' + good}
    if group in (ref.X25519, ref.X448):
        pts, n = (LOW25519, 32) if group == ref.X25519 else (LOW448, 56)
        for i, p in enumerate(pts):
            out[f'low{i}'] = p.to_bytes(n, 'little')
            if group == ref.X25519 and p < 2**255:
                out[f'low{i}high'] = (p | 2**255).to_bytes(n, 'little')
    elif group in ref.CURVES:
        n, p = SIZE[group], ORDER[group]
        out['infinity'] = b'\0'
        out['infinity_long'] = bytes(1 + 2 * n)
        out['zero'] = b'\4' + bytes(2 * n)
        out['ones'] = b'\4' + b'\xff' * (2 * n)
        out['one_one'] = b'\4' + (1).to_bytes(n, 'big') * 2
        out['x=p'] = b'\4' + p.to_bytes(n, 'big') + good[1 + n:]
        out['x+p'] = b'\4' + p.to_bytes(n, 'big') + p.to_bytes(n, 'big')
        for fmt in (0, 1, 5, 6, 7, 255):
            out[f'format{fmt}'] = bytes([fmt]) + good[1:]
        # the compressed and hybrid encodings aren't allowed in TLS 1.3
        out['compressed'] = bytes([2 + (good[-1] & 1)]) + good[1:1 + n]
        out['hybrid'] = bytes([6 + (good[-1] & 1)]) + good[1:]
        bits = range(8 * (1 + 2 * n)) if tier == 'thorough' else \
            [*range(8, 24), *range(8 * (1 + n), 8 * (1 + n) + 8), 8 * (1 + 2 * n) - 1]
        for bit in bits:
            if bit >= 8:
                bad = bytearray(good)
                bad[bit // 8] ^= 1 << (bit % 8)
                out[f'bit{bit}'] = bytes(bad)
    else:
        n, p = ref.FFDHE[group] // 8, ref.ffdhe_p(ref.FFDHE[group])
        q = (p - 1) // 2
        for name, y in (('0', 0), ('1', 1), ('p-1', p - 1), ('p', p), ('p+1', p + 1),
                        ('max', 2**(8 * n) - 1)):
            out[f'y={name}'] = y.to_bytes(n, 'big')
        del q
    return out


def off_curve(group, pub):
    """ does the (well formed) point really lie outside of the curve """
    if group not in ref.CURVES:
        return True
    try:
        ref.ec.EllipticCurvePublicKey.from_encoded_point(ref.CURVES[group](), pub)
    except ValueError:
        return True
    return False


def names(group, tier):
    return list(bad_shares(group, tier))


def cases(tier):
    groups = ref.ALL_GROUPS if tier == 'thorough' else [*ref.FAST_GROUPS, 0x100, 0x101]
    for group in groups:
        for name in names(group, tier):
            for role in ('client', 'server', 'server_hrr', 'client_hrr', 'api'):
                yield [role, group, name]
        for other in ref.FAST_GROUPS:
            if other != group:
                for role in ('client', 'server'):
                    yield [role, group, f'group{other}']


def run(case, obs):
    role, group, name = case
    if name.startswith('group'):
        bad = ref.Share(int(name[5:])).pub
    else:
        bad = bad_shares(group, 'thorough')[name]
    what = f'{role} {group:#x} {name}'
    if name in ('compressed',) or name.startswith(('group', 'bit')) and not off_curve(group, bad):
        # a valid point in a forbidden encoding: refusing or not is not a matter of safety
        if name != 'compressed':
            obs.outcome('valid after all')
            return
    obs.state(*case)
    obs.step()
    spare = ref.P256 if group == ref.X25519 else ref.X25519
    if role == 'api':
        kx = TLSKeyExchange[NamedGroup(group)]
        priv, _ = kx.init()
        try:
            kx.resume(priv, bad)
        except Exception:
            pass
        else:
            need(name == 'compressed', f'{what}: invalid key share accepted')
        obs.outcome('api/refused')
        obs.trace()
        return
    if role.startswith('server'):
        dut = impl.Impl.server(key_exchanges=impl.groups([group])).start()
        peer = ref.RefClient(groups=[group, spare])
        if role == 'server_hrr':
            need(dut.rx(peer.hello(share_groups=[spare])), 'refused')
            peer.feed(dut.tx())
            need(peer.hrr, 'no retry')
        share = ref.Share(group)
        share.pub = bad
        peer.shares = {group: share}
        ok = dut.rx(peer.hello(share_groups=[group]))
    else:
        ks = [group, spare] if role == 'client' else [spare, group]
        dut = impl.Impl.client(key_exchanges=impl.groups(ks)).start()
        peer = ref.RefServer(*pki.leaf(), group=group)
        peer.feed(dut.tx())
        if role == 'client_hrr':
            need(dut.rx(peer.hrr(group)), 'refused')
            peer.feed(dut.tx())
        peer.pick()
        raw = ref.server_hello(peer.random, peer.suite, [
            (ref.X_VERSIONS, ref.u16(0x0304)), (ref.X_KEYSHARE, ref.u16(group) + ref.v16(bad))])
        ok = dut.rx(peer.send_hs(raw))
    if name == 'compressed' and ok:
        obs.outcome('compressed accepted')
        return
    need(not ok and not dut.connected, f'{what}: invalid key share accepted')
    need(dut.alert in (ref.ALERTS['illegal_parameter'], ref.ALERTS['decode_error'],
                       ref.ALERTS['handshake_failure'], ref.ALERTS['insufficient_security']),
         lambda: f'{what}: {dut.error!r}')
    peer.feed(dut.tx())
    need(len(peer.alerts) == 1 and ref.SERVER_HELLO not in peer.got_hs[1:],
         f'{what}: {peer.alerts}')
    dut.assert_dead(what)
    obs.outcome(f'{role}/refused')
    obs.trace()

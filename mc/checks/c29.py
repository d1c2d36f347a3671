""" C29: the certificates trusted by the system. """
import builtins
import contextlib
import functools
import io
import itertools
import os
import platform
import shutil
import tempfile

from cryptography.x509.verification import PolicyBuilder
from cryptography.x509 import DNSName
from cryptography.hazmat.primitives.serialization import Encoding

from .. import pki
from ..engine import Violation, need
from siotls import trust_store

PROP = 'C29'
CHUNK = 4
# where those systems document that the certificates are
PATHS = {
    'alpine': '/etc/ssl/certs/ca-certificates.crt',
    'arch': '/etc/ca-certificates/extracted/tls-ca-bundle.pem',
    'debian': '/etc/ssl/certs/ca-certificates.crt',
    'fedora': '/etc/pki/ca-trust/extracted/pem/tls-ca-bundle.pem',
    'suse': '/var/lib/ca-certificates/ca-bundle.pem',
    'ubuntu': '/etc/ssl/certs/ca-certificates.crt',
}
FILES = sorted(set(PATHS.values()))
UNKNOWN = ['gentoo', 'nixos', 'Debian', 'debian2', 'deb', 'opensuse', 'x/../fedora', 'linux']
NAMES = [*PATHS, *UNKNOWN]
SYSTEMS = ['Linux', 'Darwin', 'Java', 'Windows', 'FreeBSD', 'linux', '']
REAL = [    # of actual systems
    ('opensuse-leap', 'suse opensuse', 'suse'), ('opensuse-tumbleweed', 'opensuse suse', 'suse'),
    ('linuxmint', 'ubuntu debian', 'ubuntu'), ('centos', 'rhel fedora', 'fedora'),
    ('rhel', 'fedora', 'fedora'), ('manjaro', 'arch', 'arch'), ('raspbian', 'debian', 'debian'),
    ('postmarketos', 'alpine', 'alpine'), ('ubuntu', 'debian', 'ubuntu'),
    ('rocky', 'rhel centos fedora', 'fedora'), ('sles', 'suse', 'suse'),
    ('nixos', None, None), ('gentoo', None, None), ('void', None, None), ('fedora', None, 'fedora'),
]
ASSUMPTIONS = [
    'The bundles are those of a file tree of the check, into which a process of its own user '
    'namespace is confined with chroot, or else to which open() is redirected.']


def expected(release_id, parents):
    return next((PATHS[i] for i in (release_id, *parents) if i in PATHS), None)


def cases(tier):
    depth = 3 if tier == 'quick' else 4
    for release_id in NAMES:
        yield ['path', release_id, depth]
    for i, _ in enumerate(REAL):
        yield ['real', i]
    for release_id in NAMES:
        yield ['load', release_id, 1 if tier == 'quick' else 2]
    for system in SYSTEMS:
        yield ['system', system]
    for n in range(2 ** len(FILES)):
        yield ['missing', n]
    for n in range(4):
        yield ['bundle', n]


def lookup(release, path, obs):
    what = f'release {release}'
    try:
        got = trust_store.get_ca_certificates_path(dict(release))
    except Exception as exc:    # noqa: BLE001
        need(path is None, lambda: f'{what}: refused: {exc!r}')
        obs.outcome('refused')
    else:
        need(got == path, f'{what}: {got} instead of {path}')
        obs.outcome(path)
    obs.state(*sorted(release.items()))
    obs.step()
    obs.trace()


# ------------------------------------------------------------ a file tree of our own
@functools.cache
def authorities():
    return [pki.CA(f'Bundle {i}') for i in range(len(FILES) + 2)]


@functools.cache
def leaves():
    return [ca.issue() for ca in authorities()]


def trusted(store):
    out = set()
    for i, leaf in enumerate(leaves()):
        verifier = PolicyBuilder().store(store).time(pki.NOW).build_server_verifier(
            DNSName(pki.HOST))
        with contextlib.suppress(Exception):
            verifier.verify(leaf, [])
            out.add(i)
    return out


def pem(indexes):
    return b''.join(authorities()[i].cert.public_bytes(Encoding.PEM) for i in indexes)


class Tree:
    """ the files of a system; `confine` turns them into those that this process sees """

    def __init__(self, root):
        self.root = root

    def write(self, path, data):
        path = self.root + path
        if data is None:
            with contextlib.suppress(FileNotFoundError):
                os.unlink(path)
            return
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with REAL_OPEN(path, 'wb') as file:
            file.write(data)

    def confine(self):
        uid, gid = os.getuid(), os.getgid()
        try:
            os.unshare(os.CLONE_NEWUSER)
            for name, text in (('setgroups', 'deny'), ('uid_map', f'{uid} {uid} 1'),
                               ('gid_map', f'{gid} {gid} 1')):
                with REAL_OPEN(f'/proc/self/{name}', 'w') as file:
                    file.write(text)
            os.chroot(self.root)
            os.chdir('/')
        except OSError:
            root = self.root

            def redirected(file, *args, **kwargs):
                if not isinstance(file, int) and os.fspath(file).startswith('/'):
                    file = root + os.fspath(file)
                return REAL_OPEN(file, *args, **kwargs)
            builtins.open = io.open = redirected
        else:
            self.root = ''


REAL_OPEN = open


def in_tree(function, *args):
    """ call function(tree, *args) in a child confined in a tree """
    # import what is loaded lazily
    pem(range(len(FILES) + 2))
    leaves()
    with contextlib.suppress(OSError):
        platform.freedesktop_os_release()
    with tempfile.NamedTemporaryFile() as file:
        file.write(pem([0, 1]))
        file.flush()
        trusted(trust_store.Store(trust_store.load_pem_x509_certificates(
            REAL_OPEN(file.name, 'rb').read())))
    'é'.encode('idna')
    root = tempfile.mkdtemp(prefix='c29-')
    try:
        r, w = os.pipe()
        pid = os.fork()
        if not pid:
            code = 1
            try:
                os.close(r)
                tree = Tree(root)
                tree.confine()
                try:
                    text = 'ok ' + str(function(tree, *args) or '')
                except Violation as exc:
                    text = 'violation ' + str(exc)
                os.write(w, text.encode()[:60000])
                code = 0
            except BaseException as exc:    # noqa: BLE001
                os.write(w, ('error ' + repr(exc)).encode()[:60000])
            finally:
                os._exit(code)
        os.close(w)
        with os.fdopen(r, 'rb') as pipe:
            text = pipe.read().decode()
        os.waitpid(pid, 0)
    finally:
        shutil.rmtree(root)
    kind, _, text = text.partition(' ')
    if kind == 'violation':
        raise Violation(text)
    if kind != 'ok':
        raise RuntimeError(text)
    return text


def system_store(tree, release_id, parents, style=0):
    lines = ['NAME="Test é"', 'PRETTY_NAME=Test']
    quote = ['"', "'", ''][style % 3]
    if release_id is not None:
        q = quote if release_id.isalnum() or quote else '"'
        lines.append(f'ID={q}{release_id}{q}')
    if parents is not None:
        q = quote if len(parents) == 1 or quote else '"'
        lines.append(f'ID_LIKE={q}{" ".join(parents)}{q}')
    tree.write('/etc/os-release', '\n'.join(lines).encode() + b'\n')
    platform._os_release_cache = None
    return trust_store.get_system_store()


def load_many(tree, release_id, depth):
    for i, path in enumerate(FILES):
        tree.write(path, pem([i]))
    n = 0
    for k in range(depth + 1):
        for parents in itertools.product(NAMES, repeat=k):
            path = expected(release_id, parents)
            what = f'system {release_id} like {parents}'
            try:
                store = system_store(tree, release_id, parents if k else None, n)
            except Exception as exc:    # noqa: BLE001
                need(path is None, lambda: f'{what}: refused: {exc!r}')
            else:
                need(path is not None, f'{what}: not refused')
                got = trusted(store)
                need(got == {FILES.index(path)}, f'{what}: {got} instead of {path}')
            n += 1
    return n


def missing_file(tree, n):
    """ a system whose file is not there, or unusable: nothing else is trusted instead """
    there = [i for i in range(len(FILES)) if n >> i & 1]
    for bad in (None, b'', b'nothing', b'-----BEGIN CERTIFICATE-----\nAAAA\n'
                                       b'-----END CERTIFICATE-----\n'):
        for i, path in enumerate(FILES):
            tree.write(path, pem([i]) if i in there else bad)
        for release_id, path in PATHS.items():
            what = f'system {release_id}, only {[FILES[i] for i in there]}, others {bad}'
            try:
                store = system_store(tree, release_id, list(PATHS))
            except Exception as exc:    # noqa: BLE001
                need(FILES.index(path) not in there, lambda: f'{what}: refused: {exc!r}')
            else:
                got = trusted(store)
                need(FILES.index(path) in there, f'{what}: {got} accepted')
                need(got == {FILES.index(path)}, f'{what}: {got} trusted')
    return 4 * len(PATHS)


def bundles(tree, n):
    """ every certificate of the file is trusted, none other """
    count = 0
    for k in range(1, len(authorities()) + 1):
        for indexes in itertools.permutations(range(len(authorities())), k):
            if k > 3 and list(indexes) != sorted(indexes):
                continue
            if count % 4 == n:
                text = pem(indexes)
                if n % 2:
                    text = b'# a comment\n' + text.replace(b'-----BEGIN', b'\n# name\n-----BEGIN')
                tree.write(PATHS['fedora'], text)
                got = trusted(system_store(tree, 'fedora', None))
                need(got == set(indexes), f'bundle of {indexes}: {got} trusted')
            count += 1
    return count // 4


def other_system(tree, system):
    for i, path in enumerate(FILES):
        tree.write(path, pem([i]))
    platform.system = lambda: system
    for release_id in PATHS:
        try:
            store = system_store(tree, release_id, None)
        except Exception as exc:    # noqa: BLE001
            need(system != 'Linux', lambda: f'{system}/{release_id}: refused: {exc!r}')
        else:
            need(system == 'Linux', f'{system}: {trusted(store)} trusted instead of refusing')
    return len(PATHS)


def run(case, obs):
    kind, *rest = case
    if kind == 'path':
        release_id, depth = rest
        lookup({'ID': release_id}, expected(release_id, ()), obs)
        for k in range(depth + 1):
            for parents in itertools.product(NAMES, repeat=k):
                if k == 4 and len(set(parents)) < k:
                    continue
                lookup({'ID': release_id, 'ID_LIKE': ' '.join(parents)},
                       expected(release_id, parents), obs)
    elif kind == 'real':
        release_id, like, known = REAL[rest[0]]
        release = {'ID': release_id, 'NAME': 'x', 'PRETTY_NAME': 'x'}
        if like is not None:
            release['ID_LIKE'] = like
        lookup(release, PATHS[known] if known else None, obs)
    else:
        function = {'load': load_many, 'missing': missing_file, 'bundle': bundles,
                    'system': other_system}[kind]
        n = int(in_tree(function, *rest))
        for i in range(n):
            obs.state(*case, i)
            obs.step()
            obs.trace()
        obs.outcome(f'{kind}/ok')

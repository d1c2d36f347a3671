"""
Records every AEAD call of the process: install() must run before siotls is imported by the check
(pyca's classes are replaced in their module by wrappers that still do the work).
"""
import sys

from cryptography.hazmat.primitives.ciphers import aead

CALLS = []          # (operation, key, nonce, succeeded)
_real = {}


def _wrapper(name, real):
    class Recorder:
        def __init__(self, key, *args, **kwargs):
            self._key = bytes(key)
            self._aead = real(key, *args, **kwargs)

        def encrypt(self, nonce, data, associated_data):
            CALLS.append(('seal', self._key, bytes(nonce), True))
            return self._aead.encrypt(nonce, data, associated_data)

        def decrypt(self, nonce, data, associated_data):
            try:
                out = self._aead.decrypt(nonce, data, associated_data)
            except Exception:
                CALLS.append(('open', self._key, bytes(nonce), False))
                raise
            CALLS.append(('open', self._key, bytes(nonce), True))
            return out

        generate_key = getattr(real, 'generate_key', None)
    Recorder.__name__ = Recorder.__qualname__ = name
    return Recorder


def install():
    if _real:
        return
    if 'siotls.crypto.ciphers' in sys.modules:
        raise RuntimeError('too late to monitor the ciphers')
    for name in ('AESGCM', 'ChaCha20Poly1305', 'AESCCM'):
        _real[name] = getattr(aead, name)
        setattr(aead, name, _wrapper(name, _real[name]))

"""
Bind the harness to the code under test: siotls is always imported from the working tree of the
repository, compiled from source in this very process.
"""
import datetime
import importlib
import logging
import os
import sys
import time
import warnings

sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
REPO = os.environ.get('SIOTLS_REPO', '/repo')     # overridden only to try the checks on copies
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)

# local time is not UTC: whatever mistakes one for the other is out by more than half a day
os.environ['TZ'] = 'XMC+14:30'
time.tzset()

if os.path.join(REPO, 'src') not in sys.path:
    sys.path.insert(0, os.path.join(REPO, 'src'))
logging.getLogger('siotls').addHandler(logging.NullHandler())
logging.getLogger('siotls').propagate = False
logging.getLogger('siotls').setLevel(logging.CRITICAL + 1)

if os.environ.get('MC_AEAD'):       # C13 records the AEAD calls of siotls, not of the reference
    from . import ref, aead_monitor  # noqa: F401
    aead_monitor.install()
siotls = importlib.import_module('siotls')
if not os.path.realpath(siotls.__file__).startswith(os.path.realpath(REPO) + os.sep):
    raise SystemExit(f'siotls was imported from {siotls.__file__}, expected {REPO}')

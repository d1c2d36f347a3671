""" C02: client side handshake state machine. """
from .. import automaton as A
from . import c01

PROP = 'C02'
WORLD = A.ClientWorld


def cases(tier):
    for c in c01.enumerate_cases(WORLD, tier):
        yield [tier, False, *c]
    for c in c01.enumerate_cases(WORLD, 'quick'):
        if c[0] == 0:
            yield [tier, True, *c]


def run(case, obs):
    tier, raw, *rest = case
    world = (lambda **kw: WORLD(raw=True, **kw)) if raw else WORLD
    c01.execute(world, tier, rest, obs)

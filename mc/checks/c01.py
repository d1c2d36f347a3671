""" C01: server side handshake state machine. """
from .. import automaton as A
from .. import ref

PROP = 'C01'
WORLD = A.ServerWorld
STAY = ('ccs', 'ccs2', 'cancel')
CONFIGS = {
    'quick': [dict(), dict(suite=ref.AES256, group=ref.P384, kind='ed25519')],
    'thorough': [dict(), dict(suite=ref.AES256, group=ref.P384, kind='ed25519'),
                 dict(suite=ref.AES128, group=ref.X448, kind='rsa'),
                 dict(suite=ref.CHACHA, group=ref.P521, kind='p521'),
                 dict(suite=ref.AES256, group=ref.P256, other=ref.X25519, kind='ed448'),
                 dict(suite=ref.AES128, group=0x100, kind='p384')],
}


def enumerate_cases(world, tier):
    syms = A.alphabet(world)
    for ci, _ in enumerate(CONFIGS[tier]):
        # the honest paths of a client are longer
        deviations = 2 if tier == 'thorough' and (ci < 2 or world is A.ServerWorld) else 1
        for stage, path in A.honest_paths(world):
            # every event in every stage, also with harmless events inserted anywhere before it
            prefixes = [path]
            if ci == 0 or tier == 'thorough':
                for d in range(1, deviations + 1):
                    prefixes += inserts(path, d)
            for prefix in prefixes:
                for sym in syms:
                    yield [ci, list(prefix), sym]


def inserts(path, d):
    if d == 0:
        return [tuple(path)]
    out = set()
    for p in inserts(path, d - 1):
        for i in range(len(p) + 1):
            for s in STAY:
                out.add((*p[:i], s, *p[i:]))
    return sorted(out)


def execute(world, tier, case, obs):
    ci, prefix, sym = case
    w = world(**CONFIGS[tier][ci])
    res = A.run_path(w, prefix, obs)
    if res is True:
        res = w.deliver(sym, obs, ' '.join(prefix) or 'start')
        if res is True:
            A.finish(w, obs)
    if res is not None:
        obs.trace()


def cases(tier):
    for c in enumerate_cases(WORLD, tier):
        yield [tier, *c]


def run(case, obs):
    execute(WORLD, case[0], case[1:], obs)

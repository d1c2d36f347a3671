"""
The explorer: enumerates every case of a check (a case is one bounded, closed behaviour: a
sequence of operations / messages / faults), executes each against the implementation in a pool of
forked workers, and aggregates what was covered.

A check module has
    PROP                      property id
    cases(tier)               every case of the bounded space, JSON-able, simplest first
    run(case, obs)            execute one case; raise Violation (or RefError, or anything else
                              unexpected) when the property is broken
    TIMEOUT                   optional, seconds before a case is said not to terminate
    describe()                optional dict merged in the evidence
"""
import collections
import hashlib
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import resource
import signal
import sys
import time
import traceback

from . import env

WORKERS = int(os.environ.get('MC_WORKERS', '8'))
MAX_VIOLATIONS = int(os.environ.get("MC_MAX_VIOLATIONS", "3"))


class Violation(Exception):
    """ The property does not hold on the current case. """


class CaseTimeout(BaseException):
    pass


def need(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


class Obs:
    """ What the exploration covered. """
    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = collections.Counter()

    def state(self, *key):
        """ Record an (abstract, canonical) state reached. """
        self.states.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def step(self, n=1):
        """ Record transitions executed against the implementation. """
        self.transitions += n

    def trace(self, n=1):
        """ Record complete model traces replayed on the implementation and found conforming. """
        self.traces += n

    def outcome(self, name):
        self.outcomes[name] += 1

    def merge(self, other):
        self.states |= other.states
        self.transitions += other.transitions
        self.traces += other.traces
        self.outcomes.update(other.outcomes)


def _on_alarm(signum, frame):
    raise CaseTimeout


def run_case(module, case, obs):
    """ None or the description of the violation. """
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, getattr(module, 'TIMEOUT', 90))
    try:
        module.run(case, obs)
    except CaseTimeout:
        return 'did not terminate: ' + ''.join(traceback.format_stack()[-1:])
    except Violation as exc:
        return f'{exc}'
    except Exception as exc:
        return f'{type(exc).__name__}: {exc}\n' + ''.join(traceback.format_exc()[-3000:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return None


def _worker(modname, chunk):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    module = importlib.import_module(modname)
    obs, bad = Obs(), []
    for i, case in enumerate(chunk):
        msg = run_case(module, case, obs)
        if msg is not None:
            bad.append((case, msg, i))
    return obs, bad, len(chunk)


def _chunks(items, n):
    for i in range(0, len(items), n):
        yield items[i:i + n]


def _die_with_parent():
    try:
        import ctypes
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)      # PR_SET_PDEATHSIG
    except Exception:
        pass


def _loop(modname, chunks, counter, pipe):
    """ One worker: takes the next chunk until there is none left. """
    _die_with_parent()
    past = []
    while True:
        with counter.get_lock():
            i = counter.value
            counter.value += 1
        if i >= len(chunks):
            break
        pipe.send(('start', i))
        obs, bad, n = _worker(modname, chunks[i])
        # what this process did before each failure, in case the failure depends on it
        bad = [(case, msg, (past[:], i, k)) for case, msg, k in bad]
        past.append(i)
        pipe.send(('done', i, (obs, bad, n)))
    pipe.close()
    os._exit(0)


def pooled(modname, chunks, on_result, workers=WORKERS):
    """
    Execute every chunk in forked workers; on_result returns True to stop.  Returns the chunks
    on which a worker died.
    """
    ctx = multiprocessing.get_context('fork')
    counter = ctx.Value('q', 0)
    procs, current, lost = {}, {}, []
    for _ in range(max(1, min(workers, len(chunks)))):
        mine, theirs = ctx.Pipe(duplex=False)
        proc = ctx.Process(target=_loop, args=(modname, chunks, counter, theirs), daemon=True)
        proc.start()
        theirs.close()
        procs[mine] = proc
    try:
        alive = set(procs)
        while alive:
            for pipe in multiprocessing.connection.wait(alive):
                try:
                    msg = pipe.recv()
                except (EOFError, OSError):
                    alive.discard(pipe)
                    if pipe in current:
                        lost.append(chunks[current.pop(pipe)])
                        # its work still has to be done by somebody
                        if not alive:
                            while counter.value < len(chunks):
                                lost.append(chunks[counter.value])
                                counter.value += 1
                    continue
                if msg[0] == 'start':
                    current[pipe] = msg[1]
                else:
                    current.pop(pipe, None)
                    if on_result(*msg[2]):
                        return lost
    finally:
        for pipe, proc in procs.items():
            proc.kill()
            proc.join()
            pipe.close()
    return lost


class Findings:
    """ The failures, each confirmed in fresh processes as soon as it is known. """
    def __init__(self, module, chunks, known):
        self.module, self.chunks, self.known = module, chunks, known
        self.violations, self.listed, self.unconfirmed = [], [], []
        self.histories, self.began = 3, time.monotonic()

    def add(self, case, msg, past=None):
        key = json.dumps(case, sort_keys=True)
        if len(self.violations) >= MAX_VIOLATIONS or len(self.unconfirmed) >= 200:
            return
        again = confirm(self.module, [case])
        if again:
            if key in self.known:
                self.listed.append((case, self.known[key]))
            else:
                self.violations.append((case, again, []))
            return
        if past and self.histories:
            # it depends on what the process did before: the same chunk, then all of its chunks
            done, i, k = past
            start = self.chunks[i][:k]
            everything = [c for j in done for c in self.chunks[j]] + start
            quick = time.monotonic() - self.began < 90
            for before in (start, everything if quick else ()):
                again = before and confirm(self.module, [*before, case], 2)
                if again:
                    self.violations.append((case, again, before))
                    return
            self.histories -= 1
        self.unconfirmed.append({'case': case, 'message': msg})

    @property
    def enough(self):
        return len(self.violations) >= MAX_VIOLATIONS


def explore(module, cases, known=()):
    obs, done = Obs(), 0
    size = max(1, min(getattr(module, 'CHUNK', 64), len(cases) // (WORKERS * 4) or 1))
    chunks = list(_chunks(cases, size))
    found = Findings(module, chunks, known)

    def on_result(o, b, n):
        nonlocal done
        obs.merge(o)
        done += n
        for failure in b:
            found.add(*failure)
        return found.enough

    # a worker died (crash of the interpreter, memory): find out on which case
    for chunk in pooled(module.__name__, chunks, on_result):
        for case in chunk:
            if found.enough:
                break
            if pooled(module.__name__, [[case]], on_result, 1):
                found.add(case, 'the process died on this case')
    return obs, found, done


def confirm(module, cases, tries=6):
    """
    Do the cases, executed in this order, fail again on the last one in fresh processes?  Twice
    out of ``tries`` when possible.  The message or None.
    """
    msg, hits = None, 0
    for _ in range(tries):
        found = []
        if pooled(module.__name__, [cases], lambda o, b, n: found.extend(b), 1):
            found.append((cases[-1], 'the process died on this case', None))
        found = [f for f in found if f[0] == cases[-1]]
        if found:
            hits, msg = hits + 1, found[-1][1]
            if hits >= 2:
                break
    return msg


def known_findings(prop):
    """ Committed list of genuine defects which are recorded rather than repaired. """
    out = {}
    with open(os.path.join(env.VERIF, 'known_findings.jsonl')) as file:
        for line in file:
            line = line.strip()
            if line.startswith('{'):
                entry = json.loads(line)
                if entry['property'] == prop:
                    out[json.dumps(entry['case'], sort_keys=True)] = entry['what']
    return out


def main(prop, tier):
    t0 = time.monotonic()
    modname = f'mc.checks.{prop.lower()}'
    module = importlib.import_module(modname)
    unique = {json.dumps(c, sort_keys=True): None for c in module.cases(tier)}
    cases = [json.loads(c) for c in unique]
    if hasattr(module, 'prepare'):
        module.prepare(tier)
    known = known_findings(prop)
    obs, found, done = explore(module, cases, known)
    violations, unconfirmed, findings = found.violations, found.unconfirmed, found.listed
    for case, what in findings:
        print(f'KNOWN-FINDING: property={prop} {what}')
    n = len(cases)
    sample_ids = sorted({0, n // 3, (2 * n) // 3, n - 1} & set(range(n)))
    evidence = {
        'property': prop, 'tier': tier, 'seed': env.SEED, 'level': 'model_checking',
        'coverage': {
            'states': len(obs.states), 'transitions': obs.transitions,
            'traces_validated_against_impl': obs.traces,
            'cases_enumerated': n, 'cases_executed': done,
            'exhaustive': done == n,
            'outcomes': dict(sorted(obs.outcomes.items())),
            'samples': [cases[i] for i in sample_ids],
            'unconfirmed': unconfirmed,
            **(module.describe(tier) if hasattr(module, 'describe') else {}),
        },
        'assumptions': getattr(module, 'ASSUMPTIONS', []),
        'wall_s': round(time.monotonic() - t0, 2),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(env.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(env.VERIF, 'evidence', f'{prop}.json'), 'w') as file:
        json.dump(evidence, file, indent=1)
    print(f'{prop} [{tier}]: {done}/{n} cases, {len(obs.states)} states, '
          f'{obs.transitions} transitions, {obs.traces} traces, '
          f'{len(obs.outcomes)} outcomes, {evidence["wall_s"]} s')
    if violations:
        os.makedirs(os.path.join(env.VERIF, 'replays'), exist_ok=True)
        for case, msg, before in violations[:MAX_VIOLATIONS]:
            h = hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]
            path = os.path.join(env.VERIF, 'replays', f'{prop}-{h}.json')
            with open(path, 'w') as file:
                json.dump({'property': prop, 'case': case, 'message': msg,
                           **({'before': before} if before else {})}, file, indent=1)
            print(f'--- {json.dumps(case)}' + f' after {len(before)} others' * bool(before)
                  + f'\n{msg}')
            print(f'VIOLATION property={prop} replay={path}')
        sys.stdout.flush()
        return 1
    sys.stdout.flush()
    return 0


def replay(path):
    with open(path) as file:
        doc = json.load(file)
    module = importlib.import_module(f'mc.checks.{doc["property"].lower()}')
    if hasattr(module, 'prepare'):
        module.prepare('quick')
    for case in doc.get('before', ()):
        run_case(module, case, Obs())
    msg = run_case(module, doc['case'], Obs())
    print(msg or 'the property holds on this case')
    return 1 if msg else 0

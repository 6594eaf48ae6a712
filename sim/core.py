"""Simulation kernel: seeds, run contexts, the seeded search, minimiser, replay files and evidence.

A property module (``props/<id>.py``) supplies

    gen(rng, tier) -> spec        everything a run does, drawn from one PRNG, as plain JSON data
    run(spec, ctx)                executes the spec against the real code; deterministic
    shrink(spec) -> iterable      simpler specs, most aggressive first
    RUNS, RULE, COMPONENTS, ASSUMPTIONS

One (VERIF_SEED, property, run index) triple decides the spec; the spec decides the execution.
"""
import contextlib
import copy
import hashlib
import importlib
import io
import json
import multiprocessing
import os
import pickle
import random
import signal
import subprocess
import sys
import time as _time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
_wall = _time.monotonic          # bound before any simulated clock is installed


class Violation(Exception):
    """The property does not hold in this run."""

    def __init__(self, kind, message, sig=None):
        super().__init__(message)
        self.kind, self.message, self.sig = kind, message, sig or kind


class RunTimeout(BaseException):
    """Raised by the watchdog; not an Exception, so that the code under test cannot swallow it."""


def derive(*parts):
    """A 64-bit integer decided by the parts alone."""
    h = hashlib.sha256('\x1f'.join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], 'big')


def rng_of(*parts):
    return random.Random(derive(*parts))


def plain(x):
    """JSON-able form of x with floats rounded, for event logs."""
    import numpy as np
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    if isinstance(x, (bool, type(None), str)):
        return x
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float('%.9g' % x)
    if isinstance(x, complex):
        return [float('%.9g' % x.real), float('%.9g' % x.imag)]
    return str(x)


class Ctx:
    """What one simulated run records."""

    KEEP = 400

    def __init__(self, spec=None):
        self.spec = spec
        self.faults = Counter()
        self.probes = Counter()
        self.states = set()
        self.sim_time = 0.0
        self.steps = 0
        self.trace = []
        self.schedule = None
        self._h = hashlib.sha256()

    def event(self, *what):
        """Append to the run's event log (never draws randomness, never reads a real clock)."""
        line = json.dumps(plain(what), sort_keys=True)
        self._h.update(line.encode())
        self.steps += 1
        if len(self.trace) < self.KEEP:
            self.trace.append(line)

    def fault(self, kind, n=1):
        """A fault of this kind fired."""
        self.faults[kind] += n
        self.event('fault', kind)

    def probe(self, name, n=1):
        self.probes[name] += n

    def state(self, *what):
        """Note a distinct abstract state or interleaving."""
        self.states.add(derive(json.dumps(plain(what), sort_keys=True)))

    def advance(self, seconds):
        self.sim_time += float(seconds)

    @staticmethod
    def fail(kind, message, sig=None):
        raise Violation(kind, message, sig)

    def check(self, cond, kind, message, sig=None):
        if not cond:
            raise Violation(kind, message() if callable(message) else message, sig)

    def sut(self, what, fn, *args, **kw):
        """Call the code under test where it has to succeed."""
        try:
            return fn(*args, **kw)
        except (Violation, RunTimeout):
            raise
        except Exception as e:            # pylint: disable=broad-except
            raise Violation('unexpected-exception',
                            '%s raised %s: %s\n%s' % (what, type(e).__name__, e, short_tb(e)))

    def refuses(self, what, fn, *args, allowed=(Exception,), **kw):
        """Call the code under test where it has to raise."""
        try:
            out = fn(*args, **kw)
        except (Violation, RunTimeout):
            raise
        except allowed:
            return
        raise Violation('not-refused', '%s was accepted and returned %r' % (what, out))

    @property
    def digest(self):
        return self._h.hexdigest()


def short_tb(e):
    tb = traceback.extract_tb(e.__traceback__)
    return '\n'.join('  %s:%d %s: %s' % (f.filename, f.lineno, f.name, f.line) for f in tb[-6:])


# ----------------------------------------------------------------------- one run

def execute(mod, spec, limit=90):
    """Run a spec once. Returns a summary; never raises for SUT or harness trouble."""
    if getattr(mod, 'ISOLATE', False):
        return _execute_apart(mod, spec, limit)
    return _execute(mod, spec, limit)


def _execute_apart(mod, spec, limit):
    """The same in a fork of this process, so that nothing an earlier run left behind can matter."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            out = _execute(mod, spec, limit)
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    try:
        return pickle.loads(data)
    except Exception:                 # pylint: disable=broad-except
        return {'violation': None, 'error': 'the isolated run died', 'digest': '', 'faults': {}, 'probes': {}, 'states': set(), 'sim_time': 0.0,
                'steps': 0, 'trace': [], 'schedule': None}


def _execute(mod, spec, limit=90):
    import warnings
    import numpy as np
    ctx = Ctx(spec)
    random.seed(derive('ambient', json.dumps(spec, sort_keys=True)))
    np.random.seed(derive('ambient-np', json.dumps(spec, sort_keys=True)) % 2**32)
    out = {'violation': None, 'error': None}
    # operating-system entropy (numpy generators created without a seed) comes from the run's seed
    entropy = random.Random(derive('entropy', json.dumps(spec, sort_keys=True)))
    import numpy.random.bit_generator as bit_generator
    real_randbits = getattr(bit_generator, 'randbits', None)
    if real_randbits is not None:
        bit_generator.randbits = entropy.getrandbits

    def on_alarm(*_):
        raise RunTimeout()
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            mod.run(spec, ctx)
    except Violation as v:
        out['violation'] = {'kind': v.kind, 'message': v.message[:4000], 'sig': v.sig}
    except RunTimeout:
        out['violation'] = {'kind': 'no-progress', 'sig': 'no-progress',
                            'message': 'the run made no end within %d s (normally well under 1 s)' % limit}
    except BaseException as e:        # pylint: disable=broad-except
        if isinstance(e, KeyboardInterrupt):
            raise
        frames = traceback.extract_tb(e.__traceback__)
        ignis = os.path.join(os.path.realpath(REPO), 'qiskit', 'ignis') + os.sep
        if isinstance(e, Exception) and any(os.path.realpath(f.filename).startswith(ignis) for f in frames):
            # every call a run makes outside ctx.refuses() has to succeed
            out['violation'] = {'kind': 'unexpected-exception', 'sig': 'unexpected-exception',
                                'message': '%s: %s\n%s' % (type(e).__name__, e, short_tb(e))}
        elif isinstance(e, (TypeError, ValueError, LookupError, AttributeError, ArithmeticError)):
            # the judge of this run could not use what the code under test returned (missing entries, other shapes)
            out['violation'] = {'kind': 'unusable-output', 'sig': 'unusable-output',
                                'message': '%s: %s\n%s' % (type(e).__name__, e, short_tb(e))}
        else:
            out['error'] = '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-3000:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        if real_randbits is not None:
            bit_generator.randbits = real_randbits
    ctx.event('end', out['violation'] and out['violation']['kind'])
    out.update(digest=ctx.digest, faults=dict(ctx.faults), probes=dict(ctx.probes), states=ctx.states,
               sim_time=ctx.sim_time, steps=ctx.steps, trace=ctx.trace, schedule=ctx.schedule)
    return out


_JOB = {}


def _worker_init(mod_name, seed, tier):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _JOB.update(mod=importlib.import_module(mod_name), seed=seed, tier=tier)
    init = getattr(_JOB['mod'], 'worker_init', None)
    if init:
        try:
            init()
        except Exception:     # pylint: disable=broad-except
            _JOB['broken'] = traceback.format_exc()[-3000:]     # a pool would start new workers for ever


def spec_for(mod, seed, tier, index):
    return mod.gen(rng_of('spec', seed, mod.PROP, index), tier)


def _worker(index):
    mod = _JOB['mod']
    if 'broken' in _JOB:
        return {'index': index, 'violation': None, 'error': 'worker_init: ' + _JOB['broken']}
    try:
        spec = spec_for(mod, _JOB['seed'], _JOB['tier'], index)
    except Exception:         # pylint: disable=broad-except
        return {'index': index, 'violation': None, 'error': 'gen: ' + traceback.format_exc()[-2000:]}
    t = _wall()
    out = execute(mod, spec, getattr(mod, 'RUN_LIMIT', 90))
    if out['violation'] and out['violation']['kind'] == 'no-progress':
        again = execute(mod, spec, 2 * getattr(mod, 'RUN_LIMIT', 90))
        out = again
    if index % 25 == 0 and not out['violation'] and not out['error']:
        out['redo_same'] = execute(mod, spec, getattr(mod, 'RUN_LIMIT', 90))['digest'] == out['digest']
    out['index'] = index
    out['wall'] = _wall() - t
    nt = getattr(mod, 'nontrivial', None)
    out['nontrivial'] = bool(nt(spec, out)) if nt else bool(out['steps'] > 1)
    out['spec_key'] = derive(json.dumps(spec, sort_keys=True))
    if index >= 3 and not out['violation']:
        out['trace'] = []
    return out


def _worker_chunk(indices):
    outs = []
    for i in indices:
        outs.append(_worker(i))
        if outs[-1]['violation'] or outs[-1]['error']:
            break
    return outs


# ----------------------------------------------------------------------- shrinking

def drop_from_list(spec, path):
    """Specs with chunks, then single elements, of the list at path removed."""
    lst = spec
    for p in path:
        lst = lst[p]
    n = len(lst)
    size = n // 2
    while size >= 1:
        for start in range(0, n, size):
            new = copy.deepcopy(spec)
            tgt = new
            for p in path:
                tgt = tgt[p]
            del tgt[start:start + size]
            if len(tgt) < n:
                yield new
        size //= 2


def set_value(spec, path, value):
    new = copy.deepcopy(spec)
    tgt = new
    for p in path[:-1]:
        tgt = tgt[p]
    if tgt[path[-1]] == value:
        return
    tgt[path[-1]] = value
    yield new


def minimise(mod, spec, violation, budget_s=60, max_runs=300):
    """Greedy shrink; keeps a candidate only if it fails with the same kind."""
    start, runs = _wall(), 0
    best = spec
    shrink = getattr(mod, 'shrink', None)
    if not shrink:
        return best, runs
    progress = True
    while progress and _wall() - start < budget_s and runs < max_runs:
        progress = False
        for cand in shrink(best):
            if _wall() - start > budget_s or runs >= max_runs:
                break
            runs += 1
            out = execute(mod, cand, 30)
            if out['violation'] and out['violation']['kind'] == violation['kind'] and not out['error']:
                best, progress = cand, True
                break
    return best, runs


# ----------------------------------------------------------------------- the search

def known_findings(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    with open(path) as f:
        data = json.load(f)
    return [k for k in data['known'] if k['property'] == prop]


def search(mod, tier, seed, runs, jobs, stop_at):
    """All runs of the batch, in index order. Returns (summaries, first violation, errors, known hits)."""
    known = known_findings(mod.PROP)
    sums, first, errors, hits = [], None, [], Counter()
    ctxm = multiprocessing.get_context('fork')
    pool = ctxm.Pool(jobs, _worker_init, (mod.__name__, seed, tier))
    timed_out = False
    try:
        size = max(1, min(16, runs // (jobs * 6) or 1))
        chunks = [list(range(i, min(runs, i + size))) for i in range(0, runs, size)]
        it = pool.imap(_worker_chunk, chunks)
        while first is None and len(errors) < 5:
            try:
                outs = it.next(timeout=max(1, stop_at - _wall()))
            except multiprocessing.TimeoutError:
                timed_out = True
                break
            except StopIteration:
                break
            for out in outs:
                sums.append(out)
                if out['error']:
                    errors.append(out)
                if out['violation']:
                    sig = out['violation']['sig']
                    if any(k['sig'] == sig for k in known):
                        hits[sig] += 1
                    elif first is None:
                        first = out
    finally:
        pool.terminate()
        pool.join()
    return sums, first, errors, hits, timed_out, known


def main(argv=None):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 8))
    ap.add_argument('--replay')
    ap.add_argument('--digests', action='store_true', help='print one event-log digest per run (determinism proof)')
    ap.add_argument('--one', type=int, help='run this index only, printing its trace')
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    mod = importlib.import_module('props.' + a.prop.lower())
    if a.replay:
        return replay(mod, a.replay)
    if a.one is not None:
        getattr(mod, 'worker_init', lambda: None)()
        spec = spec_for(mod, a.seed, tier, a.one)
        out = execute(mod, spec)
        print(json.dumps(spec)[:6000])
        print('\n'.join(out['trace'][:200]))
        print(out['violation'], out['error'], out['faults'], out['probes'], 'sim_time', out['sim_time'])
        return 0
    start = _wall()
    runs = a.runs or mod.RUNS[tier]
    limit = 600 if tier == 'quick' else 5 * 3600
    prepare = getattr(mod, 'prepare', None)
    if prepare:
        prepare(tier)
    sums, first, errors, hits, timed_out, known = search(mod, tier, a.seed, runs, a.jobs, start + limit)
    if a.digests:
        for s in sums:
            print(s['index'], s.get('digest'), s['violation'] and s['violation']['kind'])
    status = 0
    vio = 0
    if first:
        vio = 1
        status = 1
        path = report(mod, a.seed, tier, first)
        print('VIOLATION property=%s replay=%s' % (mod.PROP, path))
    elif errors:
        for e in errors[:3]:
            print('HARNESS-ERROR run=%d %s' % (e['index'], e['error']), file=sys.stderr)
        status = 2
    elif timed_out:
        # a slow machine: the verdict stands for the runs made, which the evidence counts
        print('batch ended by its time limit of %d s: %d of %d runs' % (limit, len(sums), runs), file=sys.stderr)
        status = 0 if len(sums) * 10 >= runs else 2
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (mod.PROP, k['what']))
    evidence(mod, tier, a.seed, sums, vio, hits, _wall() - start, a.jobs)
    print('%s %s: %d runs, %d violation(s), %.1f s' % (mod.PROP, tier, len(sums), vio, _wall() - start))
    return status


def report(mod, seed, tier, out):
    getattr(mod, 'worker_init', lambda: None)()
    spec = spec_for(mod, seed, tier, out['index'])
    small, tried = minimise(mod, spec, out['violation'])
    fin = execute(mod, small)
    if not fin['violation']:
        small, fin = spec, execute(mod, spec)
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    path = os.path.join(VERIF, 'replays', '%s-s%d-r%d.json' % (mod.PROP, seed, out['index']))
    doc = {'property': mod.PROP, 'seed': seed, 'tier': tier, 'run': out['index'],
           'violation': fin['violation'] or out['violation'], 'digest': fin['digest'],
           'minimiser_runs': tried, 'schedule': fin['schedule'], 'spec': small, 'original_spec': spec,
           'trace': fin['trace']}
    with open(path, 'w') as f:
        json.dump(doc, f, indent=1)
    v = doc['violation']
    print('violation kind=%s\n%s' % (v['kind'], v['message']))
    try:
        r = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), mod.PROP, '--replay', path],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=180, check=False)
        print('replay in a fresh process: %s' % ('reproduced exactly' if r.returncode == 1 else
                                                 'NOT reproduced (rc %d)' % r.returncode))
    except subprocess.TimeoutExpired:
        print('replay in a fresh process: timed out')
    return path


def replay(mod, path):
    with open(path) as f:
        doc = json.load(f)
    getattr(mod, 'worker_init', lambda: None)()
    out = execute(mod, doc['spec'])
    print('\n'.join(out['trace'][-40:]))
    if out['error']:
        print('HARNESS-ERROR ' + out['error'], file=sys.stderr)
        return 2
    if not out['violation']:
        print('replay: no violation')
        return 0
    same = out['digest'] == doc['digest']
    print('replay: kind=%s %s\n%s' % (out['violation']['kind'], 'event log identical' if same else
                                      'event log DIFFERS', out['violation']['message']))
    print('VIOLATION property=%s replay=%s' % (mod.PROP, path))
    return 1 if same else 3


def evidence(mod, tier, seed, sums, vio, hits, wall, jobs):
    faults, probes, states, specs = Counter(), Counter(), set(), set()
    nontrivial = set()
    simt = steps = 0
    redo = [s['redo_same'] for s in sums if 'redo_same' in s]
    for s in sums:
        faults.update(s.get('faults', {}))
        probes.update(s.get('probes', {}))
        states |= s.get('states', set())
        specs.add(s.get('spec_key'))
        if s.get('nontrivial'):
            nontrivial.add(s.get('spec_key'))
        simt += s.get('sim_time', 0)
        steps += s.get('steps', 0)
    samples = []
    for s in sums[:2]:
        samples.append({'run': s['index'], 'spec': json.loads(json.dumps(spec_for(mod, seed, tier, s['index']))[:100000]),
                        'trace_head': s.get('trace', [])[:12]})
    for s in samples:
        if len(json.dumps(s['spec'])) > 6000:
            s['spec'] = json.dumps(s['spec'])[:6000] + '...'
    doc = {
        'property': mod.PROP, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': len(sums), 'distinct_nontrivial': len(nontrivial), 'rule': mod.RULE,
            'samples': samples, 'exhaustive': False,
            'runs_per_hour': round(len(sums) / max(wall, 1e-9) * 3600),
            'distinct_seeds': len(specs),
            'simulated_seconds': round(simt, 3),
            'events_recorded': steps,
            'faults_injected': dict(faults),
            'probes_hit': dict(probes),
            'distinct_states': len(states),
            'distinct_states_measure': getattr(mod, 'STATE_MEASURE', 'distinct values of the abstract state noted by the run'),
            'components': mod.COMPONENTS,
            'determinism_rechecks': len(redo), 'determinism_mismatches': sum(1 for r in redo if not r),
            'known_finding_hits': dict(hits), 'workers': jobs,
        },
        'assumptions': list(mod.ASSUMPTIONS), 'wall_s': round(wall, 2), 'violations': vio,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', mod.PROP + '.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(doc, f, indent=1, sort_keys=True)
    os.replace(tmp, os.path.join(VERIF, 'evidence', mod.PROP + '.json'))


@contextlib.contextmanager
def quiet():
    """Swallow prints of the code under test."""
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield

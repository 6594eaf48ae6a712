"""M02: filtering many experiments in parallel equals filtering each one alone."""
import copy
import os
import random

import numpy as np

from sim import core
from sim.device import assignment, experiment, result_of, scramble_globals, shots_of
from sim.pool import simulated

PROP = 'M02'
RUNS = {'quick': 16000, 'thorough': 150000}
RULE = ('A run draws a joint or per-subsystem filter, a job result of 1-9 experiments (repeated names, missing outcomes, extra data), the number of '
        'pool workers, the order in which they take tasks, the state of every generator, and worker or task failures; non-trivial when two or more '
        'experiments went through the pool.')
STATE_MEASURE = 'distinct (number of experiments, workers, faults fired, method, filter kind)'
COMPONENTS = {'real': ['MeasurementFilter.apply, TensoredFilter.apply', 'qiskit.tools.parallel.parallel_map', 'qiskit Result'],
              'stub': ['process pool (pickled arguments and results, forked generator state)', 'job service']}
ASSUMPTIONS = ['A worker failure reaches the caller as an exception of the pool, as in concurrent.futures.',
               'Least-squares results are compared within 1 % of the shots (random starting points).']


def gen(rng, tier):
    kind = rng.choice(['complete', 'tensored'])
    n = rng.choice([1, 1, 2, 2, 3])
    sizes = [n]
    if kind == 'tensored':
        sizes, rest = [], n
        while rest:
            k = rng.randint(1, rest)
            sizes.append(k)
            rest -= k
    method = 'least_squares' if rng.random() < (0.4 if n < 3 else 0.05) else 'pseudo_inverse'
    ne = rng.choice([1, 2, 2, 3, 4, 6, 9] if rng.random() < 0.95 else [12, 21]) if method == 'pseudo_inverse' else rng.choice([1, 2, 3])
    faults = []
    if rng.random() < 0.35:
        faults.append({'task': rng.randrange(ne), 'kind': rng.choice(['worker_dies', 'task_fails', 'result_lost'])})
    return {'kind': kind, 'sizes': sizes, 'method': method, 'exps': ne, 'data': rng.randrange(1 << 30), 'pool': rng.randrange(1 << 30),
            'workers': rng.choice([1, 2, 3, 8]), 'faults': faults, 'names': rng.choice(['distinct', 'same', 'mixed']),
            'nested': rng.random() < 0.1, 'bad': rng.random() < 0.08, 'extra': rng.random() < 0.4}


def shrink(spec):
    for k in (1, 2, 3):
        if k < spec['exps']:
            yield from core.set_value(spec, ['exps'], k)
    yield from core.set_value(spec, ['faults'], [])
    yield from core.set_value(spec, ['workers'], 1)
    for k in ('nested', 'bad', 'extra'):
        yield from core.set_value(spec, [k], False)


def nontrivial(spec, out):
    return spec['exps'] > 1 and not spec['nested']


def run(spec, ctx):
    from qiskit.ignis.mitigation.measurement import MeasurementFilter, TensoredFilter
    rng = random.Random(spec['data'])
    n = sum(spec['sizes'])
    labels = [[format(i, '0%db' % k) for i in range(2 ** k)] for k in spec['sizes']]
    mats = [assignment(rng, k, 0.2, joint=True) for k in spec['sizes']]
    if spec['kind'] == 'complete':
        filt = MeasurementFilter(mats[0].copy(), list(labels[0]))
    else:
        filt = TensoredFilter([m.copy() for m in mats], [list(l) for l in labels])
    exps = []
    for e in range(spec['exps']):
        probs = {i: rng.random() + 1e-3 for i in range(2 ** n) if rng.random() < 0.8}
        probs = probs or {0: 1.0}
        counts = shots_of(probs, rng.choice([100, 1000, 5000]))
        name = {'distinct': 'c%d' % e, 'same': 'c', 'mixed': 'c%d' % (e // 2)}[spec['names']]
        x = experiment(name, counts, [['c', n]], memory=['0x%x' % k for k in counts] if spec['extra'] else None, metadata={'k': e} if spec['extra'] else None)
        exps.append(x)
    bad = None
    if spec['bad'] and spec['kind'] == 'complete':
        bad = rng.randrange(spec['exps'])
        exps[bad]['cregs'], exps[bad]['slots'] = [['c', n + 1]], n + 1         # keys the filter does not know
    result = result_of(exps)
    before = result.to_dict()
    alone = []
    for e in range(spec['exps']):
        if e == bad:
            alone.append(None)
            continue
        scramble_globals(rng)
        alone.append(ctx.sut('filtering experiment %d alone' % e, filt.apply, copy.deepcopy(result.get_counts(e)), method=spec['method']))
    scramble_globals(rng)
    faulty = bool(spec['faults']) and spec['exps'] > 1 and not spec['nested']
    with simulated(ctx, spec['pool'], spec['workers'], spec['faults']):
        if spec['nested']:
            os.environ['QISKIT_IN_PARALLEL'] = 'TRUE'
        if faulty or bad is not None:
            ctx.refuses('filtering with a failing worker or experiment', filt.apply, result, method=spec['method'])
            ctx.check(result.to_dict() == before, 'input-changed', 'a failed call changed the job result handed in')
            if bad is not None:
                return
    with simulated(ctx, spec['pool'], spec['workers'], []):
        if spec['nested']:
            os.environ['QISKIT_IN_PARALLEL'] = 'TRUE'
        new = ctx.sut('filtering the job result', filt.apply, result, method=spec['method'])
    ctx.state(spec['exps'], spec['workers'], sorted(ctx.faults), spec['method'], spec['kind'])
    ctx.check(new is not result, 'input-changed', 'the job result handed in was returned')
    ctx.check(result.to_dict() == before, 'input-changed', lambda: 'filtering changed the job result handed in')
    ctx.check(len(new.results) == spec['exps'], 'experiment-count', '%d experiments became %d' % (spec['exps'], len(new.results)))
    after = new.to_dict()
    for e in range(spec['exps']):
        a, b = copy.deepcopy(before['results'][e]), copy.deepcopy(after['results'][e])
        a['data'].pop('counts'), b['data'].pop('counts')
        ctx.check(a == b, 'other-data', lambda: 'experiment %d: %s became %s' % (e, a, b))
        got = new.get_counts(e)
        shots = sum(alone[e].values())
        tol = 1e-9 * max(1.0, shots) if spec['method'] == 'pseudo_inverse' else 0.02 * shots
        for k in set(got) | set(alone[e]):
            ctx.check(abs(got.get(k, 0) - alone[e].get(k, 0)) <= tol, 'mixed-up', lambda: 'experiment %d filtered with the others: %s, alone: %s' % (e, dict(got), alone[e]))
        if spec['method'] == 'pseudo_inverse':
            ctx.event('exp', e, sorted(got.items()))
    top = {k: v for k, v in before.items() if k not in ('results',)}
    ctx.check(top == {k: v for k, v in after.items() if k not in ('results',)}, 'other-data', 'the job data changed')

"""M03: expectation-value mitigation undoes the readout error it was calibrated on."""
import copy
import random

import numpy as np
import scipy.linalg as la

from sim import core
from sim.device import apply_readout, assignment, exp_of, result_of, scramble_globals, shots_of

PROP = 'M03'
RUNS = {'quick': 8000, 'thorough': 80000}
RULE = ('A run draws 1-3 mitigators (method, device size, readout error, calibration labels, repeated, reordered and foreign calibration circuits) and '
        'an interleaved sequence of expectation values (ordered qubits, classical bits inside a wider register, observable, true distribution); '
        'non-trivial when an expectation value was compared with the error-free one.')
STATE_MEASURE = 'distinct (method, device size, qubits asked, classical bits asked, observable kind)'
COMPONENTS = {'real': ['qiskit.ignis.mitigation.expval (circuits, fitters, mitigators, expectation_value)', 'qiskit Result'],
              'stub': ['device (exact state vectors, injected readout matrices)', 'job service']}
ASSUMPTIONS = ['Unmeasured qubits rest in 0, the state in which correlated readout errors are calibrated for a subset.',
               'Correlated errors are given to the CTMP method only on two qubits measured together, where its generators represent them exactly.',
               'Sampled values are compared within 7 stated standard deviations.',
               'Classical bits are listed with the qubit measured to each; the observable is indexed by ascending classical bit.']


def gen(rng, tier):
    mits = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        method = rng.choice(['complete', 'complete', 'tensored', 'tensored', 'CTMP'])
        n = rng.choice([1, 2, 2, 3, 3, 4] if rng.random() < 0.97 else [5]) if method != 'CTMP' else rng.choice([1, 2, 2, 3] if rng.random() < 0.97 else [4])
        kind = 'tensor' if method == 'tensored' else rng.choice(['tensor', 'joint'])
        if method == 'CTMP' and n != 2:
            kind = 'tensor'
        mits.append({'method': method, 'n': n, 'kind': kind, 'noise': rng.randrange(1 << 30), 'strength': rng.choice([0.0, 0.05, 0.2, 0.35]) if method != 'CTMP' else rng.choice([0.0, 0.1, 0.2]),
                     'labels': rng.choice(['default', 'default', 'all', 'repeat', 'shuffle']), 'foreign': rng.random() < 0.3,
                     'override': rng.random() < 0.3, 'seed': rng.randrange(1 << 20) if rng.random() < 0.9 else 0})
    ops = []
    for _ in range(rng.randint(1, 5)):
        m = rng.randrange(len(mits))
        n = mits[m]['n']
        # a subset of correlated qubits has no CTMP generators of its own
        k = n if mits[m]['method'] == 'CTMP' and mits[m]['kind'] == 'joint' else rng.randint(1, n)
        op = {'mit': m, 'what': rng.choice(['expval'] * 4 + ['matrix', 'figures']), 'qubits': rng.sample(range(n), k), 'data': rng.randrange(1 << 30),
              'diag': rng.choice(['none', 'random', 'random', 'projector']), 'default_qubits': False, 'clbits': None, 'width': k, 'via': rng.choice(['method', 'function'])}
        r = rng.random()
        if r < 0.25:
            op['qubits'], op['default_qubits'] = list(range(k)), True
        elif r < 0.6:
            op['width'] = k + rng.randint(0, 2)
            op['clbits'] = rng.sample(range(op['width']), k)
        ops.append(op)
    return {'mits': mits, 'ops': ops, 'ctmp_shots': rng.choice([2000, 8000, 8000])}


def shrink(spec):
    yield from core.drop_from_list(spec, ['ops'])
    for m in range(len(spec['mits'])):
        yield from core.set_value(spec, ['mits', m, 'labels'], 'default')
        yield from core.set_value(spec, ['mits', m, 'foreign'], False)
        yield from core.set_value(spec, ['mits', m, 'kind'], 'tensor')
    for o in range(len(spec['ops'])):
        yield from core.set_value(spec, ['ops', o, 'diag'], 'none')
        yield from core.set_value(spec, ['ops', o, 'clbits'], None)


def nontrivial(spec, out):
    return bool(out['probes'].get('expval'))


def readout(m):
    """True assignment matrix A[measured, true] of this mitigator's device, bit q = qubit q."""
    rng = random.Random(m['noise'])
    n = m['n']
    if m['kind'] == 'joint' and m['method'] == 'CTMP':
        g = np.zeros((4, 4))
        rate = [m['strength'] * 0.4 * rng.random() for _ in range(8)]
        for b, a, r in [(1, 0, 0), (3, 2, 0), (0, 1, 1), (2, 3, 1), (2, 0, 2), (3, 1, 2), (0, 2, 3), (1, 3, 3), (3, 0, 4), (0, 3, 5), (1, 2, 6), (2, 1, 7)]:
            g[b, a] += rate[r]
            g[a, a] -= rate[r]
        return la.expm(g)
    return assignment(rng, n, m['strength'], joint=m['kind'] == 'joint')


def calibrate(m, amat, ctx, mit_mod):
    rng = random.Random(m['noise'] + 1)
    n = m['n']
    labels = None
    if m['labels'] != 'default':
        base = {'complete': [format(i, '0%db' % n) for i in range(2 ** n)], 'tensored': ['0' * n, '1' * n]}.get(m['method'])
        if base is None or m['labels'] == 'all':
            base = [format(i, '0%db' % n) for i in range(2 ** n)]
        labels = list(base)
        if m['labels'] == 'repeat':
            labels += [rng.choice(base) for _ in range(rng.randint(1, 3))]
        rng.shuffle(labels)
    build = 'tensored' if m['override'] else m['method']
    if m['override'] and labels is None:
        labels = [format(i, '0%db' % n) for i in range(2 ** n)]
    circs, meta = mit_mod.expval_meas_mitigator_circuits(n, build, copy.copy(labels))
    exps = []
    for c, d in zip(circs, meta):
        from sim.device import Device
        p = Device().probs(c)
        exps.append((exp_of(c, shots_of(apply_readout(p, [(amat, list(range(n)))], n), rng.choice([10 ** 7, 3 * 10 ** 7]))), d))
    if m['foreign']:
        for _ in range(rng.randint(1, 2)):
            exps.append((exp_of(circs[0], {rng.randrange(2 ** n): 77}, name='other'), {'experiment': 'other'}))
        ctx.fault('foreign_experiment')
    if m['labels'] in ('shuffle', 'repeat'):
        rng.shuffle(exps)
        ctx.fault('reordered_calibration')
    res = result_of([e for e, _ in exps])
    meta = [d for _, d in exps]
    keep = copy.deepcopy(meta), res.to_dict()
    mit = mit_mod.ExpvalMeasMitigatorFitter(res, meta).fit(method=m['method'] if m['override'] else None)
    ctx.check((meta, res.to_dict()) == keep, 'input-changed', 'calibration changed its input')
    if m['method'] == 'CTMP':
        mit.seed(m['seed'])
    return mit


def expval_case(op, m, amat, spec, ctx):
    """The distribution of the measured qubits, and counts in the classical register as the job returns them."""
    rng = random.Random(op['data'])
    n, qubits = m['n'], op['qubits']
    k = len(qubits)
    if rng.random() < 0.3:
        w = [0.0] * 2 ** k
        w[rng.randrange(2 ** k)] = 1.0
    else:
        w = [rng.random() for _ in range(2 ** k)]
    true = np.array(w) / sum(w)                       # index bit i = qubits[i]
    full = {}
    for x, p in enumerate(true):
        if p:
            full[sum(((x >> i) & 1) << q for i, q in enumerate(qubits))] = p
    noisy = apply_readout(full, [(amat, list(range(n)))], n)
    pos = op['clbits'] or list(range(k))
    others = [b for b in range(op['width']) if b not in pos]
    counts = {}
    for y, p in noisy.items():
        c = sum(((y >> q) & 1) << pos[i] for i, q in enumerate(qubits))
        junk = {}
        for b in others:
            junk[b] = 0.3 if (y >> qubits[0]) & 1 else 0.8            # other bits correlate with the measured ones
        for z in range(2 ** len(others)):
            w = p
            cc = c
            for i, b in enumerate(others):
                bit = (z >> i) & 1
                w *= junk[b] if bit else 1 - junk[b]
                cc |= bit << b
            counts[cc] = counts.get(cc, 0.0) + w
    shots = spec['ctmp_shots'] if m['method'] == 'CTMP' else 10 ** 8
    counts = {format(c, '0%db' % op['width']): v for c, v in shots_of(counts, shots).items()}
    diag = {'none': None, 'random': [rng.uniform(-1, 1) for _ in range(2 ** k)],
            'projector': [1.0 if i == op['data'] % 2 ** k else 0.0 for i in range(2 ** k)]}[op['diag']]
    want = observable(op, diag) @ true
    return counts, diag, float(want), shots, true


def observable(op, diag):
    """Value of the observable for each outcome x, bit i of x being that of qubits[i]."""
    k = len(op['qubits'])
    pos = op['clbits'] or list(range(k))
    d = np.array(diag) if diag is not None else np.array([(-1.0) ** bin(i).count('1') for i in range(2 ** k)])
    order = sorted(range(k), key=lambda i: pos[i])        # ascending classical bit
    return np.array([d[sum(((x >> q) & 1) << r for r, q in enumerate(order))] for x in range(2 ** k)])


def deviation(coeffs, probs, shots):
    return float(np.sqrt(max(0.0, (coeffs ** 2) @ probs - (coeffs @ probs) ** 2) / shots))


def strength(amat, n, qubits):
    """Largest total rate out of one outcome."""
    return float(max(0.0, np.max(-np.real(np.diag(la.logm(sub_matrix(amat, n, qubits)))))))


def run_op(op, m, amat, mit, spec, ctx, mit_mod, judge=True):
    qubits = op['qubits']
    n = m['n']
    if op['what'] == 'expval':
        counts, diag, want, shots, true = expval_case(op, m, amat, spec, ctx)
        kw = dict(diagonal=copy.copy(diag), qubits=None if op['default_qubits'] else list(qubits), clbits=copy.copy(op['clbits']))
        given = copy.deepcopy((counts, kw))
        if op['via'] == 'method':
            val, dev = mit.expectation_value(counts, **kw)
        else:
            val, dev = mit_mod.expectation_value(counts, meas_mitigator=mit, **kw)
        val, dev = float(val), float(dev)
        ctx.event('expval', op['mit'], qubits, op['clbits'], val, dev)
        if not judge:
            return val, dev
        ctx.check((counts, kw) == given, 'input-changed', 'expectation_value changed its arguments')
        ctx.probe('expval')
        ctx.state(m['method'], n, qubits, op['clbits'], op['diag'])
        obs = observable(op, diag)
        read = sub_matrix(amat, n, qubits) @ true
        if m['method'] == 'CTMP':
            tol = 7 * dev + 1e-3
            ref = np.exp(2 * strength(amat, n, qubits)) / np.sqrt(shots)
        else:
            tol = 3e-4
            ref = deviation(np.linalg.inv(sub_matrix(amat, n, qubits)).T @ obs, read, shots)
        ctx.check(abs(dev - ref) <= 2e-3 * ref + 1e-3 / np.sqrt(shots), 'bad-uncertainty', lambda: '%s: stated deviation %g of %d shots instead of %g' % (m['method'], dev, shots, ref))
        if op['data'] % 3 == 0:
            raw = mit_mod.expectation_value(counts, **kw)
            ctx.probe('unmitigated')
            ctx.check(abs(raw[0] - obs @ read) <= 2e-4 + 2 ** op['width'] / shots and abs(raw[1] - deviation(obs, read, shots)) <= (2e-3 + 2 ** op['width'] / np.sqrt(shots) / 4) / np.sqrt(shots), 'wrong-expectation-value',
                      lambda: 'without mitigator: bits %s of %s, observable %s: %s instead of %.6f +- %.6f' % (op['clbits'], counts, diag, raw, obs @ read, deviation(obs, read, shots)))
        ctx.check(abs(val - want) <= tol, 'wrong-expectation-value', lambda: '%s mitigator of %d qubits: qubits %s measured to bits %s, observable %s: %.6f +- %.6f instead of %.6f' % (
            m['method'], n, None if op['default_qubits'] else qubits, op['clbits'], diag, val, dev, want))
        return val, dev
    sub = sorted(qubits)
    true = sub_matrix(amat, n, sub)
    if op['what'] == 'matrix':
        whole = len(sub) == n and op['default_qubits']
        args = () if whole else (list(qubits),)
        a, inv = np.asarray(mit.assignment_matrix(*args)), np.asarray(mit.mitigation_matrix(*args))
        if not judge:
            return None
        ctx.check(a.shape == inv.shape == true.shape, 'wrong-matrix', 'shapes %s %s for qubits %s' % (a.shape, inv.shape, qubits))
        ctx.check(np.abs(a @ inv - np.eye(len(a))).max() < 1e-6, 'not-inverse', lambda: 'qubits %s: assignment and mitigation matrix are not inverse:\n%s\n%s' % (qubits, a, inv))
        if qubits == sub:
            ctx.check(np.abs(a - true).max() < 1e-4, 'wrong-matrix', lambda: '%s: assignment matrix of qubits %s is\n%s\ninstead of\n%s' % (m['method'], qubits, a, true))
        ctx.probe('matrix')
    else:
        if m['method'] == 'CTMP' and len(sub) < n:
            return None
        args = () if m['method'] == 'CTMP' else (list(qubits),)
        fid = mit.assignment_fidelity(*args)
        if judge:
            ctx.check(abs(fid - np.mean(np.diag(true))) < 1e-4, 'wrong-fidelity', lambda: '%s: fidelity of qubits %s is %g instead of %g' % (m['method'], qubits, fid, np.mean(np.diag(true))))
        shots, delta = 1 + op['data'] % 5000, 0.02 + (op['data'] % 97) / 300
        gam, need, over = mit.stddev_upper_bound(shots, *args), mit.required_shots(delta, *args), mit.mitigation_overhead(*args)
        want = np.abs(np.linalg.inv(true)).sum(axis=0).max() if m['method'] != 'CTMP' else np.exp(2 * strength(amat, n, sub))
        if judge:
            ctx.check(abs(gam - want / np.sqrt(shots)) < 1e-3 * want / np.sqrt(shots), 'wrong-overhead', lambda: '%s: bound for %d shots on qubits %s is %g instead of %g' % (m['method'], shots, qubits, gam, want / np.sqrt(shots)))
            for name, got, ref in (('required_shots', need, 4 * want ** 2 / delta ** 2), ('mitigation_overhead', over, want ** 2)):
                ctx.check(np.ceil(ref * (1 - 2e-3)) <= got <= np.ceil(ref * (1 + 2e-3)), 'wrong-overhead', lambda: '%s: %s of qubits %s is %s instead of %g' % (m['method'], name, qubits, got, ref))
        if judge:
            ctx.probe('figures')
    return None


def sub_matrix(amat, n, sub):
    """Readout matrix of ascending qubits, the others resting in 0."""
    k = len(sub)
    out = np.zeros((2 ** k, 2 ** k))
    for x in range(2 ** k):
        col = amat[:, sum(((x >> i) & 1) << q for i, q in enumerate(sub))]
        for y, p in enumerate(col):
            out[sum(((y >> q) & 1) << i for i, q in enumerate(sub)), x] += p
    return out


def run(spec, ctx):
    import qiskit.ignis.mitigation as mit_mod
    rng = core.rng_of('m03', core.json.dumps(spec, sort_keys=True))
    mats = [readout(m) for m in spec['mits']]
    mits = []
    for m, a in zip(spec['mits'], mats):
        scramble_globals(rng)
        mits.append(calibrate(m, a, ctx, mit_mod))
    first = {}
    for i, op in enumerate(spec['ops']):
        if op['mit'] >= len(mits):
            continue
        scramble_globals(rng)
        first[i] = run_op(op, spec['mits'][op['mit']], mats[op['mit']], mits[op['mit']], spec, ctx, mit_mod)
    # a seeded sampling mitigator alone, freshly calibrated, repeats what it gave among the others
    for k, m in enumerate(spec['mits']):
        mine = [(i, op) for i, op in enumerate(spec['ops']) if op['mit'] == k and op['what'] == 'expval']
        if m['method'] != 'CTMP' or not mine:
            continue
        again = calibrate(m, mats[k], ctx, mit_mod)
        for i, op in mine[:2]:
            scramble_globals(rng)
            got = run_op(op, m, mats[k], again, spec, ctx, mit_mod, judge=False)
            ctx.probe('repeated')
            ctx.check(close(got, first[i]), 'not-repeated', lambda: 'seed %d gave %s, then %s' % (m['seed'], first[i], got))


def close(a, b):
    """Equal up to floating-point rounding (which depends on memory alignment)."""
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    return a == b or bool(np.allclose(a, b, rtol=1e-8, atol=1e-10))

"""M01: readout mitigation undoes any readout error of the device."""
import random

import numpy as np

from sim import core
from sim.device import Device, apply_readout, assignment, exp_of, experiment, result_of, delivery, scramble_globals, shots_of

PROP = 'M01'
RUNS = {'quick': 16000, 'thorough': 200000}
RULE = ('A run draws a register, the calibrated qubits in any order (one joint group, or several groups), a readout fault of the device (any '
        'column-stochastic matrix per group), 1-4 calibration campaigns with drifting faults and shot numbers, and a delivery history (batches, order, '
        'repetition, foreign circuits in the job, late rebuild), then filters counts taken through the calibrated fault; non-trivial when the fault '
        'is not the identity.')
STATE_MEASURE = 'distinct (layout of qubit groups, number of campaigns, batches) combinations'
COMPONENTS = {'real': ['complete_meas_cal, tensored_meas_cal', 'CompleteMeasFitter, TensoredMeasFitter', 'MeasurementFilter, TensoredFilter', 'qiskit-terra circuits and results'],
              'stub': ['quantum device with readout faults', 'job service', 'process-wide random generators']}
ASSUMPTIONS = ['Least-squares filtering is compared within 1 % of the shots on well-conditioned matrices.']
RUN_LIMIT = 120


def gen(rng, tier):
    kind = rng.choice(['complete', 'tensored'])
    n = rng.choice([1, 2, 2, 3, 3] if rng.random() < 0.96 else [4]) if kind == 'complete' else rng.choice([1, 2, 2, 3, 3, 4] if rng.random() < 0.96 else [5, 6])
    reg = n + rng.choice([0, 0, 1, 2])
    qubits = rng.sample(range(reg), n)
    if rng.random() < 0.3:
        qubits.sort()
    if kind == 'complete':
        groups = [qubits]
    else:
        groups, rest = [], list(qubits)
        while rest:
            k = min(len(rest), rng.choice([1, 1, 2, 2, 3]))
            groups.append(rest[:k])
            rest = rest[k:]
    return {'kind': kind, 'reg': reg, 'groups': groups, 'campaigns': rng.choice([1, 1, 1, 2, 3] if rng.random() < 0.96 else [5, 7]), 'fault': rng.randrange(1 << 30),
            'strength': rng.choice([0.0, 0.05, 0.2, 0.35]), 'plan': rng.randrange(1 << 30), 'shots': [rng.choice([100, 1000, 1024, 8192]) for _ in range(7)],
            'label': rng.choice(['', '', 'A', 'mcal', 'run2_', 'q[0].']) if rng.random() < 0.9 else '', 'foreign': rng.choice([0, 0, 1, 2]),
            'give_qr': rng.random() < 0.5, 'extra_clbits': rng.random() < 0.0,
            'ctor': rng.choice(['all', 'first', 'none']), 'as_list': rng.random() < 0.5, 'lazy': rng.random() < 0.2,
            'one_job': rng.random() < 0.3, 'data': rng.randrange(1 << 30), 'lsq': rng.random() < (0.5 if n < 3 else 0.12), 'forms': rng.random() < 0.5,
            'perm_labels': rng.random() < 0.2, 'no_qubits': rng.random() < 0.25, 'by_hand': rng.random() < 0.3, 'jitter': rng.choice([0.0, 0.0, 0.02, 0.1]),
            'again': [rng.choice(['object', 'copy']) for _ in range(rng.choice([0, 0, 0, 1, 1, 2]))]}


def shrink(spec):
    yield from core.set_value(spec, ['campaigns'], 1)
    yield from core.set_value(spec, ['foreign'], 0)
    yield from core.set_value(spec, ['ctor'], 'all')
    for k in ('as_list', 'lazy', 'one_job', 'lsq', 'forms', 'perm_labels', 'no_qubits', 'by_hand'):
        yield from core.set_value(spec, [k], False)
    yield from core.set_value(spec, ['label'], '')
    yield from core.drop_from_list(spec, ['again'])
    if len(spec['groups']) > 1:
        yield from core.drop_from_list(spec, ['groups'])


def nontrivial(spec, out):
    return spec['strength'] > 0


def run(spec, ctx):
    from qiskit import ClassicalRegister, QuantumCircuit, QuantumRegister
    from qiskit.ignis.mitigation.measurement import (complete_meas_cal, tensored_meas_cal, CompleteMeasFitter, TensoredMeasFitter)
    groups = spec['groups']
    qubits = [q for g in groups for q in g]
    n = len(qubits)
    label = spec['label']
    amb = random.Random(spec['plan'])
    # registers by number or as objects, the qubits by list or, where all are meant, not at all
    form = random.Random(spec['plan'] + 1)
    kw = {'qr': form.choice([spec['reg'], QuantumRegister(spec['reg'], 'dev')])} if spec['give_qr'] else {}
    if form.random() < 0.3:
        kw['cr'] = form.choice([n, ClassicalRegister(n, 'out')])
    whole = 'qr' in kw and groups == [list(range(spec['reg']))] and form.random() < 0.7
    if spec['kind'] == 'complete':
        circs, labels = ctx.sut('complete_meas_cal', complete_meas_cal, None if whole else list(qubits), circlabel=label, **kw)
        sub_labels = [labels]
        ctx.check(sorted(labels) == [format(i, '0%db' % n) for i in range(2 ** n)], 'labels', 'state labels %s' % labels)
        if spec['perm_labels']:
            labels = list(labels)
            amb.shuffle(labels)
            sub_labels = [labels]
    else:
        circs, pattern = ctx.sut('tensored_meas_cal', tensored_meas_cal, None if whole else [list(g) for g in groups], circlabel=label, **kw)
        ctx.check([list(g) for g in pattern] == groups, 'labels', 'pattern %s returned for %s' % (pattern, groups))
        labels = None
        sub_labels = [[format(i, '0%db' % len(g)) for i in range(2 ** len(g))] for g in groups]
        if spec['perm_labels']:
            for s in sub_labels:
                amb.shuffle(s)
    dev = Device()
    # calibration campaigns; the device's fault drifts between them
    exps, contrib = [], []
    for c in range(spec['campaigns']):
        frng = random.Random(spec['fault'] + c)
        mats = {}
        for gi, g in enumerate(groups):
            mats[gi] = assignment(frng, len(g), spec['strength'], joint=frng.random() < 0.7)
        for circ in circs:
            ideal = dev.probs(circ)
            ctx.check(len(ideal) == 1, 'not-a-basis-state', 'calibration circuit %s prepares a superposition' % circ.name)
            bit_of = {}
            for inst, qa, ca in circ.data:
                if inst.name == 'measure':
                    bit_of[circ.qubits.index(qa[0])] = circ.clbits.index(ca[0])
            ctx.check(set(bit_of) == set(qubits), 'measured-qubits', 'calibration of %s measures %s' % (qubits, sorted(bit_of)))
            probs = apply_readout(ideal, [(mats[gi], [bit_of[q] for q in g]) for gi, g in enumerate(groups)], None)
            counts = shots_of(probs, spec['shots'][c])
            exps.append(exp_of(circ, counts))
            if spec['strength']:
                ctx.faults['readout_error'] += 1
            # reference: what was prepared and read, group by group, in the documented bit order (first qubit rightmost)
            true = next(iter(ideal))
            contrib.append([])
            for gi, g in enumerate(groups):
                j = sum(((true >> bit_of[q]) & 1) << k for k, q in enumerate(g))
                for outcome, num in counts.items():
                    i = sum(((outcome >> bit_of[q]) & 1) << k for k, q in enumerate(g))
                    contrib[-1].append((gi, i, j, num))
    for f in range(spec['foreign']):
        exps.append(experiment('other_%d' % f, {0: 5, 1: 7}, [['c', n]]))
        contrib.append([])
    for gi in range(len(groups)):
        states = {c[2] for cs in contrib for c in cs if c[0] == gi}
        ctx.check(len(states) == 2 ** len(groups[gi]), 'not-calibrated', 'some state of group %s is never prepared' % groups[gi])
    if spec['one_job']:
        parts = [list(range(len(exps)))]
        amb.shuffle(parts[0])
    else:
        parts = delivery(amb, len(exps))
    results = [result_of([exps[i] for i in part]) for part in parts]
    for how in spec['again']:                 # the job service delivers a job a second time
        k = amb.randrange(len(results))
        results.append(results[k] if how == 'object' else result_of([exps[i] for i in parts[k]]))
        parts.append(parts[k])
        ctx.fault('repeated_delivery')

    def pool(delivered):
        pooled = [np.zeros((2 ** len(g), 2 ** len(g))) for g in groups]
        for part in delivered:
            for e in part:
                for gi, i, j, num in contrib[e]:
                    pooled[gi][i, j] += num
        with np.errstate(all='ignore'):
            return [p / p.sum(axis=0) for p in pooled]           # a state not yet seen is nan
    ref = pool(parts)
    ctx.state(groups, spec['campaigns'], len(parts))

    def build(first):
        if spec['kind'] == 'complete':
            return CompleteMeasFitter(first, labels, None if spec['no_qubits'] else list(qubits), circlabel=label)
        return TensoredMeasFitter(first, [list(g) for g in groups], sub_labels if spec['perm_labels'] else None, circlabel=label)
    if spec['ctor'] == 'all':
        first, rest = results, []
    elif spec['ctor'] == 'first':
        first, rest = results[0], results[1:]
    else:
        first, rest = None, results
    fit = ctx.sut('fitter', build, first)
    if rest:
        groups_of = [rest] if spec['as_list'] else rest
        for k, r in enumerate(groups_of):
            scramble_globals(amb)
            late = spec['lazy'] and k < len(groups_of) - 1
            ctx.sut('add_data', fit.add_data, r, not late)
            ctx.event('delivered', k)
            if not late and not spec['as_list']:
                mid = pool(parts[:len(parts) - len(rest) + k + 1])
                for gi, m in enumerate([fit.cal_matrix] if spec['kind'] == 'complete' else fit.cal_matrices):
                    order = [int(x, 2) for x in sub_labels[gi]]
                    want = mid[gi][np.ix_(order, order)]
                    seen = ~np.isnan(want[0])
                    ctx.check(np.allclose(np.asarray(m)[:, seen], want[:, seen], atol=1e-12), 'cal-matrix', lambda: 'after delivery %d the calibration matrix of qubits %s is\n%s\ndelivered shots say\n%s' % (
                        k, groups[gi], np.round(m, 4), np.round(want, 4)))
    got = [fit.cal_matrix] if spec['kind'] == 'complete' else fit.cal_matrices
    ctx.check(len(got) == len(ref), 'matrix-count', '%d calibration matrices' % len(got))
    for gi, g in enumerate(groups):
        order = [int(s, 2) for s in sub_labels[gi]]
        want = ref[gi][np.ix_(order, order)]
        ctx.check(np.allclose(got[gi], want, atol=1e-12), 'cal-matrix', lambda: 'calibration matrix of qubits %s is\n%s\ndelivered shots say\n%s' % (g, np.round(got[gi], 4), np.round(want, 4)))
        ctx.event('cal', np.round(got[gi], 9).tolist())
        fid = ctx.sut('readout_fidelity', fit.readout_fidelity, *([] if spec['kind'] == 'complete' else [gi]))
        ctx.check(abs(fid - np.trace(want) / len(want)) < 1e-9, 'fidelity', 'readout fidelity %r, trace says %r' % (fid, np.trace(want) / len(want)))
        if len(want) > 2:            # grouped labels
            names = list(sub_labels[gi])
            amb.shuffle(names)
            cut = amb.randint(1, len(names) - 1)
            parts_l = [names[:cut], names[cut:]]
            exp_f = np.mean([sum(want[sub_labels[gi].index(a), sub_labels[gi].index(b)] for a in p for b in p) / len(p) for p in parts_l])
            args = [parts_l] if spec['kind'] == 'complete' else [gi, parts_l]
            fid = ctx.sut('readout_fidelity', fit.readout_fidelity, *args)
            ctx.check(abs(fid - exp_f) < 1e-9, 'fidelity', 'grouped readout fidelity %r, expected %r' % (fid, exp_f))
    if spec['kind'] == 'complete' and n > 1:
        subset(spec, ctx, fit, ref[0], list(range(n)) if spec['no_qubits'] else qubits, amb)
    filt = fit.filter
    if spec['by_hand']:
        filt = by_hand(spec, ctx, build, filt, [ref[gi][np.ix_(o, o)] for gi, o in enumerate([int(s, 2) for s in x] for x in sub_labels)], sub_labels, amb)
    filtering(spec, ctx, filt, ref, groups, sub_labels, n)


def by_hand(spec, ctx, build, filt, mats, sub_labels, amb):
    """A filter that gets its calibration from the user, possibly after another one had been used."""
    one = spec['kind'] == 'complete'
    n = sum(len(x[0]) for x in sub_labels)
    how = amb.choice(['fitter', 'filter', 'used'])
    ctx.probe('by_hand')
    other = [np.roll(np.eye(len(m)), 1, axis=0) for m in mats]
    if how == 'fitter':
        fit = ctx.sut('fitter without results', build, None)
        ctx.refuses('a readout fidelity without a calibration', fit.readout_fidelity)
        if one:
            fit.cal_matrix = other[0]
            fit.filter.apply({'0' * n: 10}, method='pseudo_inverse')
            fit.cal_matrix = mats[0].copy()
        else:
            fit.cal_matrices = other
            fit.filter.apply({'0' * n: 10}, method='pseudo_inverse')
            fit.cal_matrices = [m.copy() for m in mats]
        return ctx.sut('filter', lambda: fit.filter)
    labels = [list(x) for x in sub_labels]
    new = ctx.sut('filter constructor', type(filt), *((mats[0].copy(), labels[0]) if one else ([m.copy() for m in mats], labels)))
    if how == 'used':
        setattr(new, 'cal_matrix' if one else 'cal_matrices', other[0] if one else other)
        new.apply({'1' * n: 10}, method='pseudo_inverse')
        setattr(new, 'cal_matrix' if one else 'cal_matrices', mats[0].copy() if one else [m.copy() for m in mats])
    return new


def subset(spec, ctx, fit, ref, qubits, amb):
    sub = amb.sample(qubits, amb.randint(1, len(qubits)))
    new = ctx.sut('subset_fitter', fit.subset_fitter, list(sub))
    m = 2 ** len(sub)
    want = np.zeros((m, m))
    pos = [qubits.index(q) for q in sub]
    cut = lambda s: sum(((s >> p) & 1) << k for k, p in enumerate(pos))      # noqa
    for i in range(len(ref)):
        for j in range(len(ref)):
            want[cut(i), cut(j)] += ref[i, j]
    want /= len(ref) / m
    order = [int(s, 2) for s in new.state_labels]
    ctx.check(np.allclose(new.cal_matrix, want[np.ix_(order, order)], atol=1e-9), 'subset-matrix',
              lambda: 'calibration of the subset %s of %s is\n%s\nexpected\n%s' % (sub, qubits, np.round(new.cal_matrix, 4), np.round(want, 4)))
    ctx.check(list(new.qubit_list) == list(sub), 'subset-qubits', 'subset %s has qubits %s' % (sub, new.qubit_list))
    ctx.probe('subset')
    bad = [q for q in range(10) if q not in qubits][:1]
    ctx.refuses('a subset with a qubit that was not calibrated', fit.subset_fitter, bad)


def full_matrix(ref, groups):
    """Readout matrix of all classical bits: group 0 is the least significant."""
    m = np.eye(1)
    for r in ref:
        m = np.kron(r, m)
    return m


def filtering(spec, ctx, filt, ref, groups, sub_labels, n):
    drng = random.Random(spec['data'])
    a = full_matrix(ref, groups)
    cond = np.linalg.cond(a)
    if cond > 50:
        ctx.probe('ill_conditioned')
        return
    for _ in range(2):
        ideal = np.array([drng.choice([0, 0, 1, 5, 50, 300]) for _ in range(2 ** n)], dtype=float)
        if ideal.sum() == 0:
            ideal[drng.randrange(2 ** n)] = 100
        shots = ideal.sum()
        noisy = a @ ideal
        counts = {format(i, '0%db' % n): v for i, v in enumerate(noisy) if abs(v) > 1e-12}
        keys = list(counts)
        drng.shuffle(keys)
        counts = {k: counts[k] for k in keys}
        keep = dict(counts)
        scramble_globals(drng)
        out = ctx.sut('filter (pseudo_inverse)', filt.apply, counts, method='pseudo_inverse')
        ctx.check(counts == keep, 'input-changed', 'filtering changed the counts handed in')
        vec = np.array([out.get(format(i, '0%db' % n), 0.0) for i in range(2 ** n)])
        ctx.check(set(out) <= {format(i, '0%db' % n) for i in range(2 ** n)}, 'labels', 'filtered counts have keys %s' % sorted(out))
        ctx.check(np.allclose(vec, ideal, atol=1e-7 * shots * cond), 'pinv', lambda: 'pseudo-inverse filtering of %s gives %s, error-free counts are %s' % (keep, vec, ideal))
        if spec['kind'] == 'complete' and spec['forms']:
            lst = [noisy[int(s, 2)] for s in sub_labels[0]]
            want = [ideal[int(s, 2)] for s in sub_labels[0]]
            got = ctx.sut('filter (list)', filt.apply, list(lst), method='pseudo_inverse')
            ctx.check(np.allclose(got, want, atol=1e-7 * shots * cond), 'pinv-list', lambda: 'filtering the list gives %s, expected %s' % (got, want))
            got = ctx.sut('filter (list of lists)', filt.apply, list(lst) * 3, method='pseudo_inverse')
            ctx.check(np.allclose(got, want * 3, atol=1e-7 * shots * cond), 'pinv-list3', lambda: 'filtering three data sets gives %s, expected %s' % (got, want * 3))
            if len(lst) > 1:
                ctx.refuses('a data list of the wrong length', filt.apply, list(lst) + [1.0], method='pseudo_inverse')
        if spec['lsq'] and cond < 6:
            scramble_globals(drng)
            out = ctx.sut('filter (least_squares)', filt.apply, dict(counts), method='least_squares')
            vec = np.array([out.get(format(i, '0%db' % n), 0.0) for i in range(2 ** n)])
            ctx.check(abs(vec.sum() - shots) < 1e-3 * shots, 'lsq-total', 'least squares changes the total from %r to %r' % (shots, vec.sum()))
            ctx.check(vec.min() > -1e-6 * shots, 'lsq-negative', 'least squares gives a negative count %r' % vec.min())
            ctx.check(np.abs(vec - ideal).max() < 0.01 * shots, 'lsq', lambda: 'least-squares filtering of %s gives %s, error-free counts are %s' % (keep, vec, ideal))
            ctx.probe('least_squares')
            if spec['jitter']:       # shots do not follow the probabilities exactly
                rough = {k: max(0, round(v * (1 + spec['jitter'] * drng.uniform(-1, 1)))) for k, v in counts.items()}
                total = sum(rough.values())
                out = ctx.sut('filter (least_squares)', filt.apply, dict(rough), method='least_squares')
                vec = np.array([out.get(format(i, '0%db' % n), 0.0) for i in range(2 ** n)])
                ctx.check(abs(vec.sum() - total) < 1e-3 * total, 'lsq-total', 'least squares changes the total from %r to %r' % (total, vec.sum()))
                ctx.check(vec.min() > -1e-6 * total, 'lsq-negative', 'least squares gives a negative count %r' % vec.min())
                ctx.check(np.abs(vec - ideal).max() < 0.01 * shots + 3 * cond * sum(abs(rough[k] - counts[k]) for k in rough), 'lsq', lambda: 'least-squares filtering of %s gives %s, error-free counts are %s' % (rough, vec, ideal))
                ctx.fault('shot_noise')
        ctx.event('filtered', np.round(ideal, 3).tolist())

"""S01: state tomography reconstructs the device state however data arrive."""
import ast
import random

import numpy as np

from sim import core
from sim import device as dv
from sim import tomoworld as tw

PROP = 'S01'
RUNS = {'quick': 8000, 'thorough': 120000}
RULE = ('A run draws a circuit (1-3 qubits in 1-3 registers, extra classical registers, unmeasured qubits measured beforehand), injects decoherence after its marked gates, executes the tomography circuits '
        'of an ordered qubit subset on a density-matrix device, exactly or with finite shots, and delivers the counts to two or three fitters in different ways (one job, lists of jobs, many calls, by name, '
        'repeated executions, deliveries lacking a circuit); non-trivial when there is more than one job or a fault was injected.')
STATE_MEASURE = 'distinct (registers, classical registers, measured qubits, noise kind, delivery kind and repetitions)'
COMPONENTS = {'real': ['state_tomography_circuits', 'StateTomographyFitter (least squares)', 'marginal_counts, combine_counts', 'PauliBasis'],
              'stub': ['quantum device (density matrices) with decoherence after marked gates', 'job service']}
ASSUMPTIONS = ['The convex-optimisation fitter runs with the installed first-order solver (SCS) and is judged to its accuracy.']


def gen(rng, tier):
    lay = tw.gen_layout(rng)
    n = lay['n']
    k = rng.choice([1, 1, 2, 2, 2, 3]) if tier != 'quick' or rng.random() < 0.15 else rng.choice([1, 2])
    k = min(n, k)
    meas = rng.sample(range(n), k)
    if rng.random() < 0.4:
        meas.sort()
    rest = [q for q in range(n) if q not in meas]
    slots = sum(lay['cregs'])
    mr = [[q, c] for q, c in zip(rest, rng.sample(range(slots), min(slots, len(rest))))] if rng.random() < 0.7 else []
    return {'lay': lay, 'gates': tw.gen_gates(rng, n), 'noise': tw.gen_noise(rng), 'meas': meas, 'rest': mr, 'form': rng.choice(['int', 'bits', 'bit', 'register', 'registers']),
            'shots': rng.choice([10 ** 10, 10 ** 10, 10 ** 9, 20, 200, 1000]), 'weights': rng.random() < 0.7, 'uneven': rng.random() < 0.3, 'beta': rng.choice([0.5, 0.5, 0.0, 0.1]), 'labels': rng.choice(['default', 'default', 'tuple', 'list']),
            'hist': [tw.gen_history(rng) for _ in range(rng.choice([2, 2, 3]))], 'plan': rng.randrange(1 << 30),
            'method': rng.choice(['lstsq'] * 12 + ['auto', 'auto', 'cvx'])}


def shrink(spec):
    if len(spec['gates']) > 1:
        yield from core.drop_from_list(spec, ['gates'])
    yield from core.set_value(spec, ['noise', 'kind'], 'none')
    if len(spec['hist']) > 1:
        yield from core.drop_from_list(spec, ['hist'])
    yield from core.drop_from_list(spec, ['rest'])
    if not spec['rest']:
        yield from core.set_value(spec, ['lay', 'cregs'], [])
    for k in range(len(spec['hist'])):
        yield from core.set_value(spec, ['hist', k, 'how'], 'one')
        yield from core.set_value(spec, ['hist', k, 'repeat'], 1)
        yield from core.set_value(spec, ['hist', k, 'by_name'], False)


def nontrivial(spec, out):
    return bool(out['faults']) or any(h['how'] != 'one' or h['repeat'] > 1 for h in spec['hist'])


def run(spec, ctx):
    import qiskit.ignis.verification.tomography as tomo
    amb = random.Random(spec['plan'])
    qc = tw.build(spec['lay'], spec['gates'], spec['rest'])
    n, meas = spec['lay']['n'], spec['meas']
    before = (len(qc.data), [r.name for r in qc.qregs + qc.cregs])
    kw = {}
    if spec['labels'] != 'default':
        labels = ['X', 'Y', 'Z']
        amb.shuffle(labels)
        if spec['labels'] == 'list':
            import itertools
            labels = list(itertools.product(labels, repeat=len(meas)))
            amb.shuffle(labels)
            kw = {'meas_labels': labels, 'meas_basis': 'Pauli'}
        else:
            kw = {'meas_labels': tuple(labels), 'meas_basis': 'Pauli'}
    dv.scramble_globals(amb)
    circs = ctx.sut('state_tomography_circuits', tomo.state_tomography_circuits, qc, tw.qubit_forms(qc, meas, spec['form']), **kw)
    ctx.check((len(qc.data), [r.name for r in qc.qregs + qc.cregs]) == before, 'input-changed', 'the circuit handed in was changed')
    ctx.check(len(circs) == 3 ** len(meas) and len({c.name for c in circs}) == len(circs), 'circuit-count', '%d circuits for %d qubits' % (len(circs), len(meas)))
    chan = tw.fault_channel(spec['noise'], None, ctx)
    quiet = tw.fault_channel(spec['noise'], None)
    truth = dv.reduced(dv.Device(channel=quiet(qc)).final_state(qc), meas, n)
    probs = {}
    for c in circs:
        ctx.check([q.register.name for q in c.qubits] == [q.register.name for q in qc.qubits], 'qubit-order', lambda: 'tomography circuit orders the qubits %s, the circuit %s' % (
            [q.register.name for q in c.qubits], [q.register.name for q in qc.qubits]))
        probs[c.name] = dv.Device(channel=chan(c)).probs(c)
    if spec['method'] != 'lstsq':
        spec = dict(spec, shots=100000)       # within the solver's accuracy
    exact = spec['shots'] >= 10 ** 5        # frequencies rounded to the shots, no sampling noise
    width = len(meas)
    fits, total = [], 0
    for h in spec['hist']:
        rounds, want, shots = [], {}, 0
        srng = random.Random(spec['plan'] + 7)
        for r in range(h['repeat']):
            exps = {}
            here = spec['shots'] * (1 if h['same'] and r < 2 else r + 1)          # 'same': two equal executions
            if h['same'] and r < 2:
                srng = random.Random(spec['plan'] + 7)
            for c in circs:
                n_c = here * (1 + srng.choice([0, 0, 1, 5]) if spec['uneven'] else 1)
                cts = dv.shots_of(probs[c.name], n_c) if exact else dv.sample_shots(probs[c.name], n_c, srng)
                exps[c.name] = dv.exp_of(c, cts)
                w = want.setdefault(ast.literal_eval(c.name), {})
                for key, v in tw.measured_counts(c, cts, width).items():
                    w[key] = w.get(key, 0) + v
            rounds.append(exps)
            shots += here
        snap = lambda f: {k: dict(v) for k, v in f.data.items()}
        fit = tw.deliver(ctx, tomo.StateTomographyFitter, circs, rounds, h, snap)
        got = snap(fit)
        ctx.check(got == want, 'data-not-sum', lambda: 'fitter data %s, delivered were %s' % (diff(got, want), diff(want, got)))
        dv.scramble_globals(amb)
        method = spec['method']
        slack = 1e-8 if method == 'lstsq' else 2e-2 if spec['weights'] else 2e-3          # the first-order convex solver is only that accurate
        rho = np.asarray(ctx.sut('fit', fit.fit, method=method, standard_weights=spec['weights'], beta=spec['beta']))
        ctx.check(rho.shape == truth.shape, 'shape', 'the fitted matrix has shape %s' % (rho.shape,))
        ctx.check(np.allclose(rho, rho.conj().T, atol=slack) and np.linalg.eigvalsh((rho + rho.conj().T) / 2)[0] > -slack and abs(np.trace(rho) - 1) < slack,
                  'not-a-state', lambda: 'the fit is no state: eigenvalues %s' % np.linalg.eigvals(rho))
        dist = float(np.linalg.norm(rho - truth))
        tol = 3e-5 * 4 ** width if exact else 10 * 2 ** width / np.sqrt(shots)
        tol += 0 if method == 'lstsq' else (0.3 if spec['weights'] else 0.05) * width        # weights of near-certain outcomes strain the solver
        ctx.check(dist <= tol, 'wrong-state', lambda: 'the fit is %.3g away from the state of qubits %s (allowed %.3g)\n%s\nfit\n%s' % (dist, meas, tol, np.round(truth, 4), np.round(rho, 4)))
        if method == 'lstsq' and (not exact or not spec['weights']):
            ref = tw.reference_fit(want, spec['beta'], spec['weights'], 1)
            ctx.check(tw.close(rho, ref, 1e-6), 'not-the-estimate', lambda: 'the fit differs by %.3g from the weighted least-squares estimate of the data\n%s\nfit\n%s' % (
                np.abs(rho - ref).max(), np.round(ref, 5), np.round(rho, 5)))
        again = ctx.sut('fit', fit.fit, method=method, standard_weights=spec['weights'], beta=spec['beta'])
        ctx.check(tw.close(rho, again, 1e-7 if method == 'lstsq' else 1e-4) and snap(fit) == got, 'refit-differs', 'fitting twice gives different results or changes the data')
        fits.append(((h['repeat'], h['same']), rho, fit, got))
        ctx.state(spec['lay']['regs'], spec['lay']['cregs'], meas, spec['noise']['kind'], h['how'], h['repeat'], h['by_name'])
        ctx.event('fit', round(dist, 6) if not exact else dist <= tol)
    for a in range(len(fits)):
        ctx.check({k: dict(v) for k, v in fits[a][2].data.items()} == fits[a][3], 'fitters-mixed', 'the data of a fitter changed while another one was used')
        for b in range(a):
            if fits[a][0] == fits[b][0]:
                ctx.check(tw.close(fits[a][1], fits[b][1], 1e-6 if spec['method'] == 'lstsq' else 0.3 if spec['weights'] else 0.01), 'history-dependent', 'the same data delivered in another way give another state')


def diff(a, b):
    return {k: v for k, v in a.items() if b.get(k) != v}

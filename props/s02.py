"""S02: process and gate-set tomography reconstruct the injected channel."""
import ast
import itertools
import random

import numpy as np

from sim import core
from sim import device as dv
from sim import tomoworld as tw

PROP = 'S02'
RUNS = {'quick': 2400, 'thorough': 40000}
RULE = ('A run draws either a noisy circuit (1-3 qubits in 1-3 registers, ordered prepared and measured qubits that may differ, Pauli or SIC preparations) for process tomography or a noisy one-qubit gate set '
        '(default or custom gates and SPAM circuits, noisy preparation and readout) for gate-set tomography, executes all circuits on a density-matrix device, and delivers the counts in two different ways; '
        'non-trivial when a fault was injected or more than one job delivered.')
STATE_MEASURE = 'distinct (kind, registers, prepared and measured qubits, basis, noise kind, delivery kind)'
COMPONENTS = {'real': ['process_tomography_circuits, gateset_tomography_circuits', 'ProcessTomographyFitter, GatesetTomographyFitter', 'PauliBasis, SICBasis, GateSetBasis'],
              'stub': ['quantum device (density matrices) with decoherence after marked gates', 'job service']}
ASSUMPTIONS = ['The convex-optimisation fitter runs with the installed first-order solver (SCS) and is judged to its accuracy, on one qubit.',
               'The gauge and likelihood optimisation of gate-set tomography is judged on noise-free gate sets only, where its optimum is known.']
RUN_LIMIT = 200


def gen(rng, tier):
    if rng.random() < 0.35:
        return gen_gst(rng, tier)
    lay = tw.gen_layout(rng)
    n = lay['n']
    k = 1 if n == 1 or rng.random() < (0.8 if tier == 'quick' else 0.5) else 2
    meas = rng.sample(range(n), k)
    prep = list(meas) if rng.random() < 0.5 else rng.sample(range(n), k)
    return {'what': 'process', 'lay': lay, 'gates': tw.gen_gates(rng, n), 'noise': tw.gen_noise(rng), 'meas': meas, 'prep': prep, 'form': rng.choice(['int', 'bits', 'bit', 'register', 'registers']),
            'basis': rng.choice(['Pauli', 'Pauli', 'SIC', 'labels', 'own']), 'shots': rng.choice([10 ** 10, 10 ** 10, 2000]), 'weights': rng.random() < 0.7, 'uneven': rng.random() < 0.3,
            'hist': [tw.gen_history(rng) for _ in range(2)], 'plan': rng.randrange(1 << 30), 'default_prep': rng.random() < 0.5,
            'method': rng.choice(['lstsq'] * 8 + ['auto', 'cvx']) if k == 1 else 'lstsq'}


def gen_gst(rng, tier):
    return {'what': 'gst', 'qubit': rng.choice([None, 0, 0, 1, 2]), 'custom': rng.choice([None, None, 'add', 'own', 'own']), 'noise': tw.gen_noise(rng), 'readout': round(rng.choice([0, 0, 0.03, 0.1]), 3),
            'prep_err': round(rng.choice([0, 0, 0.05]), 3), 'gseed': rng.randrange(1 << 30), 'mle': rng.random() < (0.12 if tier == 'quick' else 0.2),
            'hist': [dict(tw.gen_history(rng), how=rng.choice(['one', 'list']), repeat=1) for _ in range(2)], 'plan': rng.randrange(1 << 30)}


def shrink(spec):
    if spec['what'] == 'process' and len(spec['gates']) > 1:
        yield from core.drop_from_list(spec, ['gates'])
    if spec['what'] == 'process':
        yield from core.set_value(spec, ['lay', 'cregs'], [])
    yield from core.set_value(spec, ['noise', 'kind'], 'none')
    if len(spec['hist']) > 1:
        yield from core.drop_from_list(spec, ['hist'])
    for k in range(len(spec['hist'])):
        yield from core.set_value(spec, ['hist', k, 'how'], 'one')
        yield from core.set_value(spec, ['hist', k, 'repeat'], 1)


def nontrivial(spec, out):
    return bool(out['faults']) or any(h['how'] != 'one' or h['repeat'] > 1 for h in spec['hist'])


def run(spec, ctx):
    (process if spec['what'] == 'process' else gst)(spec, ctx)


def true_choi(qc, channel, prep, meas, n):
    """Choi matrix sum |i><j| x E(|i><j|) of the channel from the prepared to the measured qubits."""
    k = len(prep)
    dev = dv.Device(channel=channel)
    choi = np.zeros((4 ** k, 4 ** k), dtype=complex)
    for i in range(2 ** k):
        for j in range(2 ** k):
            rho = np.zeros((2 ** n, 2 ** n), dtype=complex)
            rho[spread(i, prep), spread(j, prep)] = 1
            out = dv.reduced(dev.final_state(qc, rho), meas, n)
            unit = np.zeros((2 ** k, 2 ** k))
            unit[i, j] = 1
            choi += np.kron(unit, out)
    return choi


def spread(value, bits):
    return sum(((value >> k) & 1) << b for k, b in enumerate(bits))


def bases(spec, amb):
    """Arguments for the generator and the fitter, and the states behind the labels."""
    b = basismod()
    objects = amb.random() < 0.3
    named = lambda x: (b.PauliBasis if x == 'Pauli' else b.SICBasis) if objects else x
    if spec['basis'] == 'Pauli':
        return ({}, {}, None) if amb.random() < 0.7 else ({'prep_labels': 'Pauli', 'prep_basis': named('Pauli')}, {'prep_basis': named('Pauli'), 'meas_basis': named('Pauli')}, None)
    if spec['basis'] == 'SIC':
        return {'prep_labels': 'SIC', 'prep_basis': named('SIC')}, {'prep_basis': named('SIC')}, None
    if spec['basis'] == 'labels':         # other Pauli states, possibly more than needed
        labels = [p + amb.choice('pm') for p in 'XYZ'] + ['Zp', 'Zm']
        if amb.random() < 0.3 and len(spec['meas']) == 1:
            labels += ['Xp', 'Xm', 'Yp', 'Ym']
        labels = list(dict.fromkeys(labels))
        amb.shuffle(labels)
        return {'prep_labels': tuple(labels), 'prep_basis': named('Pauli')}, {}, None
    # a basis of the user's own: Pauli states and measurements turned by a fixed rotation
    from qiskit import QuantumCircuit
    u = dv.random_unitary(random.Random(spec['plan'] + 1), 2)
    states = {'a': [1, 0], 'b': [0, 1], 'c': tw._KETS['Xp'], 'd': tw._KETS['Yp']}
    axes = {'P': 'X', 'Q': 'Y', 'R': 'Z'}
    kets = {k: u @ np.array(v) for k, v in states.items()}
    kets.update({k: [u @ np.array(v) for v in tw._KETS[p]] for k, p in axes.items()})

    def prep_circ(op, qubit):
        qc = QuantumCircuit(qubit.register)
        v = kets[op]
        qc.unitary(np.column_stack([v, [-np.conj(v[1]), np.conj(v[0])]]), [qubit])
        return qc

    def meas_circ(op, qubit, clbit):
        qc = QuantumCircuit(qubit.register, clbit.register)
        qc.unitary(np.array([np.conj(v) for v in kets[op]]), [qubit])
        qc.measure(qubit, clbit)
        return qc
    own = b.TomographyBasis('own', measurement=(tuple(axes), meas_circ, lambda op, outcome: tw.proj(kets[op][int(outcome)])), preparation=(tuple(states), prep_circ, lambda op: tw.proj(kets[op])))
    return {'meas_labels': tuple(axes), 'meas_basis': own, 'prep_labels': tuple(states), 'prep_basis': own}, {'meas_basis': own, 'prep_basis': own}, kets


def process(spec, ctx):
    import qiskit.ignis.verification.tomography as tomo
    amb = random.Random(spec['plan'])
    qc = tw.build(spec['lay'], spec['gates'])
    n, meas, prep = spec['lay']['n'], spec['meas'], spec['prep']
    kw, fit_kw, kets = bases(spec, amb)
    dv.scramble_globals(amb)
    args = [tw.qubit_forms(qc, meas, spec['form'])]
    if prep != meas or not spec['default_prep']:
        args.append(tw.qubit_forms(qc, prep, spec['form']))
    circs = ctx.sut('process_tomography_circuits', tomo.process_tomography_circuits, qc, *args, **kw)
    ctx.check(len({c.name for c in circs}) == len(circs) == (3 * len(kw.get('prep_labels', 'four') if isinstance(kw.get('prep_labels'), tuple) else 'four')) ** len(meas), 'circuit-count', '%d circuits for %d qubits' % (len(circs), len(meas)))
    chan, quiet = tw.fault_channel(spec['noise'], None, ctx), tw.fault_channel(spec['noise'], None)
    truth = true_choi(qc, quiet(qc), prep, meas, n)
    probs = {c.name: dv.Device(channel=chan(c)).probs(c) for c in circs}
    if spec['method'] != 'lstsq':
        spec = dict(spec, shots=100000)       # within the solver's accuracy
    exact = spec['shots'] >= 10 ** 5
    width = len(meas)
    fits = []
    for h in spec['hist']:
        rounds, want, shots = [], {}, 0
        srng = random.Random(spec['plan'] + 7)
        for r in range(h['repeat']):
            exps = {}
            here = spec['shots'] * (1 if h['same'] and r < 2 else r + 1)          # 'same': two equal executions
            if h['same'] and r < 2:
                srng = random.Random(spec['plan'] + 7)
            for c in circs:
                n_c = here * (1 + srng.choice([0, 0, 1, 5]) if spec['uneven'] else 1)
                cts = dv.shots_of(probs[c.name], n_c) if exact else dv.sample_shots(probs[c.name], n_c, srng)
                exps[c.name] = dv.exp_of(c, cts)
                w = want.setdefault(ast.literal_eval(c.name), {})
                for key, v in tw.measured_counts(c, cts, width).items():
                    w[key] = w.get(key, 0) + v
            rounds.append(exps)
            shots += here
        snap = lambda f: {k: dict(v) for k, v in f.data.items()}
        make = lambda res, cs: tomo.ProcessTomographyFitter(res, cs, **fit_kw)
        fit = tw.deliver(ctx, make, circs, rounds, h, snap)
        got = snap(fit)
        ctx.check(got == want, 'data-not-sum', 'the data of the fitter are not the sum of the deliveries')
        method = spec['method']
        slack = 1e-7 if method == 'lstsq' else 2e-2 if spec['weights'] else 5e-3          # the first-order convex solver is only that accurate
        choi = np.asarray(ctx.sut('fit', fit.fit, method=method, standard_weights=spec['weights']).data)
        ctx.check(np.allclose(choi, choi.conj().T, atol=slack) and np.linalg.eigvalsh((choi + choi.conj().T) / 2)[0] > -slack and abs(np.trace(choi) - 2 ** width) < slack,
                  'not-positive', lambda: 'the fitted Choi matrix is not positive of trace %d' % 2 ** width)
        dist = float(np.linalg.norm(choi - truth))
        tol = 2e-4 * 8 ** (width - 1) if exact else 30 * 6 ** width / np.sqrt(shots)
        tol += 0 if method == 'lstsq' else (0.3 if spec['weights'] else 0.05) * width        # weights of near-certain outcomes strain the solver
        ctx.check(dist <= tol, 'wrong-channel', lambda: 'the fit is %.3g away from the channel %s -> %s (allowed %.3g)\n%s\nfit\n%s' % (dist, prep, meas, tol, np.round(truth, 4), np.round(choi, 4)))
        if method == 'lstsq' and (not exact or not spec['weights']):
            ref = tw.reference_fit(want, 0.5, spec['weights'], 2 ** width, kets)
            ctx.check(tw.close(choi, ref, 1e-6), 'not-the-estimate', lambda: 'the fit differs by %.3g from the weighted least-squares estimate of the data' % np.abs(choi - ref).max())
        fits.append(((h['repeat'], h['same']), choi))
        ctx.state('process', spec['lay']['regs'], spec['lay']['cregs'], prep, meas, spec['basis'], spec['noise']['kind'], h['how'], h['by_name'])
        ctx.event('fit', dist <= tol)
    if len(fits) > 1 and fits[0][0] == fits[1][0]:
        ctx.check(tw.close(fits[0][1], fits[1][1], 1e-6 if spec['method'] == 'lstsq' else 0.3 if spec['weights'] else 0.02), 'history-dependent', 'the same data delivered in another way give another channel')


# ---------------------------------------------------------------- gate-set tomography

def marked(seed):
    """A gate of the set: a unitary marked for the device."""
    u = dv.random_unitary(random.Random(seed), 2)

    def add(circ, qubit):
        circ.unitary(u, [qubit], label='noisy')
    return u, add


def basismod():
    from qiskit.ignis.verification.tomography import basis
    return basis


def make_basis(spec, tomo):
    from qiskit.circuit.library import HGate, SGate, TGate
    from qiskit.extensions import UnitaryGate
    rng = random.Random(spec['gseed'])
    if spec['custom'] == 'own':
        x = dv.gate_matrix_of('rx', np.pi / 2)
        y = dv.gate_matrix_of('ry', np.pi / 2)

        def fix(u):
            return lambda c, q: c.unitary(u, [q], label='noisy')
        gates = {'Id': fix(np.eye(2)) if rng.random() < 0.5 else lambda c, q: None, 'gx': fix(x), 'gy': fix(y)}
        _, gates['r'] = marked(rng.randrange(1 << 30))
        spam = {'A': ('Id',), 'B': ('gx',), 'C': ('gy',), 'D': rng.choice([('gx', 'gx'), ('gy', 'gy'), ('gx', 'gx', 'Id')])}
        names = list(spam)
        rng.shuffle(names)
        return basismod().GateSetBasis('own', gates, {k: spam[k] for k in names})
    b = basismod().default_gateset_basis()
    if spec['custom'] == 'add':
        kind = rng.choice(['gate', 'function', 'unitary'])
        if kind == 'gate':
            b.add_gate(rng.choice([HGate(), SGate(), TGate()]))
        elif kind == 'function':
            b.add_gate(marked(rng.randrange(1 << 30))[1], name='fn')
        else:
            b.add_gate(UnitaryGate(dv.random_unitary(rng, 2), label='noisy'), name='uu')
    return b


def gst(spec, ctx):
    from qiskit.ignis.verification import tomography as tomo
    amb = random.Random(spec['plan'])
    basis = make_basis(spec, tomo)
    use_default = spec['custom'] is None and amb.random() < 0.5
    kw = {} if use_default else {'gateset_basis': basis}
    circs = ctx.sut('gateset_tomography_circuits', tomo.gateset_tomography_circuits, *([] if spec['qubit'] is None else [[spec['qubit']]]), **kw)
    labels, spam = list(basis.gate_labels), list(basis.spam_labels)
    ctx.check(len({c.name for c in circs}) == len(circs) == len(spam) ** 2 * len(labels) + len(spam) ** 2 + len(spam), 'circuit-count', '%d circuits for %d gates' % (len(circs), len(labels)))
    # every gate (not the empty identity) decoheres, whoever adds it
    noise, p = spec['noise'], spec['noise']['p']

    def chan_for(counting):
        def chan(_, inst, qs):
            if inst.name in ('barrier', 'measure') or noise['kind'] == 'none' or not p:
                return None
            if counting:
                ctx.fault(noise['kind'])
            g = p * (0.4 if inst.name == 'u2' else 0.8)
            return [({'depol': dv.depolarize(g), 'amp': dv.amplitude_damping(g), 'phase': dv.phase_damping(g), 'mix': dv.amplitude_damping(g)}[noise['kind']], qs)]
        return chan
    init1 = np.diag([1 - spec['prep_err'], spec['prep_err']]).astype(complex)
    if spec['prep_err']:
        ctx.fault('preparation_error')
    read = np.array([[1 - spec['readout'], 1.7 * spec['readout']], [spec['readout'], 1 - 1.7 * spec['readout']]])

    def p_zero(circ, counting=True):
        q = spec['qubit'] or 0
        rho = np.eye(1)
        for i in range(circ.num_qubits):
            rho = np.kron(init1 if i == q else np.diag([1, 0]), rho)
        d = dv.Device(channel=chan_for(counting)).probs(circ, rho)
        return dv.apply_readout(d, [(read, [0])], None) if spec['readout'] else d
    probs = {c.name: p_zero(c) for c in circs}
    N = 10 ** 9
    results = []
    for h in spec['hist']:
        rounds = [{c.name: dv.exp_of(c, dv.shots_of(probs[c.name], N)) for c in circs}]
        make = (lambda res, cs: tomo.GatesetTomographyFitter(res, cs)) if use_default else (lambda res, cs: tomo.GatesetTomographyFitter(res, cs, basis))
        fit = tw.deliver(ctx, make, circs, rounds, h, lambda f: dict(f.probs))
        res = ctx.sut('linear_inversion', fit.linear_inversion)
        ctx.check(set(res) == set(labels) | {'E', 'rho'}, 'gate-labels', 'linear inversion returned %s' % sorted(res))
        mats = {k: np.asarray(res[k].data) for k in labels}
        from qiskit import QuantumCircuit
        for _ in range(4):
            seq = [amb.choice(labels) for _ in range(amb.randint(0, 6))]
            c = QuantumCircuit((spec['qubit'] or 0) + 1, 1)
            for g in seq:
                basis.add_gate_to_circuit(c, c.qubits[spec['qubit'] or 0], g)
            c.measure(spec['qubit'] or 0, 0)
            true = p_zero(c, False).get(0, 0.0)
            v = np.asarray(res['rho'], dtype=complex)
            for g in seq:
                v = mats[g] @ v
            got = complex((np.asarray(res['E']) @ v).ravel()[0])
            ctx.check(abs(got - true) < 2e-4, 'wrong-prediction', lambda: 'the reconstructed gate set predicts %s for the sequence %s, the device gives %.6f' % (got, seq, true))
        results.append((fit, mats, res))
        ctx.state('gst', spec['qubit'], spec['custom'], noise['kind'], bool(spec['readout']), bool(spec['prep_err']), h['how'], h['by_name'])
    for k in labels:
        ctx.check(tw.close(results[0][1][k], results[-1][1][k], 1e-6), 'history-dependent', 'gate %s depends on how the data were delivered' % k)
    ideal = noise['kind'] == 'none' or not p
    if spec['mle'] and ideal and not spec['readout'] and not spec['prep_err'] and spec['custom'] is None:
        ctx.probe('mle')
        from qiskit.quantum_info import PTM
        out = ctx.sut('fit', results[0][0].fit)
        for k in labels:
            from qiskit import QuantumCircuit
            c = QuantumCircuit(1)
            basis.add_gate_to_circuit(c, c.qubits[0], k)
            want = PTM(dv.circuit_unitary_ptm(c)).data
            ctx.check(tw.close(out[k].data, want, 5e-3), 'wrong-gate', lambda: 'gate %s of a noise-free device is fitted to\n%s' % (k, np.round(out[k].data, 4)))

"""Circuits with several registers, noisy marked gates and delivery histories for tomography."""
import random

import numpy as np

from sim import device as dv


def gen_layout(rng, max_qubits=3):
    """Quantum and classical registers of the circuit under tomography."""
    n = rng.choice([1, 2, 2, 3]) if max_qubits >= 3 else rng.randint(1, max_qubits)
    regs, left = [], n
    while left:
        s = rng.randint(1, left)
        regs.append(s)
        left -= s
    return {'n': n, 'regs': regs, 'names': rng.sample(['q', 'a', 'zz', 'beta', 'r1'], len(regs)), 'cregs': rng.choice([[], [], [], [1], [2], [1, 2]])}


def gen_gates(rng, n, most=5):
    gates = []
    for _ in range(rng.randint(1, most)):
        kind = rng.choice(['noisy1', 'noisy1', 'noisy2', 'h', 's', 'cx', 't'])
        if kind in ('noisy2', 'cx') and n < 2:
            kind = 'noisy1'
        qs = rng.sample(range(n), 2 if kind in ('noisy2', 'cx') else 1)
        gates.append([kind, qs, rng.randrange(1 << 30)])
    return gates


def gen_noise(rng):
    return {'kind': rng.choice(['none', 'depol', 'amp', 'phase', 'mix']), 'p': round(rng.choice([0.0, 0.02, 0.1, 0.35]), 3), 'seed': rng.randrange(1 << 30)}


def build(lay, gates, measure_rest=None):
    """The circuit; marked gates are unitaries labelled 'noisy'."""
    from qiskit import QuantumCircuit, QuantumRegister, ClassicalRegister
    qregs = [QuantumRegister(s, nm) for s, nm in zip(lay['regs'], lay['names'])]
    cregs = [ClassicalRegister(s, 'x%d' % k) for k, s in enumerate(lay['cregs'])]
    qc = QuantumCircuit(*qregs, *cregs)
    for kind, qs, seed in gates:
        if kind.startswith('noisy'):
            qc.unitary(dv.random_unitary(random.Random(seed), 2 ** len(qs)), qs, label='noisy')
        else:
            getattr(qc, kind)(*qs)
    for q, c in measure_rest or ():
        qc.measure(q, c)
    return qc


def fault_channel(noise, where, ctx=None):
    """Kraus maps after each marked gate, fixed to the qubits' identity, not to their place in a derived circuit."""
    def channel(circ):
        ident = [(q.register.name, q.index) for q in circ.qubits]

        def chan(_, inst, qs):
            if getattr(inst, 'label', None) != 'noisy' or noise['kind'] == 'none' or not noise['p']:
                return None
            out = []
            for q in qs:
                p = noise['p'] * (0.5 + 0.5 * random.Random('%s%s%d' % (noise['seed'], ident[q][0], ident[q][1])).random())
                if noise['kind'] in ('depol', 'mix'):
                    out.append((dv.depolarize(p), [q]))
                if noise['kind'] in ('amp', 'mix'):
                    out.append((dv.amplitude_damping(p), [q]))
                if noise['kind'] == 'phase':
                    out.append((dv.phase_damping(p), [q]))
            if ctx is not None:
                ctx.fault(noise['kind'], len(qs))
            return out
        return chan
    return channel


def qubit_forms(qc, idx, form):
    """The measured qubits as a user may name them."""
    if form == 'int':
        return list(idx)
    if form == 'bit' and len(idx) == 1:
        return qc.qubits[idx[0]]
    if form == 'register':
        for reg in qc.qregs:
            if [qc.qubits.index(q) for q in reg] == list(idx):
                return reg
    if form == 'registers':
        out, rest = [], list(idx)
        while rest:
            reg = next((r for r in qc.qregs if [qc.qubits.index(q) for q in r] == rest[:r.size]), None)
            if reg is None:
                out.append(qc.qubits[rest.pop(0)])
            else:
                out.append(reg)
                rest = rest[reg.size:]
        return out
    return [qc.qubits[i] for i in idx]


def gen_history(rng):
    """How the data of one tomography reach a fitter."""
    return {'how': rng.choice(['one', 'list', 'calls', 'calls']), 'by_name': rng.random() < 0.35, 'repeat': rng.choice([1, 1, 2, 3]), 'plan': rng.randrange(1 << 30), 'bad': rng.random() < 0.35, 'same': rng.random() < 0.4}


def deliver(ctx, make, circs, rounds, hist, snapshot):
    """Feed rounds (list of {name: exp}) to a fitter made by make(results, circuits). Returns the fitter.

    rounds: repeated executions of all circuits."""
    rng = random.Random(hist['plan'])

    def key(c):
        return c.name if hist['by_name'] else c
    by = {c.name: c for c in circs}
    jobs = []                                        # (result, circuits in it)
    for r, exps in enumerate(rounds):
        names = [c.name for c in circs]
        if rng.random() < 0.7:
            rng.shuffle(names)
        parts = [names] if hist['how'] == 'one' else [names[a:b] for a, b in cut(rng, len(names), rng.randint(1, 4))]
        jobs += [(dv.result_of([exps[nm] for nm in p], 'job%d-%d' % (r, k)), p) for k, p in enumerate(parts)]
    if hist['how'] != 'calls':
        if rng.random() < 0.5:
            rng.shuffle(jobs)
        order = list(circs)
        rng.shuffle(order)
        res = [j[0] for j in jobs]
        fit = ctx.sut('the fitter', make, res[0] if len(res) == 1 and rng.random() < 0.5 else res, [key(c) for c in order])
        ctx.event('delivered', hist['how'], len(res))
        return fit
    rng.shuffle(jobs)
    fit = None
    while jobs:
        k = rng.randint(1, min(2, len(jobs)))
        now, jobs = jobs[:k], jobs[k:]
        names = list(dict.fromkeys(nm for _, p in now for nm in p))
        if fit is None:
            fit = ctx.sut('the fitter', make, [j[0] for j in now], [key(by[nm]) for nm in names])
        else:
            if hist['bad'] and rng.random() < 0.5:
                missing = [nm for nm in by if nm not in names]
                if missing:
                    before = snapshot(fit)
                    ctx.fault('missing_circuit')
                    order = [key(by[nm]) for nm in names] + [key(by[rng.choice(missing)])]
                    ctx.refuses('a delivery that lacks a circuit', fit.add_data, [j[0] for j in now], order)
                    ctx.check(snapshot(fit) == before, 'failed-call-changed-data', 'a refused delivery changed the data of the fitter')
            ctx.sut('add_data', fit.add_data, [j[0] for j in now], [key(by[nm]) for nm in names])
        ctx.event('delivered', len(names))
    return fit


def cut(rng, n, k):
    cuts = sorted({0, n} | {rng.randint(0, n) for _ in range(k - 1)})
    return list(zip(cuts, cuts[1:]))


def measured_counts(circ, counts, width):
    """Counts of the tomography bits: the first ones, whatever other registers hold."""
    out = {}
    for o, c in counts.items():
        key = format(o & ((1 << width) - 1), '0%db' % width)
        out[key] = out.get(key, 0) + c
    return out


def close(a, b, tol):
    return np.shape(a) == np.shape(b) and float(np.max(np.abs(np.asarray(a) - np.asarray(b)))) <= tol


# ---------------------------------------------------------------- the documented estimator, written independently

_R = 2 ** -0.5
_KETS = {'X': ([_R, _R], [_R, -_R]), 'Y': ([_R, 1j * _R], [_R, -1j * _R]), 'Z': ([1, 0], [0, 1]),
         'Xp': [_R, _R], 'Xm': [_R, -_R], 'Yp': [_R, 1j * _R], 'Ym': [_R, -1j * _R], 'Zp': [1, 0], 'Zm': [0, 1],
         'S0': [1, 0], 'S1': [3 ** -0.5, (2 / 3) ** 0.5], 'S2': [3 ** -0.5, (2 / 3) ** 0.5 * np.exp(-2j * np.pi / 3)], 'S3': [3 ** -0.5, (2 / 3) ** 0.5 * np.exp(2j * np.pi / 3)]}


def proj(ket):
    v = np.array(ket, dtype=complex)
    return np.outer(v, v.conj())


def reference_fit(data, beta, weighted, trace, kets=None):
    """Weighted least squares over Hermitian matrices, nearest positive matrix (Smolin et al.), given trace.

    data: {label: counts by bit string}; label: measured Paulis, or (preparations, measured Paulis); qubit 0 first."""
    kets = dict(_KETS, **(kets or {}))
    rows, rhs = [], []
    herm = None
    for label, cts in data.items():
        prep, meas = label if isinstance(label[0], tuple) else ((), label)
        k = len(meas)
        shots = float(sum(cts.values()))
        n = np.array([cts.get(format(o, '0%db' % k), 0) for o in range(2 ** k)], float)
        b = beta
        if b == 0 and (0 in n or shots in n):
            b = 0.5
        f = (n + b) / (shots + len(n) * b)
        w = np.sqrt(shots / (f * (1 - f))) if weighted else np.ones(len(n))
        first = np.eye(1)
        for lab in prep:
            first = np.kron(proj(kets[lab]), first)
        for o in range(2 ** k):
            op = np.eye(1)
            for q, lab in enumerate(meas):
                op = np.kron(proj(kets[lab][o >> q & 1]), op)
            op = np.kron(first.T, op)
            if herm is None:
                herm = hermitian_basis(len(op))
            rows.append(w[o] * np.real(np.einsum('kij,ji->k', herm, op)))
            rhs.append(w[o] * n[o] / shots)
    x = np.linalg.lstsq(np.array(rows), np.array(rhs), rcond=None)[0]
    mat = np.einsum('k,kij->ij', x, herm)
    val, vec = np.linalg.eigh(mat)
    d = len(val)
    val, acc = list(val[::-1]), 0.0            # largest first
    i = d
    while i and val[i - 1] + acc / i < 0:
        acc += val[i - 1]
        val[i - 1] = 0.0
        i -= 1
    val = np.array([v + acc / i for v in val[:i]] + [0.0] * (d - i))[::-1]
    mat = (vec * val) @ vec.conj().T
    return mat * trace / np.trace(mat)


_HERM = {}


def hermitian_basis(d):
    if d not in _HERM:
        out = []
        for i in range(d):
            for j in range(i + 1):
                m = np.zeros((d, d), dtype=complex)
                m[i, j] = m[j, i] = 1
                out.append(m)
                if i != j:
                    m = np.zeros((d, d), dtype=complex)
                    m[i, j], m[j, i] = -1j, 1j
                    out.append(m)
        _HERM[d] = np.array(out)
    return _HERM[d]

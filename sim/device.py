"""A simulated quantum device and job service.

The device runs qiskit circuits on its own linear algebra (state vectors, or density matrices when faults are
injected) and knows nothing of the code under test. Outcome frequencies are exact: a job of N shots returns the
N-shot rounding of the exact distribution, so no statistical tolerance is needed. The job service decides how
results reach the analyst: batches, order, repetition.
"""
import random

import numpy as np

_MATS = {}


def gate_matrix(inst):
    key = (inst.name, tuple(float(p) for p in inst.params)) if all(
        isinstance(p, (int, float, np.floating, np.integer)) for p in inst.params) else None
    if key is not None and key in _MATS and inst.name not in ('unitary', 'circuit'):
        return _MATS[key]
    if hasattr(inst, 'to_matrix'):
        try:
            m = np.asarray(inst.to_matrix(), dtype=complex)
        except Exception:      # pylint: disable=broad-except
            m = None
    else:
        m = None
    if m is None:
        d = inst.definition
        m = circuit_unitary(d)
    if key is not None:
        if len(_MATS) > 20000:
            _MATS.clear()
        _MATS[key] = m
    return m


def apply_op(state, mat, qubits, n):
    """state: array of shape (2,)*k + rest, axis of qubit q is n-1-q."""
    k = len(qubits)
    t = mat.reshape((2,) * (2 * k))
    # matrix index bit order: qubits[0] is the least significant
    axes = [n - 1 - q for q in qubits][::-1]
    state = np.tensordot(t, state, axes=(list(range(k, 2 * k)), axes))
    return np.moveaxis(state, list(range(k)), axes)


def circuit_unitary(circ):
    """Unitary of a measurement-free circuit."""
    n = circ.num_qubits
    u = np.eye(2 ** n, dtype=complex).reshape((2,) * n + (2 ** n,))
    idx = {q: i for i, q in enumerate(circ.qubits)}
    for inst, qargs, _ in circ.data:
        if inst.name in ('barrier', 'delay', 'snapshot'):
            continue
        qs = [idx[q] for q in qargs]
        t = gate_matrix(inst)
        k = len(qs)
        axes = [n - 1 - q for q in qs][::-1]
        u = np.tensordot(t.reshape((2,) * (2 * k)), u, axes=(list(range(k, 2 * k)), axes))
        u = np.moveaxis(u, list(range(k)), axes)
    return u.reshape(2 ** n, 2 ** n)


def gate_matrix_of(name, *params):
    """Matrix of a standard gate by name."""
    from qiskit import QuantumCircuit
    c = QuantumCircuit(2 if name in ('cx', 'cz', 'swap') else 1)
    getattr(c, name)(*params, *range(c.num_qubits))
    return circuit_unitary(c)


def circuit_unitary_ptm(circ):
    """The unitary as an operator the Pauli transfer matrix can be computed from."""
    from qiskit.quantum_info import Operator
    return Operator(circuit_unitary(circ))


class Device:
    """noise(step, inst, qubits) -> list of (pauli string or matrix, qubits) applied after the instruction, or None.

    channel(step, inst, qubits) -> list of Kraus matrices with their qubits, for density-matrix runs."""

    def __init__(self, pauli=None, channel=None):
        self.pauli, self.channel = pauli, channel
        self.steps = 0

    def probs(self, circ, init=None):
        """Exact distribution {clbit integer: probability} of one circuit."""
        return self._run_dm(circ, init) if self.channel else self._run_sv(circ, init)

    def final_state(self, circ, init=None):
        """Final density matrix (measurements and barriers ignored), qubit 0 least significant; linear in init."""
        n = circ.num_qubits
        rho = np.zeros((2 ** n, 2 ** n), dtype=complex)
        rho[0, 0] = 1
        if init is not None:
            rho = np.array(init, dtype=complex)
        branches = {0: rho}
        self._dm_steps(circ, branches, ignore_measure=True)
        return branches[0]

    def _run_sv(self, circ, init):
        n = circ.num_qubits
        qi = {q: i for i, q in enumerate(circ.qubits)}
        ci = {c: i for i, c in enumerate(circ.clbits)}
        psi = np.zeros((2,) * n, dtype=complex)
        psi[(0,) * n] = 1
        if init is not None:
            psi = np.asarray(init, dtype=complex).reshape((2,) * n)
        # terminal measurements of all qubits are sampled together at the end
        branches = [(0, psi)]
        data = circ.data
        last = {}
        for k, (inst, qargs, cargs) in enumerate(data):
            if inst.name != 'barrier':
                for q in qargs:
                    last[q] = k
        pending = []
        for k, (inst, qargs, cargs) in enumerate(data):
            name = inst.name
            qs = [qi[q] for q in qargs]
            self.steps += 1
            if name == 'barrier':
                if self.pauli:
                    branches = self._inject(branches, k, inst, qs, n)
                continue
            cond = getattr(inst, 'condition', None)
            if cond is not None:
                raise NotImplementedError('classical condition')
            if name == 'measure':
                if last[qargs[0]] == k:
                    pending.append((qs[0], ci[cargs[0]]))
                    continue
                out = []
                for cl, v in branches:
                    ax = n - 1 - qs[0]
                    for b in (0, 1):
                        sel = [slice(None)] * n
                        sel[ax] = 1 - b
                        w = v.copy()
                        w[tuple(sel)] = 0
                        if np.vdot(w, w).real > 1e-15:
                            out.append(((cl & ~(1 << ci[cargs[0]])) | (b << ci[cargs[0]]), w))
                branches = out
            elif name == 'reset':
                out = []
                for cl, v in branches:
                    ax = n - 1 - qs[0]
                    for b in (0, 1):
                        w = np.zeros_like(v)
                        dst, src = [slice(None)] * n, [slice(None)] * n
                        dst[ax], src[ax] = 0, b
                        w[tuple(dst)] = v[tuple(src)]
                        if np.vdot(w, w).real > 1e-15:
                            out.append((cl, w))
                branches = out
            elif name in ('delay', 'snapshot'):
                pass
            else:
                m = gate_matrix(inst)
                branches = [(cl, apply_op(v, m, qs, n)) for cl, v in branches]
            if self.pauli:
                branches = self._inject(branches, k, inst, qs, n)
        res = {}
        for cl, v in branches:
            p = np.abs(v) ** 2
            if pending:
                keep = [q for q, _ in pending]
                p = p.reshape((2,) * n)
                other = tuple(n - 1 - q for q in range(n) if q not in keep)
                p = p.sum(axis=other) if other else p
                order = sorted(keep)                 # axes now descending qubit order
                flat = p.reshape(-1)
                for i, val in enumerate(flat):
                    if val < 1e-14:
                        continue
                    c = cl
                    for q, cb in pending:
                        bit = (i >> order.index(q)) & 1
                        c = (c & ~(1 << cb)) | (bit << cb)
                    res[c] = res.get(c, 0.0) + float(val)
            else:
                res[cl] = res.get(cl, 0.0) + float(p.sum())
        return res

    def _inject(self, branches, k, inst, qs, n):
        todo = self.pauli(k, inst, qs)
        for p, q in todo or ():
            branches = [(cl, apply_op(v, PAULI[p], [q], n)) for cl, v in branches]
        return branches

    def _run_dm(self, circ, init):
        n = circ.num_qubits
        rho = np.zeros((2 ** n, 2 ** n), dtype=complex)
        rho[0, 0] = 1
        if init is not None:
            rho = np.asarray(init, dtype=complex)
        branches = {0: rho}
        self._dm_steps(circ, branches)
        return {c: float(np.trace(r).real) for c, r in branches.items() if np.trace(r).real > 1e-14}

    def _dm_steps(self, circ, branches, ignore_measure=False):
        n = circ.num_qubits
        qi = {q: i for i, q in enumerate(circ.qubits)}
        ci = {c: i for i, c in enumerate(circ.clbits)}
        for k, (inst, qargs, cargs) in enumerate(circ.data):
            qs = [qi[q] for q in qargs]
            self.steps += 1
            name = inst.name
            if name == 'measure':
                if ignore_measure:
                    continue
                new = {}
                for cl, r in branches.items():
                    for b in (0, 1):
                        w = dm_apply(r, PROJ[b], qs, n)
                        if np.trace(w).real > 1e-15:
                            c = (cl & ~(1 << ci[cargs[0]])) | (b << ci[cargs[0]])
                            new[c] = new[c] + w if c in new else w
                branches.clear()
                branches.update(new)
            elif name == 'reset':
                for cl in list(branches):
                    r = branches[cl]
                    branches[cl] = dm_apply(r, PROJ[0], qs, n) + dm_apply(r, np.array([[0, 1], [0, 0]], dtype=complex), qs, n)
            elif name not in ('barrier', 'delay', 'snapshot'):
                m = gate_matrix(inst)
                for cl in list(branches):
                    branches[cl] = dm_apply(branches[cl], m, qs, n)
            chan = self.channel(k, inst, qs) if self.channel else None
            for kraus, kq in chan or ():
                for cl in list(branches):
                    r = branches[cl]
                    branches[cl] = kraus(r, kq, n) if callable(kraus) else sum(dm_apply(r, m, kq, n) for m in kraus)


def reduced(rho, keep, n):
    """Partial trace onto the ordered list of qubits, keep[0] least significant."""
    k = len(keep)
    rest = [q for q in range(n) if q not in keep]
    order = [n - 1 - q for q in reversed(keep)] + [n - 1 - q for q in reversed(rest)]
    t = rho.reshape((2,) * (2 * n)).transpose(order + [n + a for a in order])
    t = t.reshape(2 ** k, 2 ** (n - k), 2 ** k, 2 ** (n - k))
    return np.einsum('ajbj->ab', t)


def amplitude_damping(g):
    return [np.array([[1, 0], [0, np.sqrt(1 - g)]], dtype=complex), np.array([[0, np.sqrt(g)], [0, 0]], dtype=complex)]


def phase_damping(g):
    return [np.sqrt(1 - g) * np.eye(2, dtype=complex), np.diag([np.sqrt(g), 0]).astype(complex), np.diag([0, np.sqrt(g)]).astype(complex)]


def random_unitary(rng, dim):
    """Haar-like unitary drawn from a python generator."""
    z = np.array([[complex(rng.gauss(0, 1), rng.gauss(0, 1)) for _ in range(dim)] for _ in range(dim)])
    q, r = np.linalg.qr(z)
    return q * (np.diag(r) / np.abs(np.diag(r)))


PAULI = {'I': np.eye(2, dtype=complex), 'X': np.array([[0, 1], [1, 0]], dtype=complex),
         'Y': np.array([[0, -1j], [1j, 0]]), 'Z': np.diag([1, -1]).astype(complex)}
PROJ = [np.diag([1, 0]).astype(complex), np.diag([0, 1]).astype(complex)]


def dm_apply(rho, mat, qs, n):
    """M rho M^dagger on the given qubits."""
    k = len(qs)
    d = 2 ** n
    t = rho.reshape((2,) * n + (d,))
    t = apply_op(t, mat, qs, n) if k else t
    t = t.reshape(d, d)
    t = t.T.reshape((2,) * n + (d,))
    t = apply_op(t, mat.conj(), qs, n)
    return t.reshape(d, d).T


def depolarize(p):
    """Channel rho -> (1-p) rho + p tr_q(rho) x I/2^k, as a callable for Device.channel."""
    def chan(rho, qs, n):
        k = len(qs)
        out = np.zeros_like(rho)
        import itertools
        for paulis in itertools.product('IXYZ', repeat=k):
            m = np.eye(1)
            for c in paulis:
                m = np.kron(PAULI[c], m)       # qs[0] least significant
            out = out + dm_apply(rho, m, qs, n)
        return (1 - p) * rho + p * out / 4 ** k
    return chan


# ---------------------------------------------------------------- readout and shots

def assignment(rng, n, strength=0.15, joint=False):
    """A column-stochastic, diagonally dominant readout matrix A[measured, true] for n bits."""
    if joint or n == 1:
        d = 2 ** n
        a = np.zeros((d, d))
        for j in range(d):
            err = strength * rng.random()
            w = np.array([rng.random() + 1e-3 if i != j else 0.0 for i in range(d)])
            a[:, j] = err * w / w.sum()
            a[j, j] = 1 - err
        return a
    m = np.eye(1)
    for _ in range(n):
        m = np.kron(assignment(rng, 1, strength), m)
    return m


def apply_readout(probs, mats, bits):
    """mats: list of (matrix, bit positions) acting on the classical bits of a distribution."""
    for mat, pos in mats:
        out = {}
        for c, p in probs.items():
            j = sum(((c >> b) & 1) << k for k, b in enumerate(pos))
            rest = c
            for b in pos:
                rest &= ~(1 << b)
            for i in range(len(mat)):
                if mat[i, j] > 0:
                    cc = rest
                    for k, b in enumerate(pos):
                        cc |= ((i >> k) & 1) << b
                    out[cc] = out.get(cc, 0.0) + p * mat[i, j]
        probs = out
    return probs


def shots_of(probs, shots):
    """Integer counts closest to probs * shots (largest remainders first, then lowest outcome)."""
    keys = sorted(probs)
    tot = sum(probs.values())
    raw = [probs[k] / tot * shots for k in keys]
    base = [int(np.floor(r + 1e-9)) for r in raw]
    left = shots - sum(base)
    order = sorted(range(len(keys)), key=lambda i: (-(round(raw[i] - base[i], 9)), keys[i]))
    for i in order[:left]:
        base[i] += 1
    return {k: c for k, c in zip(keys, base) if c}


def sample_shots(probs, shots, rng):
    """Seeded multinomial sample (finite-shot statistics)."""
    keys = sorted(probs)
    p = np.array([max(0.0, probs[k]) for k in keys])
    c = np.random.RandomState(rng.randrange(1 << 31)).multinomial(shots, p / p.sum())
    return {k: int(v) for k, v in zip(keys, c) if v}


# ---------------------------------------------------------------- job results

def experiment(name, counts, cregs, memory=None, level=2, metadata=None):
    """One experiment of a job result. counts: {int: n}; cregs: [[name, size], ...]."""
    slots = sum(s for _, s in cregs)
    return {'name': name, 'counts': dict(counts), 'cregs': [list(c) for c in cregs], 'slots': slots,
            'memory': memory, 'level': level, 'metadata': metadata or {}}


def exp_of(circ, counts, name=None, memory=None):
    return experiment(name or circ.name, counts, [[r.name, r.size] for r in circ.cregs], memory)


def result_of(exps, job='sim'):
    """A qiskit Result as a provider returns it."""
    from qiskit.result import Result
    rs = []
    for e in exps:
        data = {}
        if e['counts'] is not None:
            data['counts'] = {hex(k): v for k, v in e['counts'].items()}
        if e.get('memory') is not None:
            data['memory'] = e['memory']
        if e.get('statevector') is not None:
            data['statevector'] = e['statevector']
        rs.append({'shots': int(sum(e['counts'].values())) if e['counts'] else 1, 'success': True, 'data': data, 'meas_level': e['level'],
                   'status': 'DONE', 'header': {'name': e['name'], 'creg_sizes': e['cregs'], 'memory_slots': e['slots'],
                                                'clbit_labels': [[n, i] for n, s in e['cregs'] for i in range(s)], 'metadata': e['metadata']}})
    return Result.from_dict({'backend_name': 'sim', 'backend_version': '1.0.0', 'qobj_id': 'qobj', 'job_id': job, 'success': True, 'results': rs})


def delivery(rng, n, max_batches=4, shuffle=True):
    """How n experiments reach the analyst: batches of indexes, each experiment exactly once."""
    idx = list(range(n))
    if shuffle and rng.random() < 0.7:
        rng.shuffle(idx)
    k = rng.randint(1, max_batches)
    cuts = sorted(rng.randint(0, n) for _ in range(k - 1))
    parts, last = [], 0
    for c in cuts + [n]:
        if c > last:
            parts.append(idx[last:c])
        last = c
    return parts


def batches(exps, plan_seed, max_batches=4, shuffle=True):
    """Results of a delivery decided by plan_seed."""
    rng = random.Random(plan_seed)
    return [result_of([exps[i] for i in part], 'job%d' % k) for k, part in enumerate(delivery(rng, len(exps), max_batches, shuffle))]


def tvd(p, q):
    return 0.5 * sum(abs(p.get(k, 0.0) - q.get(k, 0.0)) for k in set(p) | set(q))


def random_gates(rng, circ, qubits, depth, names=('h', 's', 't', 'x', 'y', 'rx', 'rz', 'cx')):
    """Append a random circuit drawn by rng."""
    for _ in range(depth):
        g = rng.choice(names)
        q = rng.choice(qubits)
        if g in ('cx', 'cz', 'swap'):
            if len(qubits) < 2:
                continue
            a, b = rng.sample(list(qubits), 2)
            getattr(circ, g)(a, b)
        elif g in ('rx', 'ry', 'rz'):
            getattr(circ, g)(rng.uniform(0, 6.283), q)
        elif g == 'u3':
            circ.u3(rng.uniform(0, 3.14), rng.uniform(0, 6.28), rng.uniform(0, 6.28), q)
        else:
            getattr(circ, g)(q)


def scramble_globals(rng):
    """Another consumer of the process-wide random generators."""
    random.seed(rng.randrange(1 << 30))
    np.random.seed(rng.randrange(1 << 30))
    for _ in range(rng.randrange(3)):
        random.random()
        np.random.rand()

"""E01: GHZ experiments fit the device they were built for and report the fidelity it reached."""
import contextlib
import io
import random

import numpy as np

from sim import core
from sim import device as dv

PROP = 'E01'
RUNS = {'quick': 2400, 'thorough': 40000}
RULE = ('A run draws one or two devices (trees, chains, rings, grids, random graphs, dead couplings and qubits, directed couplings, error rates that are refreshed between calls), plans and builds GHZ experiments for them in an interleaved '
        'order, executes the circuits on a simulated device with depolarising noise and phase errors after its two-qubit gates and readout errors, and analyses the phase series; non-trivial when a fault was injected or two configurations were in use.')
STATE_MEASURE = 'distinct (device graph, directions, number of qubits, kind of experiment, basis gates, noise)'
COMPONENTS = {'real': ['BConfig (parallelised preparation), linear preparation', 'Plotter.get_fourier_info, counts analysis, rho_to_fidelity', 'qiskit-terra transpiler'],
              'stub': ['backend (coupling map and calibration data)', 'quantum device (density matrices) with depolarising, phase and readout faults']}
ASSUMPTIONS = ['At least two and at most as many qubits as are connected to the best connected one are asked for; phases are equally spaced over one turn, more than twice as many as qubits.']


def graph(rng, size, kind):
    """Undirected edges over range(size)."""
    if kind == 'chain':
        e = [(i, i + 1) for i in range(size - 1)]
    elif kind == 'ring':
        e = [(i, (i + 1) % size) for i in range(size if size > 2 else 1)]
    elif kind == 'star':
        e = [(0, i) for i in range(1, size)]
    elif kind == 'grid':
        w = rng.choice([2, 3, 5])
        e = [(i, i + 1) for i in range(size - 1) if (i + 1) % w] + [(i, i + w) for i in range(size - w)]
    elif kind == 'full':
        e = [(i, j) for j in range(size) for i in range(j)]
    else:
        e = [(rng.randrange(i), i) for i in range(1, size)]
        if kind == 'random':
            e += [(i, j) for j in range(size) for i in range(j) if rng.random() < 1.5 / size]
    return sorted(set(tuple(sorted(x)) for x in e))


def gen_device(rng, big):
    kind = rng.choice(['chain', 'ring', 'star', 'grid', 'tree', 'tree', 'random', 'random', 'full'])
    size = rng.randint(2, 7) if not big else rng.choice([9, 12, 16, 20, 24, 40, 53, 65])
    if big and kind == 'full':
        kind = 'tree'
    edges = graph(rng, size, kind)
    relabel = list(range(size))
    if rng.random() < 0.6:
        rng.shuffle(relabel)
    edges = [[relabel[a], relabel[b]] for a, b in edges]
    dead = []
    if len(edges) > 2 and rng.random() < 0.3:
        for _ in range(rng.choice([1, 1, 2])):
            if len(edges) > 2:
                dead.append(edges.pop(rng.randrange(len(edges))))
    rng.shuffle(edges)
    direct = rng.choice(['both', 'both', 'one', 'mixed'])
    out = []
    for a, b in edges:
        if rng.random() < 0.5:
            a, b = b, a
        out.append([a, b])
        if direct == 'both' or direct == 'mixed' and rng.random() < 0.5:
            out.append([b, a])
    if rng.random() < 0.5:
        rng.shuffle(out)
    return {'size': size, 'kind': kind, 'cmap': out, 'dead': len(dead), 'direct': direct, 'cal': rng.randrange(1 << 30), 'sorted': rng.random() < 0.7, 'basis': rng.choice(['u', 'u', 'rz'])}


def gen(rng, tier):
    big = rng.random() < 0.35
    devs = [gen_device(rng, big) for _ in range(rng.choice([1, 1, 2]))]
    ops = []
    if not big:
        for _ in range(rng.choice([1, 1, 2])):
            ops.append({'dev': rng.randrange(len(devs)), 'kind': rng.choice(['layout', 'plain', 'simple', 'mqc', 'mqc', 'mqc_para', 'po', 'po', 'po_para', 'fourier']),
                        'n': rng.randint(2, 5) if rng.random() < 0.9 else 6, 'delta': rng.choice([rng.uniform(-4, 4), 0.0, np.pi / 4, np.pi]), 'full': rng.random() < 0.7,
                        'recal': rng.random() < 0.3, 'barriered': rng.random() < 0.7})
    return {'devs': devs, 'ops': ops, 'linear': [{'kind': rng.choice(['simple', 'mqc', 'mqc_para', 'po', 'po_para', 'fourier', 'mfourier']), 'n': rng.randint(2, 5), 'delta': rng.uniform(-4, 4), 'full': rng.random() < 0.7}
                                                 for _ in range(rng.choice([0, 1, 2]))],
            'noise': rng.choice([0.0, 0.0, 0.02, 0.1, 0.3]), 'tilt': rng.choice([0.0, 0.0, rng.uniform(-0.5, 0.5)]), 'readout': rng.choice([0.0, 0.05, 0.2]), 'plan': rng.randrange(1 << 30)}


def shrink(spec):
    yield from core.drop_from_list(spec, ['ops'])
    yield from core.drop_from_list(spec, ['linear'])
    yield from core.set_value(spec, ['noise'], 0.0)
    yield from core.set_value(spec, ['readout'], 0.0)
    yield from core.set_value(spec, ['tilt'], 0.0)
    for k, d in enumerate(spec['devs']):
        if len(d['cmap']) > 2:
            yield from core.drop_from_list(spec, ['devs', k, 'cmap'])
    for k in range(len(spec['ops'])):
        yield from core.set_value(spec, ['ops', k, 'recal'], False)
        yield from core.set_value(spec, ['ops', k, 'n'], 2)
    if len(spec['devs']) > 1 and not any(o['dev'] for o in spec['ops']):
        yield dict(spec, devs=spec['devs'][:1])


def nontrivial(spec, out):
    return bool(out['faults']) or len(spec['devs']) > 1


_BACKEND = {}


def backend_class():
    if 'c' not in _BACKEND:
        from qiskit.providers import BackendV1, Options

        class SimBackend(BackendV1):
            """What a provider knows about a device."""

            def __init__(self, configuration):
                super().__init__(configuration)
                self.known = None
                self.asked = 0

            def properties(self):
                self.asked += 1
                return self.known

            @classmethod
            def _default_options(cls):
                return Options()

            def run(self, *args, **kwargs):
                raise NotImplementedError
        _BACKEND['c'] = SimBackend
    return _BACKEND['c']


def make_backend(d):
    from qiskit.providers.models import QasmBackendConfiguration
    basis = ['u1', 'u2', 'u3', 'cx', 'id'] if d['basis'] == 'u' else ['rz', 'sx', 'x', 'cx', 'id']
    cmap = [list(e) for e in d['cmap']]
    return backend_class()(QasmBackendConfiguration.from_dict({
        'backend_name': 'simdev', 'backend_version': '1.0.0', 'n_qubits': d['size'], 'basis_gates': basis, 'simulator': False, 'local': True, 'conditional': False, 'open_pulse': False,
        'memory': False, 'max_shots': 8192, 'coupling_map': cmap, 'gates': [{'name': 'cx', 'parameters': [], 'qasm_def': '', 'coupling_map': cmap}]}))


def calibrate(b, d, seed):
    """New error rates, the same in both directions of a coupling, all different. Returns them by pair."""
    import datetime
    from qiskit.providers.models import BackendProperties
    rng = random.Random(seed)
    t = datetime.datetime(2020, 1, 1)
    pairs = sorted({tuple(sorted(e)) for e in d['cmap']})
    val = {p: 0.001 * (k + 1) for p, k in zip(pairs, rng.sample(range(3 * len(pairs)), len(pairs)))}
    par = lambda e, l: [{'date': t, 'name': 'gate_error', 'unit': '', 'value': e}, {'date': t, 'name': 'gate_length', 'unit': 'ns', 'value': l}]
    gates = [{'gate': 'cx', 'qubits': list(e), 'parameters': par(val[tuple(sorted(e))], 100.0 + rng.randrange(500))} for e in d['cmap']]
    one = [{'gate': 'u3', 'qubits': [q], 'parameters': par(1e-3, 30.0)} for q in range(d['size'])]
    gates = one + gates if rng.random() < 0.5 else gates + one
    b.known = BackendProperties.from_dict({'backend_name': 'simdev', 'backend_version': '1.0.0', 'last_update_date': t, 'qubits': [[{'date': t, 'name': 'T1', 'unit': 'us', 'value': 50.0}]] * d['size'],
                                           'gates': gates, 'general': []})
    return val


def reachable(d, root):
    adj = {}
    for a, b in d['cmap']:
        adj.setdefault(a, set()).add(b)
        adj.setdefault(b, set()).add(a)
    seen, todo = {root}, [root]
    while todo:
        for x in adj[todo.pop()]:
            if x not in seen:
                seen.add(x)
                todo.append(x)
    return seen, adj


def check_tiers(ctx, d, tiers, err, is_sorted):
    """The plan: which coupling is used at which step."""
    steps = sorted(tiers)
    ctx.check(steps == list(range(len(steps))) and steps, 'plan', lambda: 'the steps are numbered %s' % steps)
    root = tiers[0][0][0]
    comp, adj = reachable(d, root)
    ctx.check(len(adj[root]) == max(len(v) for v in adj.values()), 'plan', lambda: 'the plan starts at qubit %d with %d couplings' % (root, len(adj[root])))
    when = {root: -1}
    kids = {}
    for s in steps:
        busy = set()
        new = []
        for pair in tiers[s]:
            ctx.check(len(pair) == 2, 'plan', 'step %d holds %s' % (s, pair))
            a, b = pair
            ctx.check(b in adj.get(a, ()), 'plan', lambda: 'step %d couples qubits %s, which the device does not' % (s, pair))
            ctx.check(a in when and when[a] < s, 'plan', lambda: 'step %d uses qubit %d, which is not entangled yet' % (s, a))
            ctx.check(b not in when and b not in [x[1] for x in new], 'plan', lambda: 'qubit %d is entangled twice' % b)
            ctx.check(a not in busy and b not in busy, 'plan', lambda: 'step %d uses a qubit twice: %s' % (s, tiers[s]))
            busy |= {a, b}
            new.append((a, b))
        for a, b in new:
            when[b] = s
            kids.setdefault(a, []).append((s, b))
    ctx.check(set(when) == comp, 'plan-incomplete', lambda: 'the plan leaves out qubits %s, which are connected to qubit %d' % (sorted(comp - set(when)), root))
    for a, l in kids.items():
        ctx.check([s for s, _ in l] == [when[a] + 1 + k for k in range(len(l))], 'plan-idle', lambda: 'qubit %d, entangled at step %d, entangles others at steps %s' % (a, when[a], [s for s, _ in l]))
        if is_sorted:
            e = [err[tuple(sorted((a, b)))] for _, b in l]
            ctx.check(e == sorted(e), 'plan-order', lambda: 'qubit %d entangles %s, with error rates %s' % (a, [b for _, b in l], e))
    return root, len(comp)


def compact(circ, keep):
    """The circuit without the idle qubits; keep: physical qubits that stay, in this order."""
    from qiskit import QuantumCircuit
    idx = {q: i for i, q in enumerate(circ.qubits)}
    order = list(keep)
    for inst, qargs, _ in circ.data:
        if inst.name != 'barrier':
            order += [idx[q] for q in qargs if idx[q] not in order]
    new = QuantumCircuit(len(order), circ.num_clbits) if circ.num_clbits else QuantumCircuit(len(order))
    ci = {c: i for i, c in enumerate(circ.clbits)}
    for inst, qargs, cargs in circ.data:
        if inst.name == 'barrier':
            qs = [order.index(idx[q]) for q in qargs if idx[q] in order]
            new.barrier(qs)
        else:
            new.append(inst, [order.index(idx[q]) for q in qargs], [ci[c] for c in cargs])
    return new, order


def channel(p, tilt):
    """Depolarising noise, and a phase error of the second qubit, after every two-qubit gate."""
    if not p and not tilt:
        return lambda k, inst, qs: None
    rz = np.diag([1, np.exp(1j * tilt)])

    def dep(rho, qs, n):
        rho = dv.dm_apply(rho, rz, [qs[1]], n)
        if not p:
            return rho
        full = sum(dv.dm_apply(dv.dm_apply(rho, dv.PAULI[a], [qs[0]], n), dv.PAULI[b], [qs[1]], n) for a in 'IXYZ' for b in 'IXYZ') / 16
        return (1 - p) * rho + p * full
    return lambda k, inst, qs: [(dep, qs)] if len(qs) == 2 and inst.name != 'barrier' else None


def ghz(n):
    psi = np.zeros(2 ** n, dtype=complex)
    psi[0] = psi[-1] = np.sqrt(0.5)
    return np.outer(psi, psi.conj())


def rotated_probs(rho, delta, n):
    """Outcome distribution of the parity oscillation: each qubit turned by u2(delta, -delta), then measured."""
    u1 = np.array([[1, -np.exp(-1j * delta)], [np.exp(1j * delta), 1]]) / np.sqrt(2)
    u = np.eye(1)
    for _ in range(n):
        u = np.kron(u1, u)
    return np.real(np.diag(u @ rho @ u.conj().T))


def mqc_probs(ideal_prep, noisy, delta, n):
    """Same for multiple quantum coherences: phase, flips, preparation undone; noisy(circuit) gives the distribution."""
    from qiskit import QuantumCircuit
    c = QuantumCircuit(ideal_prep.num_qubits, n)
    body = [x for x in ideal_prep.data if x[0].name != 'barrier']
    idx = {q: i for i, q in enumerate(ideal_prep.qubits)}
    for inst, qargs, _ in body:
        c.append(inst, [idx[q] for q in qargs])
    for q in range(n):
        c.u1(delta, q)
        c.x(q)
    for inst, qargs, _ in reversed(body):
        c.append(inst.inverse(), [idx[q] for q in qargs])
    return c


def vec(probs, n):
    return np.array([probs.get(k, 0.0) for k in range(2 ** n)])


def near(a, b, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) < tol))


class World:
    def __init__(self, spec, ctx):
        self.spec, self.ctx = spec, ctx
        self.noise = channel(spec['noise'], spec['tilt'])
        self.clean = not spec['noise'] and not spec['tilt']
        self.amb = random.Random(spec['plan'])
        if spec['noise']:
            ctx.fault('depolarising')
        if spec['tilt']:
            ctx.fault('phase_error')

    def dist(self, circ):
        return dv.Device(channel=self.noise).probs(circ)

    def state(self, circ, n):
        m = circ.num_qubits
        rho = dv.Device(channel=self.noise).final_state(circ)
        return dv.reduced(rho, list(range(n)), m)


def judge(w, what, kind, op, prep, circ, n):
    """One experiment: prep and circ (its idle qubits removed), qubit i of the register is qubit i."""
    ctx = w.ctx
    full = op['full'] or kind in ('po', 'po_para')
    bits = n if full else 1
    ctx.check(circ.num_clbits == bits, 'bits', lambda: '%s has %d classical bits for %d qubits' % (what, circ.num_clbits, bits))
    got = w.dist(circ)
    rho = w.state(prep, n)
    if kind == 'simple':
        want = np.real(np.diag(rho))
    elif kind in ('po', 'po_para'):
        want = rotated_probs(rho, op['delta'], n)
    else:
        ref = mqc_probs(prep, None, op['delta'], n)
        back = w.state(ref, n)
        want = np.real(np.diag(back))
        if w.clean:
            ctx.check(abs(want[0] - (1 + np.cos(n * op['delta'])) / 2) < 1e-8, 'no-ghz', 'the undone preparation does not interfere as a GHZ state does')
    if not full:
        want = np.array([want[0::2].sum(), want[1::2].sum()])
    ctx.check(near(vec(got, bits), want, 1e-8), 'wrong-distribution', lambda: '%s, phase %.3f: the outcomes have probabilities %s, should be %s' % (what, op['delta'], np.round(vec(got, bits), 4), np.round(want, 4)))


def analyse(w, what, label, n, series, rho):
    """Phase series -> the numbers reported. series(delta): distribution over n bits."""
    from qiskit.ignis.verification.entanglement import analysis as an
    ctx, spec = w.ctx, w.spec
    N = 2 * n + w.amb.choice([1, 2, 3, 6])
    x = np.linspace(0, 2 * np.pi, N, endpoint=False)
    flip = np.array([[1 - spec['readout'], spec['readout'] / 2], [spec['readout'], 1 - spec['readout'] / 2]])
    if spec['readout']:
        ctx.fault('readout')
    ro = np.eye(1)
    for _ in range(n):
        ro = np.kron(flip, ro)
    y, y_m = [], []
    sign = np.array([(-1) ** bin(k).count('1') for k in range(2 ** n)])
    for delta in x:
        clean = vec(series(float(delta)), n)
        for dest, p in ((y, ro @ clean), (y_m, clean)):
            counts = {format(k, '0%db' % n): float(v) for k, v in enumerate(p) if v > 1e-12}
            if w.amb.random() < 0.5:
                items = list(counts.items())
                w.amb.shuffle(items)
                counts = dict(items)
            if label == 'po':
                keep = dict(counts)
                val = ctx.sut('composite_pauli_z_expvalue', an.composite_pauli_z_expvalue, counts, n)
                ctx.check(counts == keep, 'input-changed', 'the counts were changed')
                ctx.check(abs(val - float(sign @ p)) < 1e-9, 'wrong-parity', lambda: 'the parity of %s is %.6f, reported %.6f' % (counts, float(sign @ p), val))
                dest.append(val)
            else:
                dest.append(counts.get('0' * n, 0.0))
    diag = np.real(np.diag(rho))
    raw = ro @ diag
    pd = {'P0': raw[0], 'P1': raw[-1], 'P0_m': diag[0], 'P1_m': diag[-1]}
    from matplotlib import pyplot as plt
    keep = (list(y), list(y_m), dict(pd))
    with contextlib.redirect_stdout(io.StringIO()) as said:
        plot = an.Plotter(label)
        if w.amb.random() < 0.3:
            ctx.sut('sin_plotter', plot.sin_plotter, x, np.array(y), w.amb.choice([None, np.array(y_m)]))
        info = ctx.sut('get_fourier_info', plot.get_fourier_info, n, x, np.array(y), np.array(y_m), pd)
    plt.close('all')
    ctx.check((list(y), list(y_m), pd) == keep, 'input-changed', 'the series handed in were changed')
    said = said.getvalue()

    def amp(s, k):
        return sum(v * np.exp(-1j * k * d) for v, d in zip(s, x)) / N
    want = {'In': amp(y, n), 'In_m': amp(y_m, n)}
    if label == 'po':
        want['F'] = (raw[0] + raw[-1]) / 2 + abs(want['In'])
        true = (diag[0] + diag[-1] + 2 * abs(rho[0, -1])) / 2
        want['F_m'] = true
    else:
        for s, t in (('', y), ('_m', y_m)):
            i0, i_n = abs(amp(t, 0)), abs(want['In' + s])
            want['I0' + s] = amp(t, 0)
            want['LB' + s] = 2 * np.sqrt(i_n)
            want['UB' + s] = np.sqrt(i_n) + np.sqrt(i0 / 2)
        want['F'] = (raw[0] + raw[-1]) / 2 + np.sqrt(abs(want['In']))
        want['F_m'] = (diag[0] + diag[-1]) / 2 + np.sqrt(abs(want['In_m']))
        if w.clean:
            ctx.check(abs(info['F_m'] - 1) < 1e-6 and abs(info['LB_m'] - 1) < 1e-6 and abs(info['UB_m'] - 1) < 1e-6, 'wrong-fidelity', lambda: 'a perfect GHZ state is given fidelity %s within %s..%s' % (info['F_m'], info['LB_m'], info['UB_m']))
    for k, v in want.items():
        ctx.check(k in info and abs(info[k] - v) < 1e-7, 'wrong-fidelity', lambda: '%s (%s): %s is %s, should be %s' % (what, label, k, info.get(k), v))
    for k in ('F', 'F_m'):
        ctx.check(str(round(float(info[k]), 3)) in said, 'wrong-report', lambda: 'the printed report does not mention %s = %s: %s' % (k, info[k], said))
    f = ctx.sut('rho_to_fidelity', an.rho_to_fidelity, rho)
    ctx.check(abs(f - (diag[0] + diag[-1] + 2 * abs(rho[0, -1])) / 2) < 1e-9, 'wrong-fidelity', lambda: 'rho_to_fidelity gives %s' % f)
    ctx.event('fidelity', label, round(float(info['F_m']), 5))


def bind(circ, par, delta):
    if isinstance(par, (list, tuple)):
        return circ.bind_parameters({par[0]: delta, par[1]: -delta})
    return circ.bind_parameters({par: delta})


def run_linear(w, op):
    from qiskit.ignis.verification.entanglement import linear as lin
    ctx, n, kind = w.ctx, op['n'], op['kind']
    prep = ctx.sut('get_ghz_simple', lin.get_ghz_simple, n, measure=False)
    prep, _ = compact(prep, range(n))
    if w.clean:
        ctx.check(near(w.state(prep, n), ghz(n), 1e-8), 'no-ghz', 'the linear circuit does not prepare a GHZ state')
    ctx.check(all(len(q) < 3 for i, q, _ in prep.data if i.name != 'barrier'), 'no-ghz', 'gates on more than two qubits')
    if kind in ('fourier', 'mfourier'):
        label = 'po' if kind == 'fourier' else 'mqc'
        make = lin.get_ghz_po if label == 'po' else lin.get_ghz_mqc
        analyse(w, 'linear', label, n, lambda d: w.dist(compact(ctx.sut('get_ghz_%s' % label, make, n, d), range(n))[0]), w.state(prep, n))
        return
    if kind == 'simple':
        circ = ctx.sut('get_ghz_simple', lin.get_ghz_simple, n, full_measurement=op['full'])
    elif kind == 'mqc':
        circ = ctx.sut('get_ghz_mqc', lin.get_ghz_mqc, n, op['delta'], op['full'])
    elif kind == 'po':
        circ = ctx.sut('get_ghz_po', lin.get_ghz_po, n, op['delta'])
    elif kind == 'mqc_para':
        circ = bind(*ctx.sut('get_ghz_mqc_para', lin.get_ghz_mqc_para, n, op['full']), op['delta'])
    else:
        circ = bind(*ctx.sut('get_ghz_po_para', lin.get_ghz_po_para, n), op['delta'])
    circ, order = compact(circ, range(n))
    ctx.check(order == list(range(n)), 'wrong-qubits', 'the circuit has %d qubits' % len(order))
    judge(w, 'linear %s' % kind, kind, op, prep, circ, n)
    ctx.state('linear', kind, n, op['full'])
    ctx.event('linear', kind, n)


def run(spec, ctx):
    from qiskit.ignis.verification.entanglement.parallelize import BConfig
    w = World(spec, ctx)
    dv.scramble_globals(w.amb)
    confs = []
    for d in spec['devs']:
        if not d['cmap']:
            return
        b = make_backend(d)
        err = calibrate(b, d, d['cal'])
        if d['dead']:
            ctx.fault('dead_coupling', d['dead'])
        conf = ctx.sut('BConfig', BConfig, b, d['sorted']) if w.amb.random() < 0.5 or not d['sorted'] else ctx.sut('BConfig', BConfig, b)
        confs.append([d, b, conf, err])
    for k, c in enumerate(confs):
        d, b, conf, err = c
        tiers = ctx.sut('get_tier_dict', conf.get_tier_dict)
        root, width = check_tiers(ctx, d, tiers, err, d['sorted'])
        ctx.state(d['kind'], d['size'], len(d['cmap']), d['direct'], d['sorted'], len(tiers))
        ctx.event('plan', d['size'], root, len(tiers))
        c += [tiers, width]
    for op in spec['ops']:
        k = min(op['dev'], len(confs) - 1)
        d, b, conf, err, tiers, width = confs[k]
        n = min(op['n'], width)
        if op['recal']:
            ctx.fault('recalibration')
            confs[k][3] = err = calibrate(b, d, d['cal'] + 1 + op['n'])
            confs[k][4] = tiers = ctx.sut('get_tier_dict', conf.get_tier_dict)
            check_tiers(ctx, d, tiers, err, d['sorted'])
        build(w, d, conf, op, n, width == d['size'])
    for op in spec['linear']:
        run_linear(w, op)
    for d, b, conf, err, tiers, width in confs:
        again = ctx.sut('get_tier_dict', conf.get_tier_dict)
        ctx.check(again == tiers, 'configurations-mixed', 'the plan of a device changed while others were used')
        ctx.check([list(e) for e in b.configuration().coupling_map] == [list(e) for e in d['cmap']], 'input-changed', 'the coupling map of the backend was changed')


def layout_of(ctx, what, d, layout, n):
    """Physical qubit of each register index."""
    by = {q.index: p for q, p in layout.items()}
    ctx.check(sorted(by) == list(range(n)) and len(set(by.values())) == n and len(layout) == n, 'layout', lambda: '%s: the layout is %s' % (what, by))
    return [by[i] for i in range(n)]


def on_device(ctx, what, d, circ, phys):
    """A transpiled circuit only uses couplings of the device, in the directions it has."""
    idx = {q: i for i, q in enumerate(circ.qubits)}
    have = {tuple(e) for e in d['cmap']}
    basis = {'u': {'u1', 'u2', 'u3', 'cx', 'id', 'p', 'u'}, 'rz': {'rz', 'sx', 'x', 'cx', 'id', 'sxdg', 'p', 'u1'}}[d['basis']]
    for inst, qargs, _ in circ.data:
        if inst.name == 'barrier':
            continue
        qs = tuple(idx[q] for q in qargs)
        ctx.check(set(qs) <= set(phys), 'wrong-qubits', lambda: '%s: a gate acts on qubits %s, the layout is %s' % (what, qs, phys))
        if len(qs) == 2:
            ctx.check(qs in have, 'no-coupling', lambda: '%s: %s on qubits %s, which the device does not couple in that direction' % (what, inst.name, qs))
    ctx.check(circ.num_qubits == d['size'], 'wrong-qubits', lambda: '%s has %d qubits, the device %d' % (what, circ.num_qubits, d['size']))
    return basis


def untranspiled(ctx, d, c2, phys, n):
    have = {tuple(sorted(e)) for e in d['cmap']}
    idx = {q: i for i, q in enumerate(c2.qubits)}
    for inst, qargs, _ in c2.data:
        if len(qargs) == 2 and inst.name != 'barrier':
            pair = tuple(sorted(phys[idx[q]] for q in qargs))
            ctx.check(pair in have, 'no-coupling', lambda: 'qubits %s are not coupled' % (pair,))
    ctx.check(c2.num_qubits == n, 'layout', 'the circuit before transpilation has %d qubits' % c2.num_qubits)
    plain = dv.reduced(dv.Device().final_state(compact(c2, range(n))[0]), list(range(n)), n)
    ctx.check(near(plain, ghz(n), 1e-8), 'no-ghz', 'the circuit before transpilation does not prepare a GHZ state')
    ctx.event('built', 'untranspiled', n)


def build(w, d, conf, op, n, whole):
    ctx, kind = w.ctx, op['kind']
    what = 'get_ghz_%s(%d)' % (kind, n)
    if not whole:                        # the transpiler refuses devices in several parts
        c2, l2 = ctx.sut('get_ghz_layout', conf.get_ghz_layout, n, False, op['barriered'])
        untranspiled(ctx, d, c2, layout_of(ctx, what, d, l2, n), n)
        return
    circ, layout = ctx.sut('get_ghz_layout', conf.get_ghz_layout, n, True, op['barriered']) if kind == 'layout' else ctx.sut('get_ghz_layout', conf.get_ghz_layout, n)
    phys = layout_of(ctx, what, d, layout, n)
    on_device(ctx, what, d, circ, phys)
    prep, _ = compact(circ, phys)
    rho = w.state(prep, n)
    if w.clean:
        ctx.check(near(rho, ghz(n), 1e-8), 'no-ghz', lambda: 'the circuit on qubits %s does not prepare a GHZ state' % phys)
    ctx.state(d['kind'], d['size'], n, kind, d['basis'], bool(w.spec['noise']), op['full'])
    if kind == 'plain':
        c2, l2 = ctx.sut('get_ghz_layout', conf.get_ghz_layout, n, False, op['barriered'])
        ctx.check(layout_of(ctx, what, d, l2, n) == phys, 'layout', 'the circuit before transpilation has another layout')
        untranspiled(ctx, d, c2, phys, n)
        return
    if kind == 'layout':
        ctx.event('built', kind, n)
        return
    if kind == 'fourier':
        label = w.amb.choice(['po', 'mqc'])
        if label == 'po':
            pc, par, _ = ctx.sut('get_ghz_po_para', conf.get_ghz_po_para, n)
        else:
            pc, par, _ = ctx.sut('get_ghz_mqc_para', conf.get_ghz_mqc_para, n)
        analyse(w, what, label, n, lambda x: w.dist(compact(bind(pc, par, x), phys)[0]), rho)
        return
    if kind == 'simple':
        c2, q, l2 = ctx.sut(what, conf.get_ghz_simple, n, op['full'])
        ctx.check(len(q) == n, 'layout', 'the register returned has %d qubits' % len(q))
    elif kind == 'mqc':
        c2, l2 = ctx.sut(what, conf.get_ghz_mqc, n, op['delta'], op['full'])
    elif kind == 'po':
        c2, l2 = ctx.sut(what, conf.get_ghz_po, n, op['delta'])
    elif kind == 'mqc_para':
        c2, par, l2 = ctx.sut(what, conf.get_ghz_mqc_para, n, op['full'])
        c2 = bind(c2, par, op['delta'])
    else:
        c2, par, l2 = ctx.sut(what, conf.get_ghz_po_para, n)
        c2 = bind(c2, par, op['delta'])
    ctx.check(layout_of(ctx, what, d, l2, n) == phys, 'layout', '%s has another layout than get_ghz_layout' % what)
    on_device(ctx, what, d, c2, phys)
    c2, order = compact(c2, phys)
    judge(w, what, kind, op, prep, c2, n)
    ctx.event('built', kind, n)

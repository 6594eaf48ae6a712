"""A01: accreditation accepts a run exactly when no trap shows a fault."""
import random

import numpy as np

from sim import core
from sim.device import Device, exp_of, result_of, sample_shots, scramble_globals, tvd

PROP = 'A01'
RUNS = {'quick': 1500, 'thorough': 30000}
RULE = ('A run draws a target circuit (1-3 qubits, cx or cz, any measurement order, part of the qubits measured, barriers, sometimes a coupling map), generates 1-4 protocol runs, '
        'executes every circuit shot by shot with Pauli and readout faults injected at random places of random circuits, and feeds the runs, mixed with malformed ones, in different '
        'orders to two or three fitters living at once; non-trivial when a trap was hit by a fault.')
STATE_MEASURE = 'distinct (target size, two-qubit gate, two-qubit layers, traps, runs accepted and rejected, malformed kinds)'
COMPONENTS = {'real': ['AccreditationCircuits', 'AccreditationFitter', 'QOTP, QOTPCorrectCounts, layer_parser', 'qiskit-terra transpiler'],
              'stub': ['quantum device (state vectors) with Pauli and readout faults', 'job service', 'process-wide random generators']}
ASSUMPTIONS = ['Targets use one quantum and one classical register and measure at the end.']


def gen(rng, tier):
    n = rng.choice([1, 2, 2, 3, 3]) if rng.random() < 0.96 else 4
    ops = []
    for _ in range(rng.randint(0, 7)):
        g = rng.choice(['h', 's', 't', 'x', 'rx', 'u3', 'cx', 'cx', 'cz', 'barrier'])
        if g in ('cx', 'cz'):
            if n > 1:
                ops.append([g, rng.sample(range(n), 2), []])
        elif g == 'barrier':
            ops.append([g, list(range(n)), []])
        else:
            ops.append([g, [rng.randrange(n)], [round(rng.uniform(0, 6.28), 4) for _ in range({'rx': 1, 'u3': 3}.get(g, 0))]])
    m = n if rng.random() < 0.7 else rng.randint(1, n)
    qs = rng.sample(range(n), m)
    nc = m + (rng.random() < 0.15)
    cs = rng.sample(range(nc), m)
    if rng.random() < 0.4:
        qs, cs = sorted(qs), sorted(cs)
    coupling = None
    if n > 1 and rng.random() < 0.25:
        size = n + rng.choice([0, 1])
        coupling = [[a, a + 1] for a in range(size - 1)] + ([[a + 1, a] for a in range(size - 1)] if rng.random() < 0.5 else [])
    runs = []
    for _ in range(rng.choice([1, 2, 3, 4] if rng.random() < 0.95 else [9, 12])):
        runs.append({'faults': [[rng.random(), rng.random(), rng.random(), rng.choice('XYZ')] for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))]})
    return {'n': n, 'ops': ops, 'meas': [[q, c] for q, c in zip(qs, cs)], 'nc': nc, 'gate': rng.choice(['cx', 'cz']), 'coupling': coupling, 'traps': rng.choice([3, 3, 4, 5] if rng.random() < 0.93 else [7, 10]),
            'runs': runs, 'malformed': [rng.choice(['shots', 'spread', 'fewer', 'missing', 'two_traps']) for _ in range(rng.choice([0, 1, 2]))],
            'seed': rng.choice([None, 0, rng.randrange(1 << 30)]), 'theta': rng.choice([0.05, 0.2, 0.5]), 'plan': rng.randrange(1 << 30), 'one_object': rng.random() < 0.7,
            'bound_between': rng.random() < 0.5, 'qotp': rng.random() < 0.3}


def shrink(spec):
    yield from core.drop_from_list(spec, ['ops'])
    if len(spec['runs']) > 1:
        yield from core.drop_from_list(spec, ['runs'])
    yield from core.drop_from_list(spec, ['malformed'])
    for k in range(len(spec['runs'])):
        yield from core.drop_from_list(spec, ['runs', k, 'faults'])
    yield from core.set_value(spec, ['coupling'], None)
    yield from core.set_value(spec, ['traps'], 3)


def nontrivial(spec, out):
    return out['probes'].get('trap_hit', 0) > 0


def target(spec):
    from qiskit import QuantumCircuit, QuantumRegister, ClassicalRegister
    qc = QuantumCircuit(QuantumRegister(spec['n'], 'q'), ClassicalRegister(spec['nc'], 'c'))
    for name, qs, ps in spec['ops']:
        if name == 'barrier':
            qc.barrier()
        else:
            getattr(qc, name)(*ps, *qs)
    for q, c in spec['meas']:
        qc.measure(q, c)
    return qc


def xor_dist(dist, postp, nc):
    mask = int(''.join(str(int(b)) for b in postp), 2)
    return {o ^ mask: p for o, p in dist.items()}


def run(spec, ctx):
    import qiskit.ignis.verification.accreditation as accred
    amb = random.Random(spec['plan'])
    qc = target(spec)
    ideal = Device().probs(qc)
    before = [(i.name, [q.index for q in qa], [c.index for c in ca]) for i, qa, ca in qc.data]
    kw = dict(two_qubit_gate=spec['gate'], coupling_map=[list(c) for c in spec['coupling']] if spec['coupling'] else None, seed=spec['seed'])
    scramble_globals(amb)
    gen_ = ctx.sut('AccreditationCircuits', accred.AccreditationCircuits, qc, **kw)
    ctx.check([(i.name, [q.index for q in qa], [c.index for c in ca]) for i, qa, ca in qc.data] == before, 'input-changed', 'the target circuit was changed')
    protocol, layers = [], 0
    for r, rs in enumerate(spec['runs']):
        scramble_globals(amb)
        circs, postps, v0 = ctx.sut('generate_circuits', gen_.generate_circuits, spec['traps'])
        ctx.check(len(circs) == len(postps) == spec['traps'] + 1 and 0 <= v0 <= spec['traps'], 'circuit-count', '%d circuits, %d pads, target %d for %d traps' % (len(circs), len(postps), v0, spec['traps']))
        clean = []
        for k, (c, p) in enumerate(zip(circs, postps)):
            ctx.check(c.num_clbits == len(p) == spec['nc'], 'pad-length', 'circuit %d has %d classical bits and a pad of %d' % (k, c.num_clbits, len(p)))
            ctx.check([c.clbits.index(ca[0]) for i, _, ca in c.data if i.name == 'measure'] != [], 'no-measurement', 'circuit %d has no measurement' % k)
            dist = Device().probs(c)
            fixed = xor_dist(dist, p, spec['nc'])
            if k == v0:
                ctx.check(tvd(fixed, ideal) < 1e-9, 'target-changed', lambda: 'the padded target gives %s after the pad is removed, the target %s' % (rounded(fixed), rounded(ideal)))
                layers = sum(1 for i, _, _ in c.data if i.name == 'barrier') // 2
            else:
                ctx.check(abs(fixed.get(0, 0.0) - 1) < 1e-9, 'trap-not-zero', lambda: 'trap %d gives %s after the pad is removed, without any fault' % (k, rounded(fixed)))
            ops = [i.name for i, _, _ in c.data]
            clean.append((dist, ops))
        # the entangling structure of traps and target agrees: the traps test the target's gates
        skel = {tuple((i.name, tuple(c.qubits.index(q) for q in qa)) for i, qa, _ in c.data if i.name in ('cx', 'cz')) for c in circs}
        ctx.check(len(skel) == 1, 'trap-structure', lambda: 'traps and target have different two-qubit gates: %s' % sorted(skel))
        protocol.append((circs, postps, v0, clean))
    # execution with faults
    records = []
    for (circs, postps, v0, clean), rs in zip(protocol, spec['runs']):
        hits = {}
        for a, b, c, pauli in rs['faults']:
            k = int(a * len(circs))
            places = [i for i, (inst, _, _) in enumerate(circs[k].data) if inst.name != 'measure']
            if places:
                hits.setdefault(k, []).append((places[int(b * len(places))], int(c * circs[k].num_qubits), pauli))
        exps, reject = [], False
        for k, c in enumerate(circs):
            if k in hits:
                todo = hits[k]
                dev = Device(pauli=lambda i, inst, qs: [(p, q) for at, q, p in todo if at == i])        # pylint: disable=cell-var-from-loop
                dist = dev.probs(c)
                ctx.fault('pauli', len(todo))
            else:
                dist = clean[k][0]
            counts = sample_shots(dist, 1, amb)
            exps.append(exp_of(c, counts, name='run%d' % k))
            out = next(iter(counts))
            if k != v0:
                if out != next(iter(clean[k][0])):
                    reject = True
                    ctx.probe('trap_hit')
                elif k in hits:
                    ctx.probe('harmless_fault')
            else:
                mask = int(''.join(str(int(b)) for b in postps[k]), 2)
                answer = format(out ^ mask, '0%db' % spec['nc'])
        records.append({'exps': exps, 'postps': postps, 'v0': v0, 'reject': reject, 'answer': answer})
    # analysis: fitters living at once, each given the same runs in its own order
    ways = []
    for _ in range(amb.choice([2, 2, 3])):
        order = list(range(len(records)))
        amb.shuffle(order)
        ways.append(order)
    fitters = [ctx.sut('AccreditationFitter', accred.AccreditationFitter) for _ in ways]
    state = [{'runs': 0, 'acc': 0, 'out': []} for _ in ways]
    todo = [list(w) for w in ways]
    while any(todo):
        w = amb.choice([i for i, t in enumerate(todo) if t])
        f, st = fitters[w], state[w]
        if spec['malformed'] and amb.random() < 0.4:
            malformed(ctx, f, st, records[todo[w][0]], amb.choice(spec['malformed']))
        rec = records[todo[w].pop(0)]
        ctx.sut('single_protocol_run', f.single_protocol_run, result_of(rec['exps']), pads(rec['postps'], amb), rec['v0'])
        st['runs'] += 1
        ctx.check(f.flag == ('rejected' if rec['reject'] else 'accepted'), 'wrong-verdict', lambda: 'a run %s was %s' % (
            'with a trap outcome changed by faults' if rec['reject'] else 'whose trap outcomes are fault-free', f.flag))
        if not rec['reject']:
            st['acc'] += 1
            st['out'].append(rec['answer'])
        counts_ok(ctx, f, st, w)
        if spec['bound_between']:
            bound(ctx, f, st, spec, amb.choice([spec['theta'], 0.05, 0.9]))
    for w, (f, st) in enumerate(zip(fitters, state)):
        counts_ok(ctx, f, st, w)
        bound(ctx, f, st, spec, spec['theta'])
    conf = {(float(f.bound), float(f.confidence)) for f, s in zip(fitters, state) if s['acc']}
    ctx.check(len(conf) <= 1, 'history-dependent', lambda: 'bound and confidence depend on the order of the runs: %s' % conf)
    ctx.state(spec['n'], spec['gate'], layers, spec['traps'], state[0]['acc'], state[0]['runs'], sorted(set(spec['malformed'])))
    ctx.event('accepted', [(s['acc'], sorted(s['out'])) for s in state])
    if spec['qotp']:
        qotp(spec, ctx, accred, qc, ideal, kw, amb)


def rounded(d):
    return {k: round(v, 5) for k, v in sorted(d.items()) if v > 1e-9}


def pads(postps, rng):
    """Pads travel as arrays or, after storage, as lists."""
    return [p.tolist() if hasattr(p, 'tolist') and rng.random() < 0.5 else p for p in postps]


def counts_ok(ctx, f, st, w):
    ctx.check(f.num_runs == st['runs'] and f.N_acc == st['acc'], 'acceptance-count', lambda: 'fitter %d counts %s of %s runs as accepted, given were %d of %d' % (w, f.N_acc, f.num_runs, st['acc'], st['runs']))
    ctx.check(list(f.outputs) == st['out'], 'accepted-outputs', lambda: 'fitter %d holds outputs %s, accepted were %s' % (w, f.outputs, st['out']))


def bound(ctx, f, st, spec, theta):
    if st['acc'] == 0:
        ctx.refuses('bound_variation_distance without accepted runs', f.bound_variation_distance, theta)
        return
    ctx.sut('bound_variation_distance', f.bound_variation_distance, theta)
    rate = st['acc'] / st['runs']
    want = min(1.0, 1.7 / (spec['traps'] + 1) / (rate - theta)) if rate > theta else 1.0
    ctx.check(abs(f.bound - want) < 1e-9, 'bound', lambda: 'bound %s for %d of %d accepted, %d traps and theta %g, expected %s' % (f.bound, st['acc'], st['runs'], spec['traps'], theta, want))


def malformed(ctx, f, st, rec, kind):
    exps, postps, v0 = [dict(e) for e in rec['exps']], list(rec['postps']), rec['v0']
    if kind == 'shots':
        exps[-1]['counts'] = {k: 2 for k in exps[-1]['counts']}
    elif kind == 'spread':
        k = next(iter(exps[0]['counts']))
        exps[0]['counts'] = {k: 1, k ^ 1: 1}
    elif kind == 'missing':
        exps = exps[:-1]
    elif kind == 'fewer':
        if st['runs'] == 0 and len(postps) - 2 >= 3:
            return
        postps, exps = postps[:-1], exps[:-1]
        v0 = min(v0, len(postps) - 1)
    elif kind == 'two_traps':
        postps, exps = postps[:3], exps[:3]
        v0 = min(v0, 2)
    ctx.fault('malformed_run')
    ctx.refuses('a malformed run (%s)' % kind, f.single_protocol_run, result_of(exps), postps, v0)
    counts_ok(ctx, f, st, -1)


def qotp(spec, ctx, accred, qc, ideal, kw, amb):
    """The one-time pad on its own: every padded circuit gives the target's distribution once the pad is removed."""
    circs, postps = ctx.sut('QOTP', accred.QOTP, qc, 2, **kw)
    for c, p in zip(circs, postps):
        dist = Device().probs(c)
        counts = {format(o, '0%db' % spec['nc']): v for o, v in dist.items()}
        keep = dict(counts)
        fixed = ctx.sut('QOTPCorrectCounts', accred.QOTPCorrectCounts, counts, p)
        ctx.check(counts == keep, 'input-changed', 'QOTPCorrectCounts changed its input')
        fixed = {int(k, 2): v for k, v in fixed.items()}
        ctx.check(tvd(fixed, ideal) < 1e-9, 'pad-not-removed', lambda: 'a padded circuit gives %s after correction, the target %s' % (rounded(fixed), rounded(ideal)))
        ctx.probe('qotp')

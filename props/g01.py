"""G01: seeded generation repeats exactly, whatever else draws random numbers."""
import collections
import hashlib
import itertools
import json
import os
import random

import numpy as np

from sim import core
from sim.device import scramble_globals
from sim.fresh import Fresh
from sim.sched import Scheduler

PROP = 'G01'
ISOLATE = True
RUNS = {'quick': 800, 'thorough': 30000}
RULE = ('A run draws two to four clients, each a seeded generator (benchmarking sequences, random group elements, model circuits, pads, accreditation circuits, sampling mitigation; seed zero, any other seed or a generator object) '
        'called one to three times, and runs them interleaved in one process: call by call, with the process-wide generators reseeded or drawn from in between, or as threads preempted at any source line of the library next to a thread '
        'that keeps using the process-wide generators. Every output is compared with that of the client alone in a fresh process with another string-hash seed, and searched for repeated draws; '
        'non-trivial when two clients overlapped.')
STATE_MEASURE = 'distinct (kinds of clients, seeds kind, interleaving mode, switches taken)'
COMPONENTS = {'real': ['randomized_benchmarking_seq, RBgroup, random_cnotdihedral', 'qv_circuits', 'AccreditationCircuits, QOTP', 'CTMPExpvalMeasMitigator', 'qiskit-terra generators and transpiler'],
              'stub': ['thread scheduler', 'process-wide random generators and operating-system entropy']}
ASSUMPTIONS = ['Draws that would agree by chance with probability above one in a thousand million are not compared.']
_FRESH = {}


def warm():
    """Import everything a run uses before runs fork."""
    import qiskit.ignis.verification.randomized_benchmarking as _a      # noqa
    import qiskit.ignis.verification.quantum_volume as _b               # noqa
    import qiskit.ignis.verification.accreditation as _c                # noqa
    import qiskit.ignis.mitigation.expval as _d                         # noqa
    from qiskit import QuantumCircuit
    from qiskit.compiler import transpile                               # the transpiler imports much on first use
    qc = QuantumCircuit(2, 2)
    qc.h(0)
    qc.cx(0, 1)
    qc.measure([0, 1], [0, 1])
    for cm in (None, [[0, 1], [1, 2]]):
        transpile(qc, optimization_level=2, basis_gates=['u1', 'u2', 'u3', 'cx'], coupling_map=cm, seed_transpiler=1)


def worker_init():
    warm()
    if 'f' not in _FRESH:
        _FRESH['f'] = Fresh('props.g01', 4242)


# ------------------------------------------------------------------ clients

def gen_seed(rng, objects=False):
    r = rng.random()
    if r < 0.25:
        return 0
    if objects and r < 0.5:
        return ['object', rng.choice([0, rng.randrange(1 << 20)])]
    return rng.choice([1, 2, rng.randrange(1 << 10), rng.randrange(1 << 30)])


def gen_client(rng):
    kind = rng.choice(['rb', 'rb', 'rb', 'qv', 'qv', 'dihedral', 'group', 'qotp', 'accred', 'accred', 'ctmp'])
    c = {'kind': kind}
    if kind == 'rb':
        dihedral = rng.random() < 0.35
        groups = rng.choice([[1], [1, 1], [2], [2, 1], [1, 1, 1], [2, 2]])
        purity = not dihedral and len(set(groups)) == 1 and sum(groups) < 3 and rng.random() < 0.2
        qs = rng.sample(range(sum(groups) + rng.choice([0, 1])), sum(groups))
        pat, k = [], 0
        for g in groups:
            pat.append(qs[k:k + g])
            k += g
        c.update(dihedral=dihedral, pattern=pat, purity=purity, lengths=sorted(rng.sample(range(1, 14 if max(groups) == 1 else 8), rng.choice([1, 1, 2]))) if not purity else [rng.randint(1, 3)],
                 mult=1 if purity or rng.random() < 0.6 else [rng.choice([1, 2]) for _ in pat], nseeds=rng.choice([1, 1, 1, 2, 2, 3]) if not purity else 1,
                 align=rng.random() < 0.3, seed=gen_seed(rng, True), inter=not purity and rng.random() < 0.2)
    elif kind == 'qv':
        depths = sorted(rng.sample([1, 2, 3, 4], rng.choice([1, 2, 3])))
        c.update(lists=[rng.sample(range(d + 1), d) if rng.random() < 0.4 else list(range(d)) for d in depths], trials=rng.choice([1, 2, 4, 6, 11]), seed=gen_seed(rng))
    elif kind == 'dihedral':
        c.update(n=rng.randint(1, 3), seed=gen_seed(rng, True))
    elif kind == 'group':
        c.update(n=rng.randint(1, 3), group=rng.choice(['Clifford', 'CNOT-Dihedral']), seed=gen_seed(rng))
    elif kind in ('qotp', 'accred'):
        n = rng.choice([1, 2, 2])
        ops = []
        for _ in range(rng.randint(1, 6)):
            g = rng.choice(['h', 'x', 't', 'rx', 'cx', 'cx', 'cz'])
            if g[0] == 'c':
                if n > 1:
                    ops.append([g, rng.sample(range(n), 2), []])
            else:
                ops.append([g, [rng.randrange(n)], [round(rng.uniform(0, 6), 3)] if g == 'rx' else []])
        c.update(n=n, ops=ops, gate=rng.choice(['cx', 'cz']), coupling=[[a, a + 1] for a in range(n)] if n > 1 and rng.random() < 0.35 else None, num=rng.choice([3, 4, 6]), seed=gen_seed(rng),
                 reload=rng.random() < 0.3)
    else:
        n = rng.choice([1, 2, 2])
        gens = []
        for _ in range(rng.randint(1, 4)):
            if n > 1 and rng.random() < 0.5:
                a, b = rng.choice([('01', '10'), ('11', '00'), ('00', '11'), ('10', '01')])
                gens.append([b, a, rng.sample(range(n), 2)])
            else:
                gens.append(rng.choice([['1', '0'], ['0', '1']]) + [[rng.randrange(n)]])
        c.update(n=n, gens=gens, rates=[round(rng.uniform(0.02, 0.12), 4) for _ in gens], seed=gen_seed(rng, True), late=rng.random() < 0.4,
                 queries=[{'qubits': rng.choice([None, rng.sample(range(n), rng.randint(1, n))]), 'counts': [rng.randint(1, 200) for _ in range(2 ** n)]} for _ in range(3)])
    c['steps'] = rng.choice([1, 2, 2])
    return c


def gen(rng, tier):
    mode = rng.choice(['calls', 'calls', 'threads'])
    if mode == 'threads':
        plan = {'mode': 'dense', 'seed': rng.randrange(1 << 30), 'p': rng.choice([0.002, 0.01, 0.05])}
    else:
        plan = {'order': rng.randrange(1 << 30)}
    clients = [gen_client(rng) for _ in range(rng.choice([2, 2, 3]))]
    if rng.random() < 0.3:                       # a twin: the same generator, once more
        clients.append(json.loads(json.dumps(clients[0])))
    return {'clients': clients, 'mode': mode, 'plan': plan, 'ambient': rng.randrange(1 << 30), 'other': rng.randrange(1, 1 << 16)}


def shrink(spec):
    if len(spec['clients']) > 1:
        yield from core.drop_from_list(spec, ['clients'])
    for k, c in enumerate(spec['clients']):
        yield from core.set_value(spec, ['clients', k, 'steps'], 1)
        if 'nseeds' in c:
            yield from core.set_value(spec, ['clients', k, 'nseeds'], 1)
            yield from core.set_value(spec, ['clients', k, 'align'], False)
            if len(c['lengths']) > 1:
                yield from core.drop_from_list(spec, ['clients', k, 'lengths'])
        if 'trials' in c:
            yield from core.set_value(spec, ['clients', k, 'trials'], 1)
        if 'coupling' in c:
            yield from core.set_value(spec, ['clients', k, 'coupling'], None)
    if spec['mode'] == 'threads':
        yield from core.set_value(spec, ['mode'], 'calls')


def nontrivial(spec, out):
    return len(spec['clients']) > 1 and out['probes'].get('overlap', 0) > 0


# ------------------------------------------------------------------ what a client produces

def flat(circ, qmap=None, cmap=None):
    """Elementary instructions with qubit and bit numbers; names of composite instructions carry no meaning."""
    qi = {q: i for i, q in enumerate(circ.qubits)}
    ci = {c: i for i, c in enumerate(circ.clbits)}
    qmap = qmap or list(range(circ.num_qubits))
    cmap = cmap or list(range(circ.num_clbits))
    out = []
    for inst, qa, ca in circ.data:
        qs, cs = [qmap[qi[q]] for q in qa], [cmap[ci[c]] for c in ca]
        ps = []
        for p in inst.params:
            if isinstance(p, np.ndarray):
                ps.append([['%.9f' % (v.real + 0.0), '%.9f' % (v.imag + 0.0)] for v in np.round(p.ravel(), 9) + 0.0])
            else:
                ps.append('%.9f' % (round(float(p), 9) + 0.0))
        if inst.name in ('barrier', 'measure') or ps or inst.definition is None or not inst.definition.data or len(inst.name) < 5:
            out.append([inst.name, ps, sorted(qs) if inst.name == 'barrier' else qs, cs])
        else:
            out.extend(flat(inst.definition, qs, cs))
    return out


def pic(circ, named=True):
    return [circ.name if named else '', circ.num_qubits, circ.num_clbits, flat(circ)]


def nest(x, named=True):
    from qiskit import QuantumCircuit
    if isinstance(x, QuantumCircuit):
        return pic(x, named)
    if isinstance(x, (list, tuple)):
        return [nest(v, named) for v in x]
    return core.plain(x)


def target(c):
    from qiskit import QuantumCircuit
    qc = QuantumCircuit(c['n'], c['n'])
    for name, qs, ps in c['ops']:
        getattr(qc, name)(*ps, *qs)
    qc.measure(range(c['n']), range(c['n']))
    return qc


class Client:
    def __init__(self, c):
        self.c, self.k, self.obj = c, 0, None
        s = c['seed']
        if isinstance(s, list):
            s = np.random.default_rng(s[1]) if c['kind'] == 'ctmp' else np.random.RandomState(s[1])
        self.seed = s

    def step(self):
        """One call; returns a plain picture of its output."""
        c, kind = self.c, self.c['kind']
        self.k += 1
        if kind == 'rb':
            from qiskit.ignis.verification.randomized_benchmarking import randomized_benchmarking_seq
            kw = {}
            if c['inter']:
                from qiskit.circuit.library import XGate, CXGate
                kw['interleaved_elem'] = [XGate() if len(g) == 1 else CXGate() for g in c['pattern']]
            out = randomized_benchmarking_seq(nseeds=c['nseeds'], length_vector=list(c['lengths']), rb_pattern=[list(g) for g in c['pattern']], length_multiplier=c['mult'],
                                              align_cliffs=c['align'], group_gates='CNOT-Dihedral' if c['dihedral'] else None, is_purity=c['purity'], rand_seed=self.seed, **kw)
            return nest(list(out))
        if kind == 'qv':
            from qiskit.ignis.verification.quantum_volume import qv_circuits
            return nest(list(qv_circuits([list(q) for q in c['lists']], ntrials=c['trials'], seed=self.seed)))
        if kind == 'dihedral':
            from qiskit.ignis.verification.randomized_benchmarking import random_cnotdihedral
            e = random_cnotdihedral(c['n'], seed=self.seed)
            return core.plain([e.poly.weight_1, e.poly.weight_2, e.poly.weight_3, e.linear, e.shift])
        if kind == 'group':
            from qiskit.ignis.verification.randomized_benchmarking.rb_groups import RBgroup
            g = RBgroup(c['group'])
            return pic(g.to_circuit(g.random(c['n'], self.seed)), False)
        if kind == 'qotp':
            from qiskit.ignis.verification.accreditation import QOTP
            return nest(list(QOTP(target(c), c['num'], two_qubit_gate=c['gate'], coupling_map=c['coupling'], seed=self.seed)), False)
        if kind == 'accred':
            from qiskit.ignis.verification.accreditation import AccreditationCircuits
            if self.obj is None:
                self.obj = AccreditationCircuits(target(c), two_qubit_gate=c['gate'], coupling_map=c['coupling'], seed=self.seed)
            elif c['reload']:
                self.obj.target_circuit(target(c), two_qubit_gate=c['gate'], coupling_map=c['coupling'])
            return nest(list(self.obj.generate_circuits(c['num'])), False)
        from qiskit.ignis.mitigation.expval import CTMPExpvalMeasMitigator
        if self.obj is None:
            gens = [(a, b, tuple(q)) for a, b, q in c['gens']]
            self.obj = CTMPExpvalMeasMitigator(gens, list(c['rates']), c['n'], seed=None if c['late'] else self.seed)
            if c['late']:
                self.obj.seed(self.seed)
        q = c['queries'][(self.k - 1) % len(c['queries'])]
        n = c['n'] if q['qubits'] is None else len(q['qubits'])
        counts = {format(i, '0%db' % n): v for i, v in enumerate(q['counts'][:2 ** n])}
        val, std = self.obj.expectation_value(counts, qubits=q['qubits'] and list(q['qubits']))
        return ['%.9f' % (round(float(val), 9) + 0.0), '%.9f' % std]


def answer(request):
    """All outputs of one client, alone."""
    cl = Client(request)
    once = not isinstance(request['seed'], list) and request['kind'] not in ('accred', 'ctmp')      # a number: every call gives the same
    try:
        return {'out': [cl.step() for _ in range(1)] * request['steps'] if once else [cl.step() for _ in range(request['steps'])]}
    except Exception as e:          # pylint: disable=broad-except
        return {'exc': '%s: %s\n%s' % (type(e).__name__, e, core.short_tb(e))}


def brief(x):
    return hashlib.sha256(json.dumps(x).encode()).hexdigest()[:12]


# ------------------------------------------------------------------ the run

def run(spec, ctx):
    amb = random.Random(spec['ambient'])
    refs = []
    for c in spec['clients']:
        r = _FRESH['f'].ask(c)
        ctx.check('exc' not in r, 'unexpected-exception', lambda: '%s failed alone: %s' % (c['kind'], r.get('exc')))
        refs.append(r['out'])
        ctx.event('alone', c['kind'], brief(r['out']))
    scramble_globals(amb)
    got = [[] for _ in spec['clients']]
    clients = [Client(c) for c in spec['clients']]
    switches = 0
    if spec['mode'] == 'calls':
        rng = random.Random(spec['plan'].get('order', 0))
        todo = [k for k, c in enumerate(spec['clients']) for _ in range(c['steps'])]
        rng.shuffle(todo)
        for k in todo:
            r = rng.random()
            if r < 0.7:
                scramble_globals(amb)
                ctx.fault('shared-generator-disturbed')
            got[k].append(ctx.sut('%s step' % clients[k].c['kind'], clients[k].step))
            ctx.event('step', k, brief(got[k][-1]))
        switches = sum(1 for a, b in zip(todo, todo[1:]) if a != b)
        trail = todo
    else:
        import qiskit.ignis
        s = Scheduler(spec['plan'], ctx, [os.path.dirname(os.path.realpath(qiskit.ignis.__file__))], max_steps=4000000)
        alive = [len(clients)]

        def body(k):
            def go():
                try:
                    for _ in range(spec['clients'][k]['steps']):
                        got[k].append(clients[k].step())
                finally:
                    alive[0] -= 1
            return go

        def noise():
            turn = 0
            while alive[0] > 0 and turn < 20000:
                turn += 1
                np.random.rand(amb.randrange(1, 4))
                if turn % 3 == 0:
                    random.random()
                if turn % 7 == 0:
                    np.random.seed(turn)
                    random.seed(turn)
                s.yield_now()
            ctx.faults['shared-generator-disturbed'] += turn
        for k in range(len(clients)):
            s.spawn('client%d' % k, body(k))
        s.spawn('noise', noise)
        s.run()
        if s.runaway:
            ctx.fail('no-progress', 'the threads did not finish')
        for t in s.tasks:
            if t.exc is not None:
                if isinstance(t.exc, core.RunTimeout):
                    raise t.exc
                ctx.fail('unexpected-exception', 'thread %s: %s: %s\n%s' % (t.name, type(t.exc).__name__, t.exc, core.short_tb(t.exc)))
        switches = len(s.switches)
        trail = [w[0] for w in s.switches[:40]]
    ctx.probe('overlap', switches)
    ctx.state([c['kind'] for c in spec['clients']], [str(type(c['seed'])) + str(c['seed'] == 0) for c in spec['clients']], spec['mode'], trail)
    for k, (c, ref, out) in enumerate(zip(spec['clients'], refs, got)):
        for i, (a, b) in enumerate(zip(ref, out)):
            ctx.check(a == b, 'not-repeated', lambda: 'client %d (%s, seed %r), call %d: another output than alone in a fresh process\n%s' % (k, c['kind'], c['seed'], i, difference(a, b)))
            ctx.probe('compared')
        judge_steps(ctx, c, ref)
        judge_draws(ctx, c, ref)
    # every seed counts
    k = spec['other'] % len(spec['clients'])
    judge_seed(ctx, spec['clients'][k], refs[k], spec['other'])


def difference(a, b):
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return '[%d]' % i + difference(x, y)
    return ' %s versus %s' % (json.dumps(a)[:300], json.dumps(b)[:300])


def judge_steps(ctx, c, ref):
    """Repeated calls: the same for a number, the next draws of a generator object or of a session."""
    if len(ref) < 2:
        return
    session = isinstance(c['seed'], list) or c['kind'] in ('accred', 'ctmp')
    if session and bits(c) >= 30:
        ctx.check(len({json.dumps(r) for r in ref}) == len(ref), 'draws-repeated', lambda: '%s gave the same output in successive calls on one generator' % c['kind'])


def bits(c):
    """A lower bound of the entropy of one output, in bits."""
    if c['kind'] == 'rb':
        per = {True: {1: 4, 2: 12}, False: {1: 4.5, 2: 13}}[c['dihedral']]
        return max(c['lengths']) * c['nseeds'] * sum(per[len(g)] for g in c['pattern'])
    if c['kind'] == 'qv':
        return 9.9 * c['trials'] * len([q for q in c['lists'] if len(q) > 1])
    if c['kind'] in ('qotp', 'accred'):
        return 2 * c['n'] * c['num']
    if c['kind'] in ('dihedral', 'group'):
        return {1: 4, 2: 12, 3: 20}[c['n']]
    return 0


def elements(circ, group):
    """Gates on this group between its barriers, the last (inverse) dropped."""
    segs = [[]]
    for name, ps, qs, _ in circ[3]:
        if name == 'barrier':
            if set(group) <= set(qs):
                segs.append([])
        elif name == 'measure':
            continue
        elif set(qs) <= set(group):
            segs[-1].append([name, ps, [group.index(q) for q in qs]])
    segs = [json.dumps(s) for s in segs]
    return segs


def alike(a, b, need):
    """The sequences agree, possibly shifted by up to two places, over at least ``need`` elements."""
    for shift in range(-2, 3):
        x, y = (a[shift:], b) if shift >= 0 else (a, b[-shift:])
        n = min(len(x), len(y))
        if n >= need and x[:n] == y[:n]:
            return n
    return 0


def judge_draws(ctx, c, ref):
    if c['kind'] == 'rb' and not c['purity'] and not c['inter']:
        mults = c['mult'] if isinstance(c['mult'], list) else [c['mult']] * len(c['pattern'])
        seqs = []
        for s, circs in enumerate(ref[0][0]):
            for p, g in enumerate(c['pattern']):
                el = elements(circs[-1], g)
                want = max(c['lengths']) * mults[p]
                if c['align'] or len(el) < want:
                    # alignment merges the elements of multiplied sequences; whole sequences are compared instead
                    want = len(el) - 2 if c['align'] else 0
                seqs.append((s, p, len(g), el[:max(0, want)], mults[p]))
        for s, p, n, el, m in seqs:
            need = {1: 9, 2: 4}[n]
            for period in (1, 2, 3):
                if len(el) - period >= need:
                    ctx.check(el[period:] != el[:-period], 'draws-repeated', lambda: 'sequence %d on %s repeats its elements with period %d' % (s, c['pattern'][p], period))
                    ctx.probe('elements')
        for (s, p, n, el, m), (s2, p2, n2, el2, m2) in itertools.combinations(seqs, 2):
            if n == n2 and (not c['align'] or m == m2):
                k = alike(el, el2, {1: 9, 2: 4}[n])
                ctx.check(not k, 'draws-repeated', lambda: 'sequence %d on %s and sequence %d on %s share %d successive elements' % (s, c['pattern'][p], s2, c['pattern'][p2], k))
                ctx.probe('sequences')
        firsts = [(n, el[0]) for _, _, n, el, m in seqs if n == 2 and el]
        if len(firsts) >= 4:
            ctx.check(len(set(firsts)) > 1, 'draws-repeated', 'all sequences begin with the same element')
    elif c['kind'] == 'qv':
        meas, ideal = ref[0]
        for d in range(len(c['lists'])):
            if len(c['lists'][d]) < 2:
                continue
            seen = collections.Counter(json.dumps(t[d][3]) for t in ideal)
            if c['trials'] >= 4:
                ctx.check(len(seen) > c['trials'] / 2, 'draws-repeated', lambda: '%d trials of depth %d have only %d different circuits' % (c['trials'], len(c['lists'][d]), len(seen)))
                ctx.probe('trials')
        big = [d for d in range(len(c['lists'])) if len(c['lists'][d]) > 1]
        for a, b in itertools.combinations(big, 2):
            same = sum(1 for t in ideal if [o[1] for o in t[a][3]][:1] == [o[1] for o in t[b][3]][:1])
            if c['trials'] >= 4:
                ctx.check(same < 3, 'draws-repeated', lambda: 'depths %d and %d begin with the same gate in %d of %d trials' % (len(c['lists'][a]), len(c['lists'][b]), same, c['trials']))
                ctx.probe('depths')
    elif c['kind'] in ('qotp', 'accred'):
        circs = [json.dumps(x[3]) for r in ref for x in r[0]] if c['kind'] == 'accred' else [json.dumps(x[3]) for x in ref[0][0]]
        if 2 * c['n'] * (len(circs) - 2) >= 30:
            ctx.check(len(set(circs)) > 2, 'draws-repeated', lambda: '%d circuits have only %d different pads' % (len(circs), len(set(circs))))
            ctx.probe('pads')


def judge_seed(ctx, c, ref, other):
    s = c['seed']
    if c['kind'] == 'ctmp' or bits(c) < 34:
        return
    base = s[1] if isinstance(s, list) else s
    for new in {(base + other) % (1 << 30), 0 if base else 1}:
        if new == base:
            continue
        c2 = json.loads(json.dumps(c))
        c2['seed'], c2['steps'] = (['object', new] if isinstance(s, list) else new), 1
        r = _FRESH['f'].ask(c2)
        ctx.check(r.get('out', [None])[0] != ref[0], 'seed-ignored', lambda: '%s gives the same output for the seeds %r and %r' % (c['kind'], base, new))
        ctx.probe('seeds')

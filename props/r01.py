"""R01: every random benchmarking sequence returns a fault-free device to its start."""
import random

import numpy as np

from sim import core
from sim.device import Device, circuit_unitary, gate_matrix, scramble_globals

PROP = 'R01'
RUNS = {'quick': 2000, 'thorough': 40000}
RULE = ('A run draws a benchmarking pattern (1-4 qubits in 1-3 groups anywhere in the register), lengths, multipliers, alignment, group, seed or no seed, '
        'interleaved elements of every accepted type or the purity variant, executes every circuit on a fault-free device, and again with a flip injected on '
        'one qubit just before its measurement; non-trivial when a sequence of two or more elements was executed.')
STATE_MEASURE = 'distinct (pattern, multipliers, lengths, group, variant, alignment)'
COMPONENTS = {'real': ['randomized_benchmarking_seq', 'CNOTDihedral', 'RBgroup', 'qiskit-terra Clifford and circuits'],
              'stub': ['quantum device (state vectors)', 'process-wide random generators']}
ASSUMPTIONS = ['Elements of a sequence are separated by the barriers of their group of qubits, as documented.', 'Groups of up to three qubits.']


def gen(rng, tier):
    group = rng.choice([None, None, '0', 'Clifford', '1', 'CNOT-Dihedral', 'Non-Clifford'])
    dihedral = group in ('1', 'CNOT-Dihedral', 'Non-Clifford')
    variant = rng.choice(['plain', 'plain', 'interleaved', 'interleaved', 'purity']) if not dihedral else rng.choice(['plain', 'interleaved'])
    size = rng.choice([1, 1, 2, 2, 3, 3, 4] if rng.random() < 0.95 else [5, 6])
    qubits = rng.sample(range(size + rng.choice([0, 0, 1, 2])), size)
    top = 2 if variant == 'purity' else 3
    groups, rest = [], list(qubits)
    if variant == 'purity':
        k = rng.randint(1, min(top, size))
        while len(rest) >= k:
            groups.append(rest[:k])
            rest = rest[k:]
    else:
        while rest:
            k = min(len(rest), rng.choice([1, 1, 2, 2, top]))
            groups.append(rest[:k])
            rest = rest[k:]
    big = max(len(g) for g in groups)
    lengths = sorted(rng.sample(range(1, 7 if big < 3 else 4), rng.choice([1, 2, 2, 3])))
    if big < 3 and rng.random() < 0.08:
        lengths = sorted(rng.sample(range(1, 40 if big == 1 else 15), rng.choice([2, 4, 6])))
    mult = rng.choice([1, 1, 'list', 2]) if variant != 'purity' else rng.choice([1, None])
    if mult == 'list':
        mult = [rng.choice([1, 1, 2, 3]) for _ in groups]
    elems = []
    if variant == 'interleaved':
        for g in groups:
            elems.append({'kind': rng.choice(['gate', 'circuit', 'element']), 'pick': rng.randrange(1 << 20)})
    nseeds = rng.choice([1, 1, 2, 3])
    if len(groups) == 1 and big == 1 and mult in (1, None) and rng.random() < 0.4:      # many lengths, many seeds
        lengths = sorted(rng.sample(range(1, 31), rng.choice([4, 7, 11, 12])))
        if len(lengths) < 8 and variant != 'purity':
            nseeds = rng.choice([1, 4, 11])
    return {'group': group, 'dihedral': dihedral, 'variant': variant, 'pattern': groups, 'lengths': lengths, 'mult': mult, 'align': rng.random() < 0.4,
            'elems': elems, 'nseeds': nseeds, 'offset': rng.choice([0, 0, 5, 17]), 'seed': rng.choice([None, 0, rng.randrange(1, 1 << 20)]),
            'ambient': rng.randrange(1 << 30)}


def shrink(spec):
    yield from core.set_value(spec, ['nseeds'], 1)
    yield from core.set_value(spec, ['align'], False)
    yield from core.drop_from_list(spec, ['lengths'])
    yield from core.set_value(spec, ['offset'], 0)
    if spec['variant'] != 'purity':
        yield from core.set_value(spec, ['mult'], 1)
    if len(spec['pattern']) > 1 and not isinstance(spec['mult'], list):
        for k in range(len(spec['pattern'])):
            n = core.copy.deepcopy(spec)
            del n['pattern'][k]
            if n['elems']:
                del n['elems'][k]
            yield n


def nontrivial(spec, out):
    return out['probes'].get('executed', 0) > 0 and spec['lengths'][-1] > 1


def element(spec, e, n):
    """An interleaved element of the given kind, and its unitary."""
    from qiskit import QuantumCircuit
    from qiskit.circuit.library import CXGate, CZGate, HGate, SGate, SwapGate, TGate, XGate, YGate, ZGate, SdgGate
    from qiskit.quantum_info import Clifford
    from qiskit.ignis.verification.randomized_benchmarking.dihedral import CNOTDihedral
    rng = random.Random(e['pick'])
    if e['kind'] == 'gate' and n < 3:
        if spec['dihedral']:
            pool = {1: [XGate, TGate, SGate, ZGate, YGate], 2: [CXGate, CZGate, SwapGate]}[n]
        else:
            pool = {1: [XGate, YGate, ZGate, HGate, SGate, SdgGate], 2: [CXGate, CZGate, SwapGate]}[n]
        g = rng.choice(pool)()
        return g, np.asarray(g.to_matrix())
    qc = QuantumCircuit(n)
    for _ in range(rng.randint(0, 5)):
        names = ['x', 'u1', 'y', 'cx', 'cz', 'z'] if spec['dihedral'] else ['x', 'h', 's', 'cx', 'cz', 'y', 'sdg']
        nm = rng.choice(names)
        if nm == 'u1':
            qc.u1(rng.randint(-16, 16) * np.pi / 4, rng.randrange(n))
        elif nm in ('cx', 'cz'):
            if n > 1:
                getattr(qc, nm)(*rng.sample(range(n), 2))
        else:
            getattr(qc, nm)(rng.randrange(n))
    u = circuit_unitary(qc)
    if e['kind'] == 'element':
        el = CNOTDihedral(n).from_circuit(qc) if spec['dihedral'] else Clifford(qc)
        return el, u
    return qc, u


def same(a, b):
    """Equal up to a phase."""
    d = len(a)
    return a.shape == b.shape and abs(abs(np.trace(a.conj().T @ b)) - d) < 1e-7


def segments(circ, group):
    """Unitaries between the barriers that span this group of qubits; counts the group's own barriers."""
    n = len(group)
    pos = {q: i for i, q in enumerate(group)}
    qi = {q: i for i, q in enumerate(circ.qubits)}
    segs, own = [np.eye(2 ** n, dtype=complex)], 0
    for inst, qargs, _ in circ.data:
        qs = [qi[q] for q in qargs]
        if inst.name == 'barrier':
            if set(group) <= set(qs):
                own += set(group) == set(qs)
                segs.append(np.eye(2 ** n, dtype=complex))
            continue
        if inst.name == 'measure' or not set(qs) & set(group):
            continue
        if not set(qs) <= set(group):
            raise core.Violation('crosses-groups', 'gate %s on %s acts across the benchmarking groups' % (inst.name, qs))
        from sim.device import apply_op
        u = segs[-1].reshape((2,) * n + (2 ** n,))
        segs[-1] = apply_op(u, gate_matrix(inst), [pos[q] for q in qs], n).reshape(2 ** n, 2 ** n)
    return segs, own


def strip(segs):
    return [s for s in segs if not same(s, np.eye(len(s)))]


def inserted(plain, inter, e, m):
    """Can inter be plain with e after each of m elements (identity elements leave no trace)?"""
    eye = same(e, np.eye(len(e)))
    if eye:
        return len(plain) == len(inter) and all(same(a, b) for a, b in zip(plain, inter))
    reach = {(0, 0)}
    for _ in range(m):
        new = set()
        for i, j in reach:
            for take in (0, 1):
                ii, jj = i, j
                if take:
                    if ii >= len(plain) or jj >= len(inter) or not same(plain[ii], inter[jj]):
                        continue
                    ii, jj = ii + 1, jj + 1
                if jj < len(inter) and same(inter[jj], e):
                    new.add((ii, jj + 1))
        reach = new
    return (len(plain), len(inter)) in reach


def run(spec, ctx):
    import qiskit.ignis.verification.randomized_benchmarking as rb
    amb = random.Random(spec['ambient'])
    pattern = spec['pattern']
    flat = [q for g in pattern for q in g]
    kw = dict(nseeds=spec['nseeds'], length_vector=list(spec['lengths']), rb_pattern=[list(g) for g in pattern], length_multiplier=core.copy.copy(spec['mult']),
              seed_offset=spec['offset'], align_cliffs=spec['align'], group_gates=spec['group'], rand_seed=spec['seed'])
    units = []
    if spec['variant'] == 'interleaved':
        made = [element(spec, e, len(g)) for e, g in zip(spec['elems'], pattern)]
        kw['interleaved_elem'] = [a for a, _ in made]
        units = [u for _, u in made]
    if spec['variant'] == 'purity':
        kw['is_purity'] = True
    scramble_globals(amb)
    out = ctx.sut('randomized_benchmarking_seq(%s)' % kw, rb.randomized_benchmarking_seq, **kw)
    mult = [1] * len(pattern) if spec['mult'] in (1, None) else ([spec['mult']] * len(pattern) if isinstance(spec['mult'], int) else spec['mult'])
    xdata = np.asarray(out[1])
    want_x = np.array([[l * m for l in spec['lengths']] for m in mult])
    ctx.check(xdata.shape == want_x.shape and (xdata == want_x).all(), 'xdata', lambda: 'lengths %s, expected %s' % (xdata.tolist(), want_x.tolist()))
    ctx.state(pattern, mult, spec['lengths'], spec['dihedral'], spec['variant'], spec['align'])
    sets = {}
    if spec['variant'] == 'purity':
        ctx.check(out[2] == 3 ** len(pattern[0]), 'npurity', 'npurity is %s' % out[2])
        purity = out[0]
    else:
        sets['plain'] = out[0]
        if spec['dihedral']:
            sets['plainX'] = out[2]
        if spec['variant'] == 'interleaved':
            sets['inter'] = out[3] if spec['dihedral'] else out[2]
            if spec['dihedral']:
                sets['interX'] = out[4]
        purity = None
    names = []
    longer = {}
    for s in range(spec['nseeds']):
        for li, length in enumerate(spec['lengths']):
            if purity is not None:
                group = [purity[s][d][li] for d in range(3 ** len(pattern[0]))]
                for circ in group:
                    ctx.check(circ.name.endswith('_length_%d_seed_%d' % (li, s + spec['offset'])), 'name', lambda: 'purity circuit %d of seed %d is named %s' % (li, s + spec['offset'], circ.name))
                check_purity(spec, ctx, group, pattern, flat, length, mult, names)
                continue
            for kind, circs in sets.items():
                ctx.check(len(circs) == spec['nseeds'] and len(circs[s]) == len(spec['lengths']), 'circuit-count', '%d seeds of %d circuits' % (len(circs), len(circs[s])))
                circ = circs[s][li]
                names.append(circ.name)
                ctx.check(circ.name.endswith('_length_%d_seed_%d' % (li, s + spec['offset'])), 'name', 'circuit %d of seed %d is named %s' % (li, s + spec['offset'], circ.name))
                returns_to_start(ctx, circ, flat, kind)
            for gi, g in enumerate(pattern):
                n_el = length * mult[gi]
                segs, own = segments(sets['plain'][s][li], g)
                extra = length if spec['align'] and len(pattern) == 1 else 0
                ctx.check(own == n_el + extra, 'element-count', lambda: 'group %s of %s has %d separated elements, its length is %d' % (g, sets['plain'][s][li].name, own - extra, n_el))
                body = strip(segs[:-1])
                # longer sequences grow on top of shorter ones
                if (s, gi) in longer:
                    prev = longer[(s, gi)]
                    ctx.check(len(body) >= len(prev) and all(same(a, b) for a, b in zip(prev, body)), 'not-extended', 'sequence %d of seed %d does not extend the shorter one' % (li, s))
                longer[(s, gi)] = body
                if 'plainX' in sets:
                    check_x(ctx, segments(sets['plainX'][s][li], g)[0], segs, g)
                if 'inter' in sets:
                    isegs, _ = segments(sets['inter'][s][li], g)
                    ctx.check(inserted(body, strip(isegs[:-1]), units[gi], n_el), 'not-the-same-sequence',
                              lambda: 'group %s, length %d, seed %d: the interleaved circuit is not the original with the element after each of %d elements' % (g, length, s, n_el))
                    ctx.probe('interleaved')
                    if 'interX' in sets:
                        check_x(ctx, segments(sets['interX'][s][li], g)[0], isegs, g)
    ctx.check(len(set(names)) == len(names), 'names', lambda: 'repeated circuit names among %s' % names)
    ctx.event('names', sorted(names))
    refusals(spec, ctx, rb, amb)


def check_x(ctx, xsegs, zsegs, g):
    """The X circuits hold the same sequence between Hadamard gates."""
    h = np.array([[1, 1], [1, -1]]) / np.sqrt(2)
    hn = np.eye(1)
    for _ in g:
        hn = np.kron(h, hn)
    total_x, total_z = np.eye(len(hn)), np.eye(len(hn))
    for u in xsegs:
        total_x = u @ total_x
    for u in zsegs:
        total_z = u @ total_z
    ctx.check(same(total_x, hn @ total_z @ hn), 'not-the-same-sequence', 'the X circuit is not the Z circuit between Hadamard gates')
    mid = strip(zsegs[1:-1])
    xs = strip(xsegs)
    # drop the Hadamard layers (own segments for one qubit, merged into the first and last element otherwise)
    ok = any(len(xs) - k >= 0 and len(mid) <= len(xs) and all(same(a, b) for a, b in zip(mid, xs[k:k + len(mid)])) and len(xs[k:k + len(mid)]) == len(mid)
             for k in range(0, 3))
    ctx.check(ok, 'not-the-same-sequence', 'the X circuit of qubits %s holds other elements than the Z circuit' % g)


def returns_to_start(ctx, circ, flat, kind):
    ctx.check(circ.num_clbits == len(flat), 'clbits', '%d classical bits for %d qubits' % (circ.num_clbits, len(flat)))
    p = Device().probs(circ)
    ctx.probe('executed')
    ctx.check(abs(p.get(0, 0.0) - 1) < 1e-9, 'not-at-start', lambda: '%s circuit %s ends in %s' % (kind, circ.name, {format(k, '0%db' % len(flat)): round(v, 4) for k, v in p.items()}))
    first = next(k for k, (i, _, _) in enumerate(circ.data) if i.name == 'measure')
    for i, q in enumerate(flat):
        if first == 0:
            break
        dev = Device(pauli=lambda k, inst, qs: [('X', q)] if k == first - 1 else None)          # pylint: disable=cell-var-from-loop
        p = dev.probs(circ)
        ctx.fault('flip_before_measurement')
        ctx.check(abs(p.get(1 << i, 0.0) - 1) < 1e-9, 'wrong-classical-bit', lambda: '%s: a flip of qubit %d shows as %s, expected classical bit %d' % (circ.name, q, p, i))


def check_purity(spec, ctx, circs, pattern, flat, length, mult, names):
    n = len(pattern[0])
    base = None
    seen = set()
    for circ in circs:
        names.append(circ.name)
        letters = circ.name.split('_')[2]
        ctx.check(len(letters) == n and set(letters) <= set('XYZ'), 'name', 'purity circuit is named %s' % circ.name)
        seen.add(letters)
        psi = np.eye(1, dtype=complex)
        rho = Device().final_state(circ)
        one = {'Z': np.array([1, 0], dtype=complex), 'X': np.array([1, -1j]) / np.sqrt(2), 'Y': np.array([1, 1], dtype=complex) / np.sqrt(2)}
        vec = np.array([1], dtype=complex)
        place = {}
        for g in pattern:
            for k, q in enumerate(g):
                place[q] = letters[k]
        for q in range(circ.num_qubits):
            vec = np.kron(one[place.get(q, 'Z')], vec)
        fid = (vec.conj() @ rho @ vec).real
        ctx.check(abs(fid - 1) < 1e-8, 'not-at-start', lambda: 'purity circuit %s does not end in its rotated start state (fidelity %g)' % (circ.name, fid))
        meas = [(circ.qubits.index(q[0]), circ.clbits.index(c[0])) for i, q, c in circ.data if i.name == 'measure']
        ctx.check(sorted(meas) == sorted((q, i) for i, q in enumerate(flat)), 'wrong-classical-bit', lambda: 'purity circuit %s measures %s' % (circ.name, meas))
        ctx.probe('executed')
        del psi
        body = []
        for gi, g in enumerate(pattern):
            segs, own = segments(circ, g)
            extra = length if spec['align'] and len(pattern) == 1 else 0
            ctx.check(own == length * mult[gi] + extra, 'element-count', lambda: 'group %s of %s has %d separated elements, its length is %d' % (g, circ.name, own - extra, length))
            body.append(strip(segs[:-1]))
        if base is None:
            base = body
        for a, b in zip(base, body):
            ctx.check(len(a) == len(b) and all(same(x, y) for x, y in zip(a, b)), 'not-the-same-sequence', 'the purity circuits of one seed and length hold different sequences')
    ctx.check(len(seen) == len(circs), 'name', 'purity circuits %s' % sorted(seen))


def refusals(spec, ctx, rb, amb):
    pattern = [list(g) for g in spec['pattern']]
    pick = amb.randrange(4)
    if pick == 0:
        bad = pattern + [[pattern[0][0]]]
        ctx.refuses('a pattern that names a qubit twice', rb.randomized_benchmarking_seq, length_vector=[1], rb_pattern=bad)
    elif pick == 1:
        ctx.refuses('a multiplier list of the wrong length', rb.randomized_benchmarking_seq, length_vector=[1], rb_pattern=pattern, length_multiplier=[1] * (len(pattern) + 1))
    elif pick == 2:
        ctx.refuses('a multiplier below one', rb.randomized_benchmarking_seq, length_vector=[1], rb_pattern=pattern, length_multiplier=[0] * len(pattern))
    else:
        ctx.refuses('a purity pattern of mixed sizes', rb.randomized_benchmarking_seq, length_vector=[1], rb_pattern=[[0], [1, 2]], is_purity=True)

"""T01: the repetition code corrects every fault pattern within its distance."""
import random

from sim import core, pool
from sim.device import exp_of, result_of, scramble_globals

PROP = 'T01'
RUNS = {'quick': 4000, 'thorough': 40000}
RULE = ('A run builds a repetition code (distance 2-7, 1-5 syndrome rounds, built in one call or round by round, with barriers and logical X pairs), executes it on a bit-accurate device with '
        'bit flips, phase flips and readout faults at seeded instructions, hands the shots over in seeded order and decodes them; non-trivial when a fault changed an outcome.')
STATE_MEASURE = 'distinct (distance, rounds, number of defects, position of the defects)'
COMPONENTS = {'real': ['RepetitionCode', 'GraphDecoder with networkx matching', 'lookuptable_decoding, postselection_decoding', 'graph construction on qiskit-aer'],
              'stub': ['quantum device (bit propagation, exact for these circuits)', 'job service']}
ASSUMPTIONS = ['Faults hit one qubit at a time, as the decoding graph assumes; the two-qubit gates do not fail jointly.',
               'Ancillas are reset after every round but the last, as RepetitionCode(d, T) does.']
CONFIGS = {'quick': [(2, 1), (2, 2), (2, 5), (3, 1), (3, 2), (3, 3), (3, 4), (3, 5), (4, 1), (4, 2), (5, 1), (5, 2), (5, 3), (6, 1), (7, 1), (7, 2)],
           'thorough': [(2, 1), (2, 2), (2, 4), (3, 1), (3, 2), (3, 3), (3, 5), (4, 1), (4, 2), (4, 3), (5, 1), (5, 2), (5, 3), (5, 4), (6, 1), (6, 2), (7, 1), (7, 2), (7, 3), (8, 1), (9, 1), (9, 2)]}
RUN_LIMIT = 240
_GRAPHS = {}


def gen(rng, tier):
    d, t = rng.choice(CONFIGS[tier])
    style = rng.choice(['call', 'call', 'steps', 'steps'])
    fresh = d <= 3 and t <= 2 and rng.random() < 0.02
    shots = []
    for _ in range(rng.choice([4, 8, 16])):
        k = rng.choice([0, 1, 1, (d - 1) // 2, (d - 1) // 2, (d - 1) // 2, (d + 1) // 2, d])
        shots.append([[rng.random(), rng.random(), rng.choice(['X', 'X', 'X', 'Y', 'R', 'Z'])] for _ in range(k)])
    return {'d': d, 'T': t, 'style': style, 'barrier': [rng.random() < 0.5 for _ in range(t)], 'xpair': [rng.random() < 0.3 for _ in range(t)], 'fresh': fresh,
            'log': rng.choice('01'), 'shots': shots, 'plan': rng.randrange(1 << 30), 'weighted': rng.random() < 0.3}


def shrink(spec):
    yield from core.drop_from_list(spec, ['shots'])
    for k in range(len(spec['shots'])):
        yield from core.drop_from_list(spec, ['shots', k])
    yield from core.set_value(spec, ['style'], 'call')
    yield from core.set_value(spec, ['weighted'], False)


def nontrivial(spec, out):
    return out['probes'].get('defects', 0) > 0


def prepare(tier):
    """Decoding graphs of the plain codes, built side by side before the runs start; a run builds what is missing itself."""
    import multiprocessing
    with multiprocessing.get_context('fork').Pool(min(8, len(CONFIGS[tier]))) as workers:
        for key, s in workers.imap_unordered(_build, sorted(CONFIGS[tier], key=lambda c: -c[0] * c[1]), chunksize=1):
            if s is not None:
                _GRAPHS[key] = s


def _build(key):
    import warnings
    import os
    warnings.simplefilter('ignore')
    os.environ['QISKIT_IN_PARALLEL'] = 'TRUE'         # no pools inside a pool
    from qiskit.ignis.verification.topological_codes import RepetitionCode, GraphDecoder
    try:
        return key, GraphDecoder(RepetitionCode(*key)).S
    except Exception:           # pylint: disable=broad-except
        return key, None


def propagate(circ, faults):
    """Outcome of one shot as integer over circ.clbits, faults = {instruction index: [(qubit index, kind)]} before it."""
    qi = {q: i for i, q in enumerate(circ.qubits)}
    ci = {c: i for i, c in enumerate(circ.clbits)}
    q = [0] * len(qi)
    out = 0
    for k, (inst, qa, ca) in enumerate(circ.data):
        flip = 0
        for at, kind in faults.get(k, ()):
            if kind in ('X', 'Y'):
                q[at] ^= 1
            elif kind == 'R' and inst.name == 'measure' and at == qi[qa[0]]:
                flip ^= 1
            elif kind == 'R':
                q[at] ^= 1
        if inst.name == 'x':
            q[qi[qa[0]]] ^= 1
        elif inst.name == 'cx':
            q[qi[qa[1]]] ^= q[qi[qa[0]]]
        elif inst.name == 'reset':
            q[qi[qa[0]]] = 0
        elif inst.name == 'measure':
            b = ci[ca[0]]
            out = (out & ~(1 << b)) | ((q[qi[qa[0]]] ^ flip) << b)
        elif inst.name not in ('barrier', 'id', 'z'):
            raise NotImplementedError(inst.name)
    return out


def place(circ, faults):
    """Seeded fault positions: before an instruction, on one of its qubits."""
    got = {}
    spots = [(k, circ.qubits.index(q)) for k, (_, qa, _) in enumerate(circ.data) for q in qa]
    for a, _, kind in faults:
        k, q = spots[int(a * len(spots))]
        got.setdefault(k, []).append((q, kind))
    return got


def nodes_of(string):
    """Defects named in a processed string, by the documented layout 'log log  round round ...'."""
    out = []
    for kind, part in enumerate(string.split('  ')):
        for rnd, elems in enumerate(part.split(' ')):
            for num, e in enumerate(elems):
                if e == '1':
                    out.append((kind, rnd, num))
    return out


def run(spec, ctx):
    import networkx as nx
    from qiskit.ignis.verification.topological_codes import RepetitionCode, GraphDecoder, lookuptable_decoding, postselection_decoding
    amb = random.Random(spec['plan'])
    d, t = spec['d'], spec['T']
    scramble_globals(amb)
    if spec['style'] == 'call':
        code = ctx.sut('RepetitionCode', RepetitionCode, d, t)
    else:
        code = ctx.sut('RepetitionCode', RepetitionCode, d)
        for k in range(t):
            if spec['xpair'][k]:
                code.x(barrier=True)
                code.x()
            ctx.sut('syndrome_measurement', code.syndrome_measurement, reset=k < t - 1, barrier=spec['barrier'][k])
        ctx.sut('readout', code.readout)
    circs = ctx.sut('get_circuit_list', code.get_circuit_list)
    ctx.check(len(circs) == 2 and circs[0] is code.circuit['0'] and circs[1] is code.circuit['1'], 'circuit-list', 'the circuits of 0 and 1 are not listed in this order')
    if (d, t) not in _GRAPHS or (spec['fresh'] and spec['style'] == 'steps'):
        with pool.simulated(ctx, spec['plan'], 2):
            graph = ctx.sut('GraphDecoder', GraphDecoder, code if spec['fresh'] else RepetitionCode(d, t)).S
        if not spec['fresh']:
            _GRAPHS[(d, t)] = graph
    else:
        graph = _GRAPHS[(d, t)]
    graph = nx.Graph(graph.copy())
    dec = ctx.sut('GraphDecoder', GraphDecoder, code, S=graph)
    want_nodes = {(0, 0, 0), (0, 1, 0)} | {(1, r, e) for r in range(t + 1) for e in range(d - 1)}
    ctx.check(set(dec.S.nodes) == want_nodes, 'graph-nodes', lambda: 'decoding graph of distance %d, %d rounds: unexpected nodes %s, missing %s' % (
        d, t, sorted(set(dec.S.nodes) - want_nodes), sorted(want_nodes - set(dec.S.nodes))))
    log = spec['log']
    circ = code.circuit[log]
    clean = propagate(circ, {})
    ideal = result_string(circ, clean, code, ctx, log)
    ctx.check(nodes_of('0  ' + ideal.split('  ')[1]) == [] and ideal.split('  ')[0] == '%s %s' % (log, log), 'clean-run', 'without faults the code %s reports %s' % (log, ideal))
    raw, expected = {}, {}
    total_wrong = 0
    for faults in spec['shots']:
        where = place(circ, faults)
        out = propagate(circ, where)
        for f in faults:
            ctx.fault({'X': 'bit_flip', 'Y': 'bit_phase_flip', 'Z': 'phase_flip', 'R': 'readout_flip'}[f[2]])
        eff = sum(1 for f in faults if f[2] != 'Z')
        string = result_string(circ, out, code, ctx, log)
        raw[out] = raw.get(out, 0) + 1
        expected[string] = expected.get(string, 0) + 1
        zero = string if log == '0' else flip_logicals(string)
        nodes = nodes_of(zero)
        if nodes:
            ctx.probe('defects')
        ctx.check(all(n in dec.S for n in nodes), 'unknown-defect', lambda: '%s has defects outside the decoding graph' % string)
        if eff <= 1:
            ctx.check(len(nodes) in (0, 2), 'defect-count', lambda: 'one fault %s gives %d defects in %s' % (faults, len(nodes), string))
            ctx.check(not nodes or dec.S.has_edge(*nodes), 'missing-edge', lambda: 'one fault %s gives defects %s which the decoding graph does not join' % (faults, nodes))
        corrected = ctx.sut('matching', dec.matching, string)
        if eff <= (d - 1) // 2:
            ctx.check(corrected == '%s %s' % (log, log), 'not-corrected', lambda: 'distance %d, %d rounds: %d faults %s give %s, decoded to %s instead of %s' % (d, t, eff, sorted(where.items()), string, corrected, log))
            ctx.probe('corrected')
        if corrected[0] != log:
            total_wrong += 1
            ctx.probe('beyond_distance')
        ctx.state(d, t, len(nodes), nodes)
        ctx.event('shot', string, corrected)
    # the shots of one job, in the order the device happens to report them
    items = list(raw.items())
    amb.shuffle(items)
    counts = {k: v for k, v in items}
    res = result_of([exp_of(circ, counts)])
    keep = dict(res.get_counts(circ))
    processed = ctx.sut('process_results', code.process_results, {log: res.get_counts(circ)})
    ctx.check(processed == {log: expected}, 'shots-lost', lambda: 'processing %s gave %s, shot by shot it is %s' % (keep, processed, expected))
    prob = ctx.sut('get_logical_prob', dec.get_logical_prob, processed)
    n = len(spec['shots'])
    ctx.check(set(prob) == {log} and abs(prob[log] - total_wrong / n) < 1e-12, 'logical-rate', lambda: 'logical error rate %s, %d of %d shots are decoded wrongly' % (prob, total_wrong, n))
    # other decoders on the same data
    other = '1' if log == '0' else '0'
    table = {log: dict(expected), other: {}}
    for s in list(expected)[:3] + [flip_logicals(s) for s in list(expected)[3:]]:
        table[other][s] = amb.randint(1, 4)
    wrong = sum(c for s, c in expected.items() if table[other].get(s, 0) > table[log].get(s, 0))
    look = ctx.sut('lookuptable_decoding', lookuptable_decoding, table, {log: dict(expected)})
    ctx.check(abs(look[log] - wrong / n) < 1e-12, 'lookup-rate', lambda: 'lookup decoding reports %s, by its table %d of %d are wrong' % (look, wrong, n))
    quiet = {s: c for s, c in expected.items() if '1' not in s.split('  ')[1]}
    if quiet:
        post = ctx.sut('postselection_decoding', postselection_decoding, {log: dict(expected)})
        bad = sum(c for s, c in quiet.items() if s[0] != log)
        ctx.check(abs(post[log] - bad / sum(quiet.values())) < 1e-12, 'postselection-rate', lambda: 'postselection reports %s for %s' % (post, quiet))
    if spec['weighted']:
        weighted(spec, ctx, code, dec, amb)


def weighted(spec, ctx, code, dec, amb):
    """Weights estimated from data of a device with rare single faults leave the code its distance; sparse data leave it usable."""
    circ = code.circuit['0']
    spots = [(k, circ.qubits.index(q)) for k, (_, qa, _) in enumerate(circ.data) for q in qa]
    sparse = amb.random() < 0.4
    data = {}
    for k, q in spots:
        if sparse and amb.random() < 0.6:
            continue
        s = result_string(circ, propagate(circ, {k: [(q, 'X')]}), code, ctx, '0')
        data[s] = data.get(s, 0) + 1
    clean = result_string(circ, propagate(circ, {}), code, ctx, '0')
    data[clean] = data.get(clean, 0) + (200 if sparse else 1000000)
    ctx.sut('weight_syndrome_graph', dec.weight_syndrome_graph, {'0': data})
    ctx.probe('weighted')
    for faults in spec['shots']:
        log = spec['log']
        out = propagate(code.circuit[log], place(code.circuit[log], faults))
        string = result_string(code.circuit[log], out, code, ctx, log)
        got = ctx.sut('matching with estimated weights', dec.matching, string)
        eff = sum(1 for f in faults if f[2] != 'Z')
        if not sparse and eff <= min(3, (spec['d'] - 1) // 2):
            ctx.check(got == '%s %s' % (log, log), 'not-corrected', lambda: 'with weights estimated from data, %d faults giving %s are decoded to %s instead of %s' % (eff, string, got, log))


def result_string(circ, out, code, ctx, log):
    res = result_of([exp_of(circ, {out: 1})])
    got = ctx.sut('process_results', code.process_results, {log: res.get_counts(circ)})
    ctx.check(list(got) == [log] and len(got[log]) == 1 and list(got[log].values()) == [1], 'shots-lost', 'one shot was processed to %s' % got)
    return next(iter(got[log]))


def flip_logicals(string):
    a, b = string.split('  ')
    return ' '.join('1' if c == '0' else '0' for c in a.split(' ')) + '  ' + b

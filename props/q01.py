"""Q01: quantum volume verdicts follow from heavy outputs, however data arrive."""
import math
import random

import numpy as np

from sim import core
from sim.device import Device, delivery, exp_of, experiment, result_of, scramble_globals, shots_of, sample_shots, apply_readout, tvd

PROP = 'Q01'
RUNS = {'quick': 6000, 'thorough': 60000}
RULE = ('A run draws qubit lists (any qubits, any order), trials and seed, executes the model circuits on a device with depolarising and readout faults, and delivers ideal and '
        'experimental results in two histories (batches, order, repeated campaigns, experiments arriving before their ideal result, refits in between); '
        'non-trivial when at least two experimental deliveries were made.')
STATE_MEASURE = 'distinct (sizes of the qubit lists, trials, campaigns, early arrivals, verdicts)'
COMPONENTS = {'real': ['qv_circuits', 'QVFitter', 'qiskit-terra QuantumVolume'], 'stub': ['quantum device (state vectors) with depolarising and readout faults', 'ideal simulator', 'job service', 'process-wide random generators']}
ASSUMPTIONS = ['A job holds each circuit at most once, the depths of one fitter differ, and a refit is requested only when all trials up to the highest one delivered are complete.']


def gen(rng, tier):
    sizes = sorted(rng.sample([1, 2, 3, 4], rng.choice([1, 1, 2, 2, 3])))
    if rng.random() < 0.05:
        sizes = sizes[:1] + [5]
    lists = []
    for s in sorted(set(sizes)):
        top = s + rng.choice([0, 0, 1, 1, 2])
        q = rng.sample(range(top), s)
        if rng.random() < 0.5:
            q.sort()
        if rng.random() < 0.2:
            q = list(range(s))
        lists.append(q)
    return {'lists': lists, 'trials': rng.choice([1, 2, 3, 4] if max(sizes) > 2 or rng.random() < 0.8 else [9, 11, 13]) if max(sizes) < 5 else 1, 'seed': rng.choice([None, 0, rng.randrange(1, 1 << 30)]),
            'depol': rng.choice([0.0, 0.1, 0.4, 0.8, 1.0]), 'readout': rng.choice([0.0, 0.0, 0.1]), 'campaigns': rng.choice([1, 1, 2, 3, 4]),
            'shots': rng.choice([1, 7, 100, 1024, 8192]), 'exact': rng.random() < 0.4, 'early': rng.random() < 0.4, 'plan': rng.randrange(1 << 30), 'data': rng.randrange(1 << 30)}


def shrink(spec):
    yield from core.set_value(spec, ['campaigns'], 1)
    yield from core.set_value(spec, ['trials'], 1)
    yield from core.set_value(spec, ['readout'], 0.0)
    yield from core.set_value(spec, ['early'], False)
    if len(spec['lists']) > 1:
        yield from core.drop_from_list(spec, ['lists'])


def nontrivial(spec, out):
    return out['probes'].get('deliveries', 0) > 2


def run(spec, ctx):
    import qiskit.ignis.verification.quantum_volume as qv
    plan = random.Random(spec['plan'])
    lists = spec['lists']
    depths = [len(q) for q in lists]
    scramble_globals(plan)
    given = [list(q) for q in lists]
    circs, bare = ctx.sut('qv_circuits(%s)' % lists, qv.qv_circuits, given, spec['trials'], seed=spec['seed'])
    ctx.check(given == lists, 'input-changed', 'the qubit lists were changed to %s' % given)
    ctx.check(len(circs) == len(bare) == spec['trials'] and all(len(c) == len(lists) for c in circs + bare), 'circuit-count', 'one circuit per trial and qubit list')
    probs, names, ideal = {}, [], {}
    for t in range(spec['trials']):
        for di, qubits in enumerate(lists):
            c, b = circs[t][di], bare[t][di]
            ctx.check(c.name == b.name, 'name', '%s and its ideal circuit %s' % (c.name, b.name))
            ctx.check(c.name.split('_')[2] == str(len(qubits)) and c.name.split('_')[-1] == str(t), 'name', 'circuit of trial %d on %s is named %s' % (t, qubits, c.name))
            check_circuit(ctx, c, b, qubits)
            p = Device().probs(measured(b))
            real = Device().probs(c)
            ctx.check(tvd(p, real) < 1e-9, 'not-the-ideal-circuit', lambda: '%s on %s: outcome probabilities %s, those of its ideal circuit %s' % (c.name, qubits, real, p))
            ideal[c.name] = (statevector(b), p)
            names.append(c.name)
            probs[c.name] = (real, c)
    ctx.check(len(set(names)) == len(names), 'names', 'repeated names %s' % names)
    # what the device returns
    exps, pooled = [], {}
    rng = random.Random(spec['data'])
    for cpn in range(spec['campaigns']):
        for name in names:
            real, circ = probs[name]
            if cpn and rng.random() < 0.3:
                continue
            n = circ.num_clbits
            dist = {o: (1 - spec['depol']) * real.get(o, 0.0) + spec['depol'] / 2 ** n for o in range(2 ** n)}
            if spec['depol']:
                ctx.fault('depolarising')
            for k in range(n):
                e = spec['readout'] * rng.random()
                if e:
                    dist = apply_readout(dist, [(np.array([[1 - e, e], [e, 1 - e]]), [k])], None)
            shots = spec['shots'] if rng.random() < 0.6 else rng.choice([1, 10, 1000, 5000])
            counts = shots_of(dist, shots) if spec['exact'] else sample_shots(dist, shots, rng)
            exps.append((cpn, exp_of(circ, counts)))
            pool = pooled.setdefault(name, {})
            for o, v in counts.items():
                pool[o] = pool.get(o, 0) + v
    want = reference(spec, ctx, names, ideal, pooled, depths)
    outs = []
    for h in range(2):
        f = history(spec, ctx, qv, exps, ideal, names, random.Random(spec['plan'] + h), plan)
        outs.append(check(spec, ctx, f, want, depths, names))
    ctx.check(outs[0] == outs[1], 'history-dependent', lambda: 'one history gives %s, another of the same data %s' % (outs[0], outs[1]))
    ctx.state(depths, spec['trials'], spec['campaigns'], spec['early'], [bool(s[0]) for s in want['success']])
    ctx.event('verdict', want['success'])


def measured(circ):
    from qiskit import QuantumCircuit
    qc = QuantumCircuit(circ.num_qubits, circ.num_qubits)
    for inst, qa, _ in circ.data:
        if inst.name not in ('barrier',):
            qc.append(inst, [circ.qubits.index(q) for q in qa])
    qc.measure(range(circ.num_qubits), range(circ.num_qubits))
    return qc


def statevector(circ):
    from sim.device import circuit_unitary
    return circuit_unitary(circ)[:, 0]


def check_circuit(ctx, c, b, qubits):
    meas = [(c.qubits.index(qa[0]), c.clbits.index(ca[0])) for i, qa, ca in c.data if i.name == 'measure']
    touched = {c.qubits.index(q) for i, qa, _ in c.data if i.name not in ('measure', 'barrier') for q in qa}
    ctx.check(sorted(m[0] for m in meas) == sorted(qubits) and sorted(m[1] for m in meas) == list(range(len(qubits))) and c.num_clbits == len(qubits), 'measured-qubits',
              lambda: 'circuit for qubits %s measures %s' % (qubits, meas))
    ctx.check(touched <= set(qubits), 'acts-on-qubits', lambda: 'circuit for qubits %s acts on %s' % (qubits, sorted(touched)))
    ctx.check(not any(i.name == 'measure' for i, _, _ in b.data) and b.num_qubits == len(qubits), 'ideal-circuit', 'ideal circuit of %s' % qubits)


def reference(spec, ctx, names, ideal, pooled, depths):
    heavy, hcounts, hideal, amb = {}, {}, {}, set()
    for name in names:
        p = ideal[name][1]
        d = int(name.split('_')[2])
        full = np.array([p.get(o, 0.0) for o in range(2 ** d)])
        med = np.median(full)
        if any(abs(x - med) < 1e-10 for x in full):
            amb.add(name)
        heavy[name] = {o for o in range(2 ** d) if full[o] > med}
        hcounts[name] = sum(v for o, v in pooled[name].items() if o in heavy[name])
        hideal[name] = sum(full[o] for o in heavy[name])
    ydata, success = np.zeros((4, len(depths))), []
    nt = spec['trials']
    for di, d in enumerate(depths):
        mine = [n for n in names if n.split('_')[2] == str(d)]
        h = sum(hcounts[n] for n in mine) / sum(sum(pooled[n].values()) for n in mine)
        hi = np.mean([hideal[n] for n in mine])
        ydata[:, di] = [h, math.sqrt(h * (1 - h) / nt), hi, math.sqrt(max(0.0, hi * (1 - hi)) / nt)]
        sigma = ydata[1, di] or 1e-10
        z = (h - 2 / 3) / sigma
        conf = 0.5 * (1 + math.erf(z / math.sqrt(2)))
        success.append([bool(h > 2 / 3 and z > 2), conf, abs(z - 2) < 1e-9])
    return {'heavy': heavy, 'hcounts': hcounts, 'hideal': hideal, 'ydata': ydata, 'success': success, 'ambiguous': amb}


def history(spec, ctx, qv, exps, ideal, names, rng, amb):
    """One delivery history into a new fitter."""
    svs = [dict(experiment(n, {}, []), statevector=np.array(ideal[n][0])) for n in names]
    for s in svs:
        s['counts'] = None
    ideal_jobs = [result_of([svs[i] for i in b]) for b in delivery(rng, len(svs), 4)]
    jobs = []
    for c in range(spec['campaigns']):
        part = [e for cc, e in exps if cc == c]
        if part:
            jobs += [result_of([part[i] for i in b]) for b in delivery(rng, len(part), 5)]
    if rng.random() < 0.5:
        rng.shuffle(jobs)
    lists = [list(q) for q in spec['lists']]
    first = rng.choice(['empty', 'ideal', 'all'])
    scramble_globals(amb)
    if first == 'all':
        f = ctx.sut('constructor', qv.QVFitter, list(jobs) if rng.random() < 0.8 or len(jobs) > 1 else jobs[0], list(ideal_jobs), lists)
        ctx.probe('deliveries')
        return f
    f = ctx.sut('constructor', qv.QVFitter, None, list(ideal_jobs) if first == 'ideal' else None, qubit_lists=lists)
    known = set(names) if first == 'ideal' else set()
    todo = [] if first == 'ideal' else [('ideal', j) for j in ideal_jobs]
    work = [('exp', j) for j in jobs]
    if spec['early']:
        mixed = todo + work
        rng.shuffle(mixed)
    else:
        mixed = todo + work
    done, have = 0, set()
    while mixed:
        kind, job = mixed.pop(0)
        here = {e.header.name for e in job.results}
        if kind == 'ideal':
            ctx.sut('add_statevectors', f.add_statevectors, [job] if rng.random() < 0.5 else job)
            known |= here
            if rng.random() < 0.2:
                ctx.refuses('add_statevectors of a known circuit', f.add_statevectors, job)
            continue
        if not here <= known:
            # experiments that arrive before their ideal result are refused and delivered again later
            ctx.fault('early_arrival')
            ctx.refuses('add_data before the ideal result', f.add_data, job, rerun_fit=rng.random() < 0.5)
            mixed.append((kind, job))
            continue
        have |= here
        done += 1
        trials = {int(n.split('_')[-1]) for n in have}
        complete = all('qv_depth_%d_trial_%d' % (len(q), t) in have for q in lists for t in range(max(trials) + 1))
        again = complete and rng.random() < 0.6
        ctx.sut('add_data', f.add_data, [job] if rng.random() < 0.5 else job, rerun_fit=again)
        ctx.probe('deliveries')
        if again:
            ctx.probe('refit')
        scramble_globals(amb)
    ctx.sut('calc_data', f.calc_data)
    ctx.sut('calc_statistics', f.calc_statistics)
    return f


def check(spec, ctx, f, want, depths, names):
    ctx.check(list(f.depths) == depths, 'depths', 'depths %s' % (f.depths,))
    ctx.check(list(f.quantum_volume()) == [2 ** d for d in depths], 'volume', lambda: 'quantum volumes %s' % (f.quantum_volume(),))
    skip = {int(n.split('_')[2]) for n in want['ambiguous']}
    for n in names:
        if n in want['ambiguous']:
            continue
        d = int(n.split('_')[2])
        got = {int(s, 2) for s in f.heavy_outputs[n]}
        ctx.check(got == want['heavy'][n] and all(len(s) == d for s in f.heavy_outputs[n]), 'heavy-outputs', lambda: '%s: heavy outputs %s, expected %s' % (n, sorted(got), sorted(want['heavy'][n])))
        ctx.check(f.heavy_output_counts[n] == want['hcounts'][n], 'heavy-counts', lambda: '%s: %s heavy counts, the delivered shots hold %s' % (n, f.heavy_output_counts[n], want['hcounts'][n]))
        ctx.check(abs(f.heavy_output_prob_ideal[n] - want['hideal'][n]) < 1e-9, 'heavy-ideal', lambda: '%s: ideal heavy probability %s, expected %s' % (n, f.heavy_output_prob_ideal[n], want['hideal'][n]))
    y = np.asarray(f.ydata)
    verdict = f.qv_success()
    out = []
    for di, d in enumerate(depths):
        if d in skip:
            continue
        ctx.check(np.allclose(y[:, di], want['ydata'][:, di], atol=1e-6), 'statistics', lambda: 'depth %d: mean, spread (measured, ideal) %s, expected %s' % (d, y[:, di], want['ydata'][:, di]))
        ok, conf, edge = want['success'][di]
        ctx.check(abs(verdict[di][1] - conf) < 1e-9, 'confidence', lambda: 'depth %d: confidence %s, expected %s' % (d, verdict[di][1], conf))
        if not edge:
            ctx.check(bool(verdict[di][0]) == ok, 'verdict', lambda: 'depth %d: passed=%s with mean %g, spread %g, confidence %g' % (d, verdict[di][0], y[0, di], y[1, di], conf))
        out.append((d, [round(float(v), 6) + 0.0 for v in y[:, di]], bool(verdict[di][0])))
    return out

"""R02: benchmarking fits report the injected error rates however data arrive."""
import itertools
import random
import re

import numpy as np

from sim import core
from sim.device import Device, apply_readout, delivery, exp_of, experiment, result_of, scramble_globals, shots_of

PROP = 'R02'
RUNS = {'quick': 4000, 'thorough': 60000}
RULE = ('A run draws a fitter kind, pattern, lengths, seeds and multipliers, injects a depolarising fault per element (another one per interleaved element, separate '
        'decays for the two CNOT-dihedral measurements) with preparation and readout faults, and delivers the results in two different histories (constructor or '
        'later, jobs, order, repeated campaigns, refits in between); non-trivial when at least two deliveries were made.')
STATE_MEASURE = 'distinct (fitter kind, pattern sizes, number of seeds and lengths, campaigns, refits) combinations'
COMPONENTS = {'real': ['RBFitter, InterleavedRBFitter, PurityRBFitter, CNOTDihedralRBFitter', 'randomized_benchmarking_seq (executed runs)', 'scipy curve_fit'],
              'stub': ['quantum device with depolarising, preparation and readout faults', 'job service', 'process-wide random generators']}
ASSUMPTIONS = ['A job holds each circuit at most once, and a refit is only requested when every delivered seed has all its lengths.',
               'Fits are compared with the injected decay only where the data determine it (at least four lengths spanning the decay, every circuit delivered equally often).']
RUN_LIMIT = 120

NAMES = {}


def worker_init():
    """Names of the circuits, as the generator gives them."""
    import qiskit.ignis.verification.randomized_benchmarking as rb
    from qiskit.circuit.library import XGate, CXGate
    if NAMES:
        return

    def tmpl(circ):
        return re.sub(r'_length_\d+_seed_\d+$', '_length_%d_seed_%d', circ.name)
    one = dict(length_vector=[1], nseeds=1, rand_seed=5)
    o = rb.randomized_benchmarking_seq(rb_pattern=[[0]], interleaved_elem=[XGate()], **one)
    NAMES['std'], NAMES['int'] = tmpl(o[0][0][0]), tmpl(o[2][0][0])
    o = rb.randomized_benchmarking_seq(rb_pattern=[[0]], group_gates='1', **one)
    NAMES['Z'], NAMES['X'] = tmpl(o[0][0][0]), tmpl(o[2][0][0])
    for n in (1, 2):
        o = rb.randomized_benchmarking_seq(rb_pattern=[list(range(n))], is_purity=True, **one)
        NAMES['purity%d' % n] = [tmpl(o[0][0][d][0]) for d in range(3 ** n)]
    del CXGate


def gen(rng, tier):
    kind = rng.choice(['std', 'std', 'int', 'purity', 'dihedral'])
    if kind == 'purity':
        n = rng.choice([1, 1, 2])
        sizes = [n] * rng.choice([1, 1, 2])
    else:
        sizes = rng.choice([[1], [2], [3], [1, 1], [2, 1], [1, 2], [1, 2, 1]])
    total = sum(sizes)
    flat = rng.sample(range(total + 2), total)
    pattern, k = [], 0
    for s in sizes:
        pattern.append(flat[k:k + s])
        k += s
    nl = rng.choice([4, 4, 5, 5, 6, 6, 12]) if rng.random() < 0.85 else 3
    executed = rng.random() < 0.15
    if executed:
        lengths = sorted(rng.sample(range(1, 7), 4))
    else:
        step = rng.choice([1, 3, 10, 25])
        lengths = sorted(rng.sample(range(1, 3 * nl), nl))
        lengths = [step * x for x in lengths]
    mult = [rng.choice([1, 1, 2, 3]) if kind != 'purity' else 1 for _ in sizes] if not executed else [1] * len(sizes)
    ns = rng.choice([1, 2, 2, 3])
    seeds = sorted(rng.sample(range(12), ns)) if not executed else list(range(ns))
    if not executed and len(sizes) == 1 and rng.random() < 0.08:
        seeds = sorted(rng.sample(range(130), 11))
    return {'kind': kind, 'pattern': pattern, 'lengths': lengths, 'mult': mult, 'seeds': seeds, 'executed': executed,
            'decay': [rng.uniform(0.15, 0.8) for _ in range(2 * len(sizes))], 'prep': rng.choice([0.0, 0.0, 0.05, 0.1]), 'readout': rng.choice([0.0, 0.0, 0.05]),
            'vary': rng.random() < 0.5, 'campaigns': rng.choice([1, 1, 1, 2, 2, 3, 4]), 'even': rng.random() < 0.6, 'twice': rng.random() < 0.4, 'shots': rng.choice([10 ** 7, 10 ** 6]),
            'plan': rng.randrange(1 << 30), 'default_pattern': rng.random() < 0.3, 'data': rng.randrange(1 << 30)}


def shrink(spec):
    yield from core.set_value(spec, ['campaigns'], 1)
    yield from core.set_value(spec, ['prep'], 0.0)
    yield from core.set_value(spec, ['readout'], 0.0)
    yield from core.set_value(spec, ['vary'], False)
    if not spec['executed'] and len(spec['seeds']) > 1:
        yield from core.drop_from_list(spec, ['seeds'])


def nontrivial(spec, out):
    return out['probes'].get('deliveries', 0) > 1


def sides(kind):
    return {'std': ['std'], 'int': ['std', 'int'], 'purity': ['purity'], 'dihedral': ['Z', 'X']}[kind]


def alphas(spec):
    """Decay per element of every pattern, on each side: decay over the longest sequence is given by the spec."""
    out = {}
    top = spec['lengths'][-1]
    for p in range(len(spec['pattern'])):
        a0 = spec['decay'][2 * p] ** (1.0 / (top * spec['mult'][p]))
        a1 = (0.4 + 0.6 * spec['decay'][2 * p + 1]) ** (1.0 / (top * spec['mult'][p]))
        out[p] = {'std': a0, 'int': a0 * a1, 'purity': a0, 'Z': a0, 'X': a1}
    return out


def ideal_of(letters, size):
    """Outcome distribution of one pattern without faults (purity circuits end in a rotated basis)."""
    p = {0: 1.0}
    for k in range(size):
        if letters is not None and letters[k] != 'Z':
            p = {o | (b << k): v / 2 for o, v in p.items() for b in (0, 1)}
    return p


def device(spec, side, letters, li, seed, circ, drift):
    """Exact outcome distribution over the classical bits of one benchmarking circuit."""
    al = alphas(spec)
    joint = {0: 1.0}
    shift = 0
    frng = random.Random('%s %s %s' % (spec['data'], seed if spec['vary'] else 0, drift))
    for p, group in enumerate(spec['pattern']):
        n = len(group)
        prep = 1 - spec['prep'] * frng.random()
        keep = prep * al[p][side] ** (spec['lengths'][li] * spec['mult'][p])
        base = ideal_of(letters, n) if circ is None else circ[p]
        dist = {o: keep * base.get(o, 0.0) + (1 - keep) / 2 ** n for o in range(2 ** n)}
        if spec['readout'] and side != 'purity':
            for k in range(n):
                e0, e1 = spec['readout'] * frng.random(), spec['readout'] * frng.random()
                dist = apply_readout(dist, [(np.array([[1 - e0, e1], [e0, 1 - e1]]), [k])], None)
        joint = {o | (x << shift): v * w for o, v in joint.items() for x, w in dist.items()}
        shift += n
    return joint


def run(spec, ctx):
    worker_init()
    import qiskit.ignis.verification.randomized_benchmarking as rb
    plan = random.Random(spec['plan'])
    kind, pattern = spec['kind'], spec['pattern']
    sizes = [len(g) for g in pattern]
    total = sum(sizes)
    xdata = np.array([[l * m for l in spec['lengths']] for m in spec['mult']])
    circuits = execute(spec, rb, ctx, plan) if spec['executed'] else None
    # every experiment of every campaign
    exps, pooled = {s: [] for s in sides(kind)}, {}
    for c in range(spec['campaigns']):
        for side in sides(kind):
            variants = [None] if side != 'purity' else [''.join(t) for t in itertools.product('ZXY', repeat=sizes[0])]
            for seed in spec['seeds']:
                for li in range(len(spec['lengths'])):
                    for letters in variants:
                        if c and not spec['even'] and plan.random() < 0.4:
                            continue
                        name = name_of(side, letters, li, seed, sizes[0])
                        circ = circuits[name] if circuits else None
                        era = max(0, c - 1) if spec['twice'] else c            # 'twice': two equal campaigns before the device drifts
                        shots = spec['shots'] if spec['even'] or era == 0 else plan.choice([1000, 12345, spec['shots']])
                        counts = shots_of(device(spec, side, letters, li, seed, circ, 0 if spec['even'] else era), shots)
                        ctx.fault('depolarising')
                        exps[side].append((c, experiment(name, counts, [['cr', total]])))
                        pool = pooled.setdefault((side, letters, li, seed), {})
                        for o, v in counts.items():
                            pool[o] = pool.get(o, 0) + v
    want = reference(spec, pooled, sizes)
    ctx.state(kind, sizes, len(spec['seeds']), len(spec['lengths']), spec['campaigns'], spec['even'])
    fits = []
    for h in range(2):
        fitter = history(spec, ctx, rb, exps, xdata, random.Random(spec['plan'] + h), plan)
        fits.append(check(spec, ctx, fitter, want, xdata))
    compare(ctx, fits[0], fits[1])


def name_of(side, letters, li, seed, n):
    if side == 'purity':
        # position k of the letters belongs to qubit k of the pattern: base-3 digit k of the circuit number
        d = sum('ZXY'.index(ch) * 3 ** k for k, ch in enumerate(letters))
        return NAMES['purity%d' % n][d] % (li, seed)
    return NAMES[side] % (li, seed)


def execute(spec, rb, ctx, plan):
    """Really generated circuits, run without faults: ideal distribution of every pattern by circuit name."""
    from qiskit.circuit.library import XGate, CXGate
    kw = dict(nseeds=len(spec['seeds']), length_vector=list(spec['lengths']), rb_pattern=[list(g) for g in spec['pattern']], rand_seed=plan.randrange(1, 1 << 20))
    if spec['kind'] == 'int':
        from qiskit import QuantumCircuit
        kw['interleaved_elem'] = [XGate() if len(g) == 1 else CXGate() if len(g) == 2 else QuantumCircuit(3) for g in spec['pattern']]
    if spec['kind'] == 'purity':
        kw['is_purity'] = True
    if spec['kind'] == 'dihedral':
        kw['group_gates'] = '1'
    scramble_globals(plan)
    out = rb.randomized_benchmarking_seq(**kw)
    if spec['kind'] == 'purity':
        circs = [c for s in out[0] for d in s for c in d]
    else:
        lists = {'std': [0], 'int': [0, 2], 'dihedral': [0, 2]}[spec['kind']]
        circs = [c for k in lists for s in out[k] for c in s]
    res = {}
    for c in circs:
        probs = Device().probs(c)
        per, shift = [], 0
        for g in spec['pattern']:
            marg = {}
            for o, v in probs.items():
                k = (o >> shift) & (2 ** len(g) - 1)
                marg[k] = marg.get(k, 0.0) + v
            per.append(marg)
            shift += len(g)
        res[c.name] = per
    ctx.probe('executed_circuits', len(circs))
    return res


def reference(spec, pooled, sizes):
    """raw[side][pattern][seed][length] from the pooled shots."""
    raw = {}
    for side in sides(spec['kind']):
        raw[side] = []
        shift = 0
        for n in sizes:
            mask = 2 ** n - 1
            per = {}
            for seed in spec['seeds']:
                row = []
                for li in range(len(spec['lengths'])):
                    if side != 'purity':
                        c = pooled[(side, None, li, seed)]
                        row.append(sum(v for o, v in c.items() if (o >> shift) & mask == 0) / sum(c.values()))
                        continue
                    vals = {}
                    for t in itertools.product('ZXY', repeat=n):
                        c = pooled[(side, ''.join(t), li, seed)]
                        tot = sum(c.values())
                        for sub in range(2 ** n):
                            key = tuple(t[k] if sub >> k & 1 else 'I' for k in range(n))
                            ev = sum(v * (-1) ** bin((o >> shift) & sub).count('1') for o, v in c.items()) / tot
                            vals.setdefault(key, []).append(ev)
                    row.append(sum(np.mean(v) ** 2 for v in vals.values()) / 2 ** n)
                per[seed] = row
            raw[side].append(per)
            shift += n
    return raw


def history(spec, ctx, rb, exps, xdata, rng, amb):
    """One delivery history into a new fitter."""
    kind = spec['kind']
    pat = [list(g) for g in spec['pattern']]
    if spec['default_pattern'] and pat == [[0]]:
        pat = None
    jobs = {}
    for side in sides(kind):
        mine = []
        for c in range(spec['campaigns']):
            part = [e for cc, e in exps[side] if cc == c]
            if part:
                mine += [result_of([part[i] for i in b], '%s%d' % (side, c)) for b in delivery(rng, len(part), 5)]
        if rng.random() < 0.5:
            rng.shuffle(mine)
        jobs[side] = mine
    cls = {'std': rb.RBFitter, 'int': rb.InterleavedRBFitter, 'purity': rb.PurityRBFitter, 'dihedral': rb.CNOTDihedralRBFitter}[kind]
    extra = (3 ** len(spec['pattern'][0]),) if kind == 'purity' else ()
    xd = xdata.copy() if rng.random() < 0.7 else [list(map(int, x)) for x in xdata]
    whole = all(covers(spec, jobs[s], s) for s in sides(kind))
    fitted = spec['even'] or spec['campaigns'] == 1          # drifting devices are not fitted: only their data are compared
    first = rng.choice(['ctor', 'none', 'later']) if whole and fitted else 'none'
    scramble_globals(amb)
    if first == 'ctor':
        cut = {s: least(spec, jobs[s], s) for s in sides(kind)}
        f = ctx.sut('constructor', cls, *[arg(rng, jobs[s][:cut[s]]) for s in sides(kind)], *extra, xd, pat)
        ctx.probe('deliveries')
        rest = {s: jobs[s][cut[s]:] for s in sides(kind)}
        if rng.random() < 0.5 and any(rest.values()):
            check(spec, ctx, f, None, xdata)
    else:
        f = ctx.sut('constructor', cls, *[None for _ in sides(kind)], *extra, xd, pat)
        rest = {s: list(jobs[s]) for s in sides(kind)}
    while any(rest.values()):
        step = []
        for s in sides(kind):
            k = rng.randint(0, len(rest[s])) if rng.random() < 0.7 else len(rest[s])
            step.append(rest[s][:k])
            rest[s] = rest[s][k:]
        if not any(step):
            continue
        done = all(covers(spec, seen(f, s, kind) + part, s) for s, part in zip(sides(kind), step)) and all(step)
        args = [arg(rng, p) if p else None for p in step]
        again = done and fitted and rng.random() < 0.6
        ctx.sut('add_data', f.add_data, *args, rerun_fit=again)
        ctx.probe('deliveries')
        ctx.fault('split_delivery')
        if again:
            ctx.probe('refit')
        scramble_globals(amb)
    ctx.sut('calc_data', f.calc_data)
    ctx.sut('calc_statistics', f.calc_statistics)
    if not fitted:
        return f
    ctx.sut('fit_data', f.fit_data)
    if rng.random() < 0.3:
        ctx.sut('fit_data again', f.fit_data)
    return f


def arg(rng, results):
    if len(results) == 1 and rng.random() < 0.5:
        return results[0]
    return list(results)


def seen(f, side, kind):
    if kind in ('std', 'purity'):
        return list(f.results)
    return list(f.results[sides(kind).index(side)])


def covers(spec, results, side):
    """Do these results hold every circuit of every seed?"""
    names = {e.header.name for r in results for e in r.results}
    letters = [''.join(t) for t in itertools.product('ZXY', repeat=len(spec['pattern'][0]))] if side == 'purity' else [None]
    return all(name_of(side, let, li, seed, len(spec['pattern'][0])) in names for seed in spec['seeds'] for li in range(len(spec['lengths'])) for let in letters)


def least(spec, results, side):
    for k in range(1, len(results) + 1):
        if covers(spec, results[:k], side):
            return k
    return len(results)


def parts(f, kind):
    """[(side, raw_data, ydata, fit, seeds)]"""
    if kind in ('std', 'purity'):
        return [(kind, f.raw_data, f.ydata, f.fit, f.seeds)]
    return [(s, f.raw_data[i], f.ydata[i], f.fit[i], f.seeds[i]) for i, s in enumerate(sides(kind))]


def check(spec, ctx, f, want, xdata):
    kind, pattern = spec['kind'], spec['pattern']
    al = alphas(spec)
    out = {}
    ctx.check(np.array_equal(np.asarray(f.cliff_lengths), xdata), 'lengths', lambda: 'the fitter reports lengths %s' % (f.cliff_lengths,))
    fitted = spec['even'] or spec['campaigns'] == 1
    identifiable = want is not None and fitted and len(spec['lengths']) >= 4
    for side, raw, ydata, fit, seeds in parts(f, kind):
        ctx.check(sorted(seeds) == spec['seeds'], 'seeds', lambda: 'seeds %s, delivered %s' % (seeds, spec['seeds']))
        ctx.check(len(raw) == len(pattern) == len(ydata) == len(fit), 'patterns', 'one entry per pattern')
        for p, group in enumerate(pattern):
            rows = np.array([raw[p][j] for j in range(len(seeds))])
            if want is not None:
                exp = np.array([want[side][p][s] for s in seeds])
                ctx.check(rows.shape == exp.shape and np.allclose(rows, exp, atol=1e-9), 'raw-data',
                          lambda: '%s, group %s, seeds %s: data %s, the delivered shots give %s' % (side, group, list(seeds), rows.tolist(), exp.tolist()))
            ctx.check(np.allclose(ydata[p]['mean'], rows.mean(axis=0), atol=1e-12), 'mean', lambda: 'mean %s of %s' % (ydata[p]['mean'], rows.tolist()))
            if len(seeds) == 1:
                ctx.check(ydata[p]['std'] is None, 'spread', lambda: 'spread of one seed is %s' % ydata[p]['std'])
            else:
                ctx.check(np.allclose(ydata[p]['std'], rows.std(axis=0), atol=1e-12), 'spread', lambda: 'spread %s of %s' % (ydata[p]['std'], rows.tolist()))
            if not fitted:
                continue
            d = 2 ** len(group)
            alpha = fit[p]['params'][1]
            err = 'pepc' if kind == 'purity' else 'epc'
            ctx.check(abs(fit[p][err] - (d - 1) / d * (1 - alpha)) < 1e-9, 'error-rate', lambda: '%s %g does not follow from the decay %g' % (err, fit[p][err], alpha))
            if np.isfinite(fit[p]['params_err'][1]):
                ctx.check(abs(fit[p][err + '_err'] - (d - 1) / d * fit[p]['params_err'][1] / alpha) < 1e-9 + 1e-6 * abs(fit[p][err + '_err']), 'error-bar',
                          lambda: '%s_err %g does not follow from the uncertainty %g of the decay %g' % (err, fit[p][err + '_err'], fit[p]['params_err'][1], alpha))
            out[(side, p)] = [float(x) for x in fit[p]['params']] + [float(fit[p][err])]
            if identifiable:
                true = al[p][side]
                tol = 0.03 * (1 - true) + 2e-6
                ctx.check(abs(alpha - true) < tol, 'decay', lambda: '%s, group %s: the fit reports decay %.8f, injected %.8f (error %.2g, allowed %.2g); params %s; data %s at %s' % (
                    side, group, alpha, true, alpha - true, tol, fit[p]['params'], ydata[p]['mean'], xdata[p]))
                ctx.probe('decay_recovered')
    for p, group in enumerate(pattern):
        if not fitted:
            continue
        d = 2 ** len(group)
        if kind == 'int':
            a, ac = f.fit[0][p]['params'][1], f.fit[1][p]['params'][1]
            e = f.fit_int[p]
            est = (d - 1) / d * (1 - ac / a)
            sys_err = min((d - 1) / d * (abs(a - ac / a) + 1 - a), 2 * (d * d - 1) * (1 - a) / (a * d * d) + 4 * np.sqrt(1 - a) * np.sqrt(d * d - 1) / a)
            ok = abs(e['alpha'] - a) < 1e-9 and abs(e['alpha_c'] - ac) < 1e-9 and abs(e['epc_est'] - est) < 1e-9 and abs(e['systematic_err'] - sys_err) < 1e-9
            ok = ok and abs(e['systematic_err_L'] - (est - sys_err)) < 1e-9 and abs(e['systematic_err_R'] - (est + sys_err)) < 1e-9
            ctx.check(ok and len(f.fit_int) == len(pattern), 'interleaved-error', lambda: 'interleaved fit %s does not follow from decays %g and %g' % (e, a, ac))
            da, dac = f.fit[0][p]['params_err'][1], f.fit[1][p]['params_err'][1]
            bar = (d - 1) / d * ac / a * np.hypot(da / a, dac / ac)
            if np.isfinite(bar):
                ctx.check(abs(e['epc_est_err'] - bar) < 1e-9 + 1e-6 * bar and abs(e['alpha_err'] - da) <= 1e-9 + 1e-6 * da and abs(e['alpha_c_err'] - dac) <= 1e-9 + 1e-6 * dac, 'error-bar',
                          lambda: 'interleaved fit %s does not follow from decays %g+-%g and %g+-%g' % (e, a, da, ac, dac))
            out[('fit_int', p)] = [float(e['epc_est'])]
        if kind == 'dihedral':
            az, ax = f.fit[0][p]['params'][1], f.fit[1][p]['params'][1]
            e = f.fit_cnotdihedral[p]
            a = (az + d * ax) / (d + 1)
            ctx.check(abs(e['alpha'] - a) < 1e-9 and abs(e['epg_est'] - (d - 1) / d * (1 - a)) < 1e-9 and len(f.fit_cnotdihedral) == len(pattern), 'dihedral-error',
                      lambda: 'CNOT-dihedral fit %s does not follow from decays %g and %g' % (e, az, ax))
            dz, dx = f.fit[0][p]['params_err'][1], f.fit[1][p]['params_err'][1]
            bar = np.hypot(dz / az, d * dx / ax) / (d + 1)
            if np.isfinite(bar):
                ctx.check(abs(e['alpha_err'] - bar) < 1e-9 + 1e-6 * bar and abs(e['epg_est_err'] - (d - 1) / d * bar / a) < 1e-9 + 1e-6 * bar, 'error-bar',
                          lambda: 'CNOT-dihedral fit %s does not follow from decays %g+-%g and %g+-%g' % (e, az, dz, ax, dx))
            out[('fit_cnotdihedral', p)] = [float(e['alpha'])]
    return out


def compare(ctx, a, b):
    for k in a:
        ctx.check(np.allclose(a[k], b[k], rtol=1e-4, atol=1e-6), 'history-dependent', lambda: '%s is %s after one delivery history and %s after another of the same data' % (k, a[k], b[k]))
    ctx.event('fits', sorted((str(k), [round(x, 4) for x in v]) for k, v in a.items()))

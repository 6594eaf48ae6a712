"""C01: coherence and coupling fits recover the device parameters on its own clock."""
import random

import numpy as np
from scipy.optimize import curve_fit

from sim import core
from sim import charworld as cw
from sim import device as dv

PROP = 'C01'
RUNS = {'quick': 2500, 'thorough': 60000}
RULE = ('A run draws one of the relaxation, echo (1-5 pulses, phases alternating or not), Ramsey and ZZ experiments, an ordered qubit set, a time grid and device parameters (T1, T2, detuning, ZZ rate, readout errors per qubit), '
        'executes the circuits on a device on which each identity gate lets one gate time pass, and delivers the counts to two or three fitters in different ways (one job, lists, rounds, delayed calculation, stray circuits, '
        'unusable results); non-trivial when there is more than one delivery or a fault was injected.')
STATE_MEASURE = 'distinct (experiment, qubits, grid length, echoes, readout errors, delivery kind and rounds)'
COMPONENTS = {'real': ['t1_circuits, t2_circuits, t2star_circuits, zz_circuits', 'T1Fitter, T2Fitter, T2StarFitter, ZZFitter, BaseFitter', 'scipy curve_fit', 'marginal_counts'],
              'stub': ['quantum device: Bloch vectors with decay on a per-qubit clock, detuning, ZZ coupling and readout errors', 'job service']}
ASSUMPTIONS = ['Fits start within a factor 1.3 of the true parameters (a fraction of an oscillation for frequencies); convergence from anywhere is scipy\'s matter.']
KINDS = ['t1', 't2', 't2star', 'zz']


def gen(rng, tier):
    kind = rng.choice(KINDS + ['t2'])
    n = rng.choice([1, 1, 2, 2, 3, 3] if rng.random() < 0.93 else [4, 5])
    if kind == 'zz':
        n = min(n, 4)
    need = 2 * n if kind == 'zz' else n
    pool = rng.sample(range(max(need, 2) + rng.choice([0, 1, 2])), need)
    npts = rng.choice([6, 8, 10, 12, 15] if kind in ('t1', 't2') else [16, 20, 24])
    t = [round(rng.uniform(20, 90), 3) for _ in range(10)]
    shots = rng.choice([10 ** 8, 10 ** 8, 10 ** 7, 4000, 1000])
    if kind == 'zz':
        shots = rng.choice([10 ** 8, 10 ** 7])
    echos = rng.choice([1, 1, 2, 3, 4, 5]) if kind == 't2' else 1
    span = rng.uniform(1.2, 2.5) * 55 / (2 * echos if kind == 't2' else 1)         # longest waiting section
    gate_time = round(rng.choice([0.1, 0.11, 0.5, 1.0, 0.053]) * (0.3 if echos > 2 else 1), 4)
    top = max(npts + 1, min(int(span / gate_time), rng.choice([30, 30, 60, 120 if tier != "quick" else 50])))
    gate_time = round(span / top, 5)
    start = rng.choice([0, 0, 1, 2])
    grid = sorted({start + int(round(k * (top - start) / (npts - 1))) for k in range(npts)})
    if kind in ('t1', 't2') and rng.random() < 0.4:
        grid = sorted(rng.sample(range(top), min(npts, top - 1)) + [top])
    det = [round(rng.uniform(-1, 1), 4) for _ in range(10)]
    t2f = [round(rng.uniform(0.4, 1.9), 3) for _ in range(10)]
    auto = rng.random() < 0.5
    if auto:                            # all qubits are fitted from one start: they have to be alike
        t = [round(t[0] * rng.uniform(0.85, 1.15), 3) for _ in t]
        t2f = [round(t2f[0] * rng.uniform(0.9, 1.1), 3) for _ in t]
        det = [round(0.1 * x if kind == 'zz' else det[0] + 0.1 * x, 4) for x in det]
    return {'kind': kind, 'auto': auto, 'qubits': pool[:n], 'spect': pool[n:], 'grid': grid, 'gt': gate_time, 't1': t, 't2f': t2f,
            'det': det, 'nosc': rng.choice([3, 4, 5]), 'echos': echos, 'alt': rng.random() < 0.4,
            'ro': [[round(rng.uniform(0, 0.15), 4), round(rng.uniform(0, 0.15), 4)] if rng.random() < 0.5 else [0.0, 0.0] for _ in range(10)],
            'shots': shots, 'off': [round(rng.uniform(0.8, 1.25), 4), round(rng.uniform(-0.15, 0.15), 4)], 'as_list': rng.random() < 0.4, 'other_unit': rng.random() < 0.3, 'bounds': rng.random() < 0.7,
            'hist': [cw.gen_history(rng) for _ in range(rng.choice([2, 2, 3]))], 'plan': rng.randrange(1 << 30)}


def shrink(spec):
    if len(spec['hist']) > 1:
        yield from core.drop_from_list(spec, ['hist'])
    if len(spec['qubits']) > 1:
        for k in range(len(spec['qubits'])):
            new = dict(spec, qubits=spec['qubits'][:k] + spec['qubits'][k + 1:])
            if spec['kind'] == 'zz':
                new['spect'] = spec['spect'][:k] + spec['spect'][k + 1:]
            yield new
    yield from core.set_value(spec, ['ro'], [[0.0, 0.0]] * 10)
    yield from core.set_value(spec, ['det'], [0.0] * 10)
    for k in range(len(spec['hist'])):
        yield from core.set_value(spec, ['hist', k, 'start'], 'full')
        yield from core.set_value(spec, ['hist', k, 'repeat'], 1)
        for f in ('bad', 'lazy', 'stray'):
            yield from core.set_value(spec, ['hist', k, f], False)


def nontrivial(spec, out):
    return bool(out['faults']) or any(h['repeat'] > 1 or h['start'] != 'full' for h in spec['hist'])


def echo_sign(echos, alt):
    """+1 when the echo sequence ends in 0, -1 when in 1: x follows Y90, flipped by Y pulses, kept by X pulses."""
    x = 1
    for k in range(echos):
        x = x if (alt and k > 0 and k % 2 == 1) else -x
    return -x                                      # the last Y90 turns +x into 1


def run(spec, ctx):
    from qiskit.ignis.characterization import coherence as co
    from qiskit.ignis.characterization import hamiltonian as ham
    amb = random.Random(spec['plan'])
    kind, qubits, spect, gt = spec['kind'], spec['qubits'], spec['spect'], spec['gt']
    grid = list(spec['grid']) if spec['as_list'] else np.array(spec['grid'])
    dv.scramble_globals(amb)
    keep_q = list(qubits)
    freq = 0.0
    if kind == 't1':
        circs, xdata = ctx.sut('t1_circuits', co.t1_circuits, grid, gt, qubits)
        mult = 1
    elif kind == 't2':
        circs, xdata = ctx.sut('t2_circuits', co.t2_circuits, grid, gt, qubits, spec['echos'], spec['alt'])
        mult = 2 * spec['echos']
    elif kind == 't2star':
        circs, xdata, freq = ctx.sut('t2star_circuits', co.t2star_circuits, grid, gt, qubits, spec['nosc'])
        mult = 1
    else:
        circs, xdata, freq = ctx.sut('zz_circuits', ham.zz_circuits, grid, gt, qubits, spect, spec['nosc'])
        mult = 1
    ctx.check(qubits == keep_q and list(grid) == spec['grid'], 'input-changed', 'a list handed in was changed')
    times = np.array(spec['grid']) * gt * mult
    ctx.check(np.allclose(xdata, times, rtol=1e-12, atol=0), 'wrong-times', lambda: 'delay times %s, the circuits asked for wait %s' % (xdata, times))
    if kind in ('t2star', 'zz'):
        ctx.check(abs(freq - spec['nosc'] / times[-1]) < 1e-9, 'wrong-frequency', 'induced frequency %s for %s oscillations in %s' % (freq, spec['nosc'], times[-1]))
    series = ['0', '1'] if kind == 'zz' else ['0']
    ctx.check(len(circs) == len(series) * len(times) and len({c.name for c in circs}) == len(circs), 'circuit-count', '%d circuits for %d times' % (len(circs), len(times)))
    # the device
    t1 = spec['t1']
    t2 = [min(1.95 * a, f * a) for a, f in zip(t1, spec['t2f'])]
    tmax = times[-1]
    det = [d * 0.8 / tmax for d in spec['det']]
    zz = {}
    if kind == 'zz':
        t1, t2, det = [1e12] * 10, [1e12] * 10, [0.0] * 10
        zz = {(q, s): 1.5 * spec['det'][q] / tmax for q, s in zip(qubits, spect)}
    if kind == 't1':
        det = [0.0] * 10
    waits = []
    dev = cw.ClockedDevice(t1, t2, det, zz, spec['ro'], gt)
    probs = {}
    for k, c in enumerate(circs):
        bits, wait = dev.run(c)
        ctx.check(set(bits) == set(range(len(qubits))), 'not-measured', lambda: 'circuit %s fills the bits %s' % (c.name, sorted(bits)))
        ctx.check(all(abs(wait[q] - times[k % len(times)]) < 1e-9 * (1 + tmax) for q in qubits), 'wrong-wait',
                  lambda: 'circuit %s waits %s on qubits %s, its stated time is %s' % (c.name, [wait[q] for q in qubits], qubits, times[k % len(times)]))
        probs[c.name] = cw.joint(bits, len(qubits))
        ctx.advance(float(max(wait)))
    if any(any(spec['ro'][q]) for q in qubits):
        ctx.fault('readout_error', len(circs) * len(qubits))
    if any(det):
        ctx.fault('detuning', len(qubits))
    ctx.fault('decoherence' if kind != 'zz' else 'zz_coupling', len(qubits))
    # what the analyst should see
    expect, truth = {}, {}
    for s in series:
        for k, q in enumerate(qubits):
            a, b = spec['ro'][q]
            if kind == 't1':
                ideal, par = np.exp(-times / t1[q]), [1, t1[q], 0]
                truth[s, k] = [(1 - a - b) * par[0], par[1], (1 - a - b) * par[2] + a]
                expect[s, k] = (1 - a - b) * ideal + a
            elif kind == 't2':
                sg = echo_sign(spec['echos'], spec['alt'])
                expect[s, k] = (1 - a - b) * (0.5 + 0.5 * sg * np.exp(-times / t2[q])) + b
                truth[s, k] = [(1 - a - b) * 0.5 * sg, t2[q], (1 - a - b) * 0.5 + b]
            elif kind == 't2star':
                f = freq + det[q]
                expect[s, k] = (1 - a - b) * (0.5 + 0.5 * np.exp(-times / t2[q]) * np.cos(2 * np.pi * f * times)) + b
                truth[s, k] = [(1 - a - b) * 0.5, t2[q], f, 0.0, (1 - a - b) * 0.5 + b]
            else:
                f = freq + (zz[q, spect[k]] if s == '1' else 0)
                expect[s, k] = (1 - a - b) * (0.5 + 0.5 * np.cos(2 * np.pi * f * times)) + b
                truth[s, k] = [(1 - a - b) * 0.5, f, 0.0, (1 - a - b) * 0.5 + b]
    exact = spec['shots'] >= 10 ** 5
    # one start for all qubits, as the fitters take: from the first one; others are refitted from their own
    bounds_of = {'t1': ([0, 0, -1], [2, 1e4, 2]), 't2': ([-2, 0, -1], [2, 1e4, 2]), 't2star': ([-1, 0, 0, -4, -1], [2, 1e4, 10, 4, 2]), 'zz': ([-1, 0, -4, -1], [2, 10, 4, 2])}[kind]
    bounds = bounds_of if spec['bounds'] else None
    fidx = {'t2star': 2, 'zz': 1}.get(kind)

    def start(s, k):
        p = list(truth[s, k])
        if kind != 'zz':
            p[1] *= spec['off'][0]
        if fidx is not None:
            p[fidx] += spec['off'][1] / tmax
        p[0] *= spec['off'][0]
        p[-1] += 0.02
        return p

    def make(results):
        p0 = start('0', 0)
        kw = {'time_unit': 'parsecs'} if spec['other_unit'] else {}
        x = list(xdata) if spec['as_list'] else xdata
        if kind == 't1':
            return co.T1Fitter(results, x, qubits, p0, bounds, **kw)
        if kind == 't2':
            return co.T2Fitter(results, x, qubits, p0, bounds, **kw)
        if kind == 't2star':
            return co.T2StarFitter(results, x, qubits, p0, bounds, **kw)
        return ham.ZZFitter(results, x, qubits, spect, p0, bounds, **kw)

    def stray(rng):
        other = rng.choice(['t1circuit_%d_0', 't2circuit_%d_0', 'xcircuit_%d_0', 't2starcircuit_%d_0', 'zzcircuit_%d_2'])
        name = other % rng.choice([0, 1, 99])
        if name in probs:
            name = 'unrelated'
        return dv.experiment(name, {0: 50, 1: 50}, [['c', len(qubits)]])

    fits = []
    for h in spec['hist']:
        rounds, tot, shots = [], {}, 0
        for mult, ident in cw.executions(h):
            exps = {}
            srng = random.Random(spec['plan'] + 3 + ident)
            m = spec['shots'] * mult
            for c in circs:
                cts = dv.shots_of(probs[c.name], m) if exact else dv.sample_shots(probs[c.name], m, srng)
                exps[c.name] = dv.exp_of(c, cts)
                t = tot.setdefault(c.name, {})
                for o, v in cts.items():
                    t[o] = t.get(o, 0) + v
            shots += m
            rounds.append(exps)
        dv.scramble_globals(amb)
        fit = cw.deliver(ctx, make, rounds, h, cw.snapshot, stray, spec['auto'])
        ydata = fit.ydata
        ctx.check(set(ydata) == set(series), 'series', 'data series %s' % sorted(ydata))
        for s in series:
            ctx.check(len(ydata[s]) == len(qubits), 'series', 'data of %d qubits' % len(ydata[s]))
            for k, q in enumerate(qubits):
                want = []
                for j in range(len(times)):
                    name = circs[j + len(times) * series.index(s)].name
                    ones = sum(v for o, v in tot[name].items() if o >> k & 1)
                    want.append((ones if kind == 't1' else shots - ones) / shots)
                got = np.array(ydata[s][k]['mean'])
                ctx.check(got.shape == (len(times),) and np.allclose(got, want, atol=1e-12), 'data-not-sum', lambda: 'qubit %d series %s: data %s, delivered %s' % (q, s, got, want))
                if exact:
                    ctx.check(np.allclose(got, expect[s, k], atol=1e-5), 'wrong-population', lambda: 'qubit %d series %s: population %s, the device has %s' % (q, s, got, expect[s, k]))
                std = np.array(ydata[s][k]['std'])
                p = np.array(want)
                ref = np.sqrt(p * (1 - p) / shots)
                ctx.check(np.allclose(std[ref > 0], ref[ref > 0], rtol=1e-6) and np.all(std > 0), 'wrong-std', lambda: 'qubit %d: standard deviations %s, expected %s' % (q, std, ref))
        for s in series:
            for k in range(len(qubits)):
                if k or s == '1' or not spec['auto']:
                    ctx.sut('fit_data', fit.fit_data, k, start(s, k), bounds, s)
                judge(ctx, spec, fit, kind, s, k, truth[s, k], np.array(times), exact, tmax, start('0', 0) if spec['auto'] and not k and s == '0' else start(s, k), bounds)
        if kind != 'zz':
            ctx.check([fit.time(k) for k in range(len(qubits))] == list(fit.time()) and len(fit.time_err()) == len(qubits), 'time-list', 'time() and time(qubit) disagree')
        else:
            rate = ctx.sut('ZZ_rate', fit.ZZ_rate)
            want = [zz[q, s] for q, s in zip(qubits, spect)]
            ctx.check(np.allclose(rate, want, atol=2e-3 / tmax + 1e-3 * np.max(np.abs(want))) and np.allclose([fit.ZZ_rate(k) for k in range(len(qubits))], rate), 'wrong-zz',
                      lambda: 'ZZ rates %s, injected %s' % (rate, want))
        fits.append(((h['repeat'], h['same']), fit, cw.snapshot(fit)))
        ctx.state(kind, qubits, len(grid), spec['echos'], spec['alt'], bool(any(any(r) for r in spec['ro'])), h['start'], h['repeat'], h['lazy'])
        ctx.event('fit', kind, len(qubits), h['repeat'])
    for a in range(len(fits)):
        ctx.check(cw.same(cw.snapshot(fits[a][1]), fits[a][2]), 'fitters-mixed', 'the data of a fitter changed while another one was used')
        for b in range(a):
            if fits[a][0] == fits[b][0]:
                for s in series:
                    for k in range(len(qubits)):
                        pa, pb = fits[a][2][1][s][k], fits[b][2][1][s][k]
                        ctx.check(np.allclose(pa, pb, rtol=1e-3, atol=1e-3 * max(1, np.max(np.abs(pb)))), 'history-dependent', lambda: 'the same data delivered in another way give %s instead of %s' % (pa, pb))
    ctx.check(qubits == keep_q, 'input-changed', 'the qubit list was changed')


def model(kind, t, p):
    if kind in ('t1', 't2'):
        return p[0] * np.exp(-t / p[1]) + p[2]
    if kind == 't2star':
        return p[0] * np.exp(-t / p[1]) * np.cos(2 * np.pi * p[2] * t + p[3]) + p[4]
    return p[0] * np.cos(2 * np.pi * p[1] * t + p[2]) + p[3]


def judge(ctx, spec, fit, kind, s, k, true, times, exact, tmax, p0, bounds):
    got = np.array(fit.params[s][k], float)
    q = spec['qubits'][k]
    if exact:
        tol = np.abs(true) * 5e-3 + 5e-3
        if kind in ('t2star', 'zz'):
            tol[{'t2star': 2, 'zz': 1}[kind]] = 2e-3 / tmax
        ctx.check(np.all(np.abs(got - true) <= tol), 'wrong-fit', lambda: '%s of qubit %d series %s: fitted %s, the device has %s' % (kind, q, s, got, np.array(true)))
        if kind != 'zz':
            ctx.check(abs(fit.time(k, s) - true[1]) <= tol[1], 'wrong-time', lambda: 'time() of qubit %d is %s, the device has %s' % (q, fit.time(k, s), true[1]))
        return
    y, sd = np.array(fit.ydata[s][k]['mean']), np.array(fit.ydata[s][k]['std'])
    chi = lambda p: float(np.sum(((y - model(kind, times, p)) / sd) ** 2))
    ref, _ = curve_fit(lambda t, *p: model(kind, t, p), times, y, p0=p0, sigma=sd, bounds=bounds or (-np.inf, np.inf))
    ctx.check(chi(got) <= max(chi(true), chi(ref)) * (1 + 1e-3) + 1e-3, 'not-optimal', lambda: '%s of qubit %d: the fit %s explains the data worse (chi2 %.6g) than least squares do: %s (%.6g)' % (
        kind, q, got, chi(got), ref, chi(ref)))
    err = fit.time_err(k, s) if kind != 'zz' else 1.0
    ctx.check(err >= 0 or np.isinf(err), 'negative-error', 'error %s of the fitted time' % err)

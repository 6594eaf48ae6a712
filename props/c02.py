"""C02: gate and pulse calibration fits recover injected errors however data arrive."""
import copy
import random

import numpy as np

from sim import core
from sim import charworld as cw
from sim import device as dv

PROP = 'C02'
RUNS = {'quick': 8000, 'thorough': 60000}
RULE = ('A run draws one of the amplitude and angle calibrations of one- and two-qubit gates, the Rabi or DRAG calibration, or the pulse update of the u gates, an ordered qubit set, repetitions and device errors '
        '(over-rotation, tilted axes, drive gains, DRAG offsets, IQ clusters, readout errors), executes the circuits or pulse schedules on a device with these errors, and delivers the data to two or three fitters in different ways '
        '(one job, lists, rounds, delayed calculation, stray circuits, unusable results); non-trivial when there is more than one delivery or a fault was injected.')
STATE_MEASURE = 'distinct (experiment, qubits, controls, repetitions, delivery kind and rounds)'
COMPONENTS = {'real': ['ampcal and anglecal circuits, rabi_schedules, drag_schedules, update_u_gates', 'AmpCalFitter, AngleCalFitter, AmpCalCXFitter, AngleCalCXFitter, RabiFitter, DragFitter, BaseFitter, IQFitter', 'scipy curve_fit'],
              'stub': ['quantum device: state vectors with unitary gate errors, and a pulse-level device (rotation by pulse area, frames, IQ readout)', 'job service', 'pulse defaults of a mock backend']}
ASSUMPTIONS = ['Fits start within a fraction of an oscillation of the true angle.',
               'An angle error of a one-qubit gate is half the tilt between its X and Y axes, as the fit function has it.']
KINDS = ['amp1', 'angle1', 'ampcx', 'anglecx', 'rabi', 'rabi', 'drag', 'ugates']


def gen(rng, tier):
    kind = rng.choice(KINDS)
    if kind in ('rabi', 'drag', 'ugates'):
        n = rng.randint(1, 3)
        qubits, ctrl = rng.sample(range(3), n), []
    else:
        n = rng.choice([1, 1, 2, 3, 3, 5]) if not kind.endswith('cx') else rng.choice([1, 1, 2, 2, 3])
        need = n * (2 if kind.endswith('cx') else 1)
        pool = rng.sample(range(need + rng.choice([0, 0, 1])), need)
        qubits, ctrl = pool[:n], pool[n:]
    return {'kind': kind, 'qubits': qubits, 'ctrl': ctrl, 'reps': rng.choice([4, 5, 7, 10]) if rng.random() < 0.93 else rng.choice([18, 25]), 'err': [round(rng.uniform(-0.12, 0.12), 4) for _ in range(8)],
            'art': rng.random() < 0.25, 'ro': [[round(rng.uniform(0, 0.1), 4), round(rng.uniform(0, 0.1), 4)] for _ in range(8)] if rng.random() < 0.3 else None,
            'gain': [round(rng.uniform(0.8, 1.6), 4) for _ in range(3)], 'b0': [round(rng.uniform(-2, 2), 3) for _ in range(3)],
            'iq': [[round(rng.uniform(-3, 3), 3) for _ in range(4)] for _ in range(3)], 'single': rng.random() < 0.4, 'pts': rng.choice([12, 15, 20]),
            'amps': [round(rng.uniform(0.05, 0.4), 3) for _ in range(3)], 'width': rng.choice([40, 64]), 'sigma': rng.random() < 0.5,
            'angles': [[round(rng.uniform(-3, 3), 3) for _ in range(3)] for _ in range(3)], 'scheds': rng.random() < 0.3,
            'shots': rng.choice([10 ** 8, 10 ** 8, 10 ** 7, 2000, 1000]), 'off': round(rng.uniform(-0.5, 0.5), 3), 'bounds': rng.random() < 0.5,
            'hist': [cw.gen_history(rng) for _ in range(rng.choice([2, 2, 3]))], 'plan': rng.randrange(1 << 30)}


def shrink(spec):
    if len(spec['hist']) > 1:
        yield from core.drop_from_list(spec, ['hist'])
    if len(spec['qubits']) > 1:
        for k in range(len(spec['qubits'])):
            yield dict(spec, qubits=spec['qubits'][:k] + spec['qubits'][k + 1:], ctrl=spec['ctrl'][:k] + spec['ctrl'][k + 1:])
    yield from core.set_value(spec, ['ro'], None)
    yield from core.set_value(spec, ['reps'], 4)
    for k in range(len(spec['hist'])):
        yield from core.set_value(spec, ['hist', k, 'start'], 'full')
        yield from core.set_value(spec, ['hist', k, 'repeat'], 1)
        for f in ('bad', 'lazy', 'stray'):
            yield from core.set_value(spec, ['hist', k, f], False)


def nontrivial(spec, out):
    return bool(out['faults']) or any(h['repeat'] > 1 or h['start'] != 'full' for h in spec['hist'])


# ------------------------------------------------------------------ the devices

PX, PY, PZ = cw._PAULI


def rot(axis, angle):
    return np.cos(angle / 2) * np.eye(2) - 1j * np.sin(angle / 2) * axis


X90, Y90 = rot(PX, np.pi / 2), rot(PY, np.pi / 2)


def alike(u, v):
    return u.shape == v.shape and abs(abs(np.trace(u.conj().T @ v)) - len(u)) < 1e-9


def faulty(kind, eps, artificial):
    """Unitary that the faulty gate makes in addition, or None. eps: injected error of the (target) qubit."""
    def post(u, name):
        if artificial:
            return None
        if kind == 'amp1' and alike(u, Y90):
            return rot(PY, 2 * eps)
        if kind == 'angle1' and alike(u, X90):
            tilt = rot(PZ, 2 * eps)
            return tilt @ X90 @ tilt.conj().T @ X90.conj().T
        if name == 'cx':
            if kind == 'ampcx':
                return rot(PX, 2 * eps)
            if kind == 'anglecx':
                tilt = rot(PZ, eps)
                return tilt @ rot(PX, np.pi) @ tilt.conj().T @ rot(PX, -np.pi)
        return None
    return post


def run_circuit(circ, kind, err, artificial, count):
    """Chance of reading 1 in each measured bit's qubit: {clbit: (qubit, p1)}."""
    n = circ.num_qubits
    qi = {q: i for i, q in enumerate(circ.qubits)}
    ci = {c: i for i, c in enumerate(circ.clbits)}
    psi = np.zeros(2 ** n, complex)
    psi[0] = 1
    psi = psi.reshape((2,) * n)
    bits = {}
    for inst, qargs, cargs in circ.data:
        qs = [qi[q] for q in qargs]
        if inst.name == 'barrier':
            continue
        if inst.name == 'measure':
            p = np.abs(psi) ** 2
            p1 = float(np.take(p, 1, axis=n - 1 - qs[0]).sum())
            bits[ci[cargs[0]]] = (qs[0], p1)
            continue
        u = dv.gate_matrix(inst)
        psi = dv.apply_op(psi, u, qs, n)
        e = faulty(kind, err[qs[-1]], artificial)(u, inst.name)
        if e is not None:
            count[0] += 1
            if len(qs) == 2:                      # acts on the target when the control is 1
                full = np.eye(4, dtype=complex)
                full[1::2, 1::2] = e              # control is the first qubit, least significant
                e = full
            psi = dv.apply_op(psi, e, qs, n)
    return bits


_BACK = {}


def backend():
    if not _BACK:
        from qiskit.test.mock import FakeOpenPulse3Q
        b = FakeOpenPulse3Q()
        _BACK.update(map=b.defaults().instruction_schedule_map, meas=b.configuration().meas_map, drives=[b.configuration().drive(i) for i in range(b.configuration().n_qubits)])
    return _BACK


def worker_init():
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        backend()


def drive_pulses(sched, chan):
    """(start, frame phase, samples) of the pulses on a drive channel, and the final frame."""
    from qiskit.pulse import Play, ShiftPhase
    f, out = 0.0, []
    for t, i in sched.instructions:
        if isinstance(i, ShiftPhase) and i.channel == chan:
            f += i.phase
        if isinstance(i, Play) and i.channel == chan:
            s = i.pulse.samples if hasattr(i.pulse, 'samples') else i.pulse.get_sample_pulse().samples
            out.append((t, f, np.array(s)))
    return out, f


def pulse_unitary(pulses, frame, gain):
    u = np.eye(2, dtype=complex)
    for _, f, s in pulses:
        a = np.sum(s) * gain * np.exp(1j * f)
        th, ph = abs(a), np.angle(a)
        u = rot(np.cos(ph) * PX + np.sin(ph) * PY, th) @ u
    return np.diag([np.exp(1j * frame / 2), np.exp(-1j * frame / 2)]) @ u


# ------------------------------------------------------------------ runs

def run(spec, ctx):
    dv.scramble_globals(random.Random(spec['plan']))
    if spec['kind'] == 'ugates':
        return run_ugates(spec, ctx)
    if spec['kind'] in ('rabi', 'drag'):
        return run_pulse(spec, ctx)
    return run_gates(spec, ctx)


def run_gates(spec, ctx):
    from qiskit.ignis.characterization import gates as g
    amb = random.Random(spec['plan'])
    kind, qubits, ctrl, reps = spec['kind'], list(spec['qubits']), list(spec['ctrl']), spec['reps']
    art = spec['art'] and kind.startswith('angle')
    err = list(spec['err'])
    if art:
        err = [err[0] or 0.05] * 8
    build = {'amp1': (g.ampcal_1Q_circuits, (reps, qubits)), 'angle1': (g.anglecal_1Q_circuits, (reps, qubits) + ((err[0],) if art else ())), 'ampcx': (g.ampcal_cx_circuits, (reps, qubits, ctrl)),
             'anglecx': (g.anglecal_cx_circuits, (reps, qubits, ctrl) + ((err[0],) if art else ()))}[kind]
    circs, xdata = ctx.sut(build[0].__name__, build[0], *build[1])
    ctx.check(qubits == spec['qubits'] and ctrl == spec['ctrl'], 'input-changed', 'a list handed in was changed')
    want_x = np.arange(reps) * (2 if kind.endswith('1') else 1)
    ctx.check(np.array_equal(xdata, want_x), 'wrong-repetitions', lambda: 'repetitions %s' % xdata)
    ctx.check(len(circs) == reps and len({c.name for c in circs}) == reps, 'circuit-count', '%d circuits' % len(circs))
    probs, count = {}, [0]
    for c in circs:
        bits = run_circuit(c, kind, err, art, count)
        ctx.check({b: q for b, (q, _) in bits.items()} == dict(enumerate(qubits)), 'not-measured', lambda: 'circuit %s measures %s' % (c.name, bits))
        p = {}
        for b, (q, p1) in bits.items():
            if spec['ro']:
                a, e = spec['ro'][q]
                p1 = (1 - p1) * a + p1 * (1 - e)
            p[b] = p1
        probs[c.name] = cw.joint(p, len(qubits))
    ctx.fault('over_rotation' if kind.startswith('amp') else 'tilted_axis', count[0] + (1 if art else 0))
    if spec['ro']:
        ctx.fault('readout_error', len(circs))
    fitter = {'amp1': g.AmpCalFitter, 'angle1': g.AngleCalFitter, 'ampcx': g.AmpCalCXFitter, 'anglecx': g.AngleCalCXFitter}[kind]
    truth = [err[q] for q in qubits]
    scale = max(1, want_x[-1])
    bounds = ([-np.pi, -1], [np.pi, 1.5]) if spec['bounds'] else None
    start = [2 * truth[0] + spec['off'] / scale, 0.5]

    def make(results):
        return fitter(results, xdata, qubits, start, bounds)

    def stray(rng):
        return dv.experiment(rng.choice(['ampcal1Qcircuit_99_0', 'other']), {0: 50, 1: 50}, [['c', len(qubits)]])
    # one start for all qubits: fitted by the constructor only when all errors are alike
    auto = max(truth) - min(truth) < 0.25 / scale
    exact = spec['shots'] >= 10 ** 5
    fits = []
    for h in spec['hist']:
        rounds, tot, shots = [], {}, 0
        for mult, ident in cw.executions(h):
            exps = {}
            srng = random.Random(spec['plan'] + 3 + ident)
            m = spec['shots'] * mult
            for c in circs:
                cts = dv.shots_of(probs[c.name], m) if exact else dv.sample_shots(probs[c.name], m, srng)
                exps[c.name] = dv.exp_of(c, cts)
                t = tot.setdefault(c.name, {})
                for o, v in cts.items():
                    t[o] = t.get(o, 0) + v
            shots += m
            rounds.append(exps)
        dv.scramble_globals(amb)
        fit = cw.deliver(ctx, make, rounds, h, cw.snapshot, stray, auto)
        for k, q in enumerate(qubits):
            want = [sum(v for o, v in tot[c.name].items() if o >> k & 1) / shots for c in circs]
            got = np.array(fit.ydata['0'][k]['mean'])
            ctx.check(got.shape == (reps,) and np.allclose(got, want, atol=1e-12), 'data-not-sum', lambda: 'qubit %d: data %s, delivered %s' % (q, got, want))
            p = np.array(want)
            ref = np.sqrt(p * (1 - p) / shots)
            std = np.array(fit.ydata['0'][k]['std'])
            ctx.check(np.allclose(std[ref > 0], ref[ref > 0], rtol=1e-6) and np.all(std > 0), 'wrong-std', lambda: 'qubit %d: standard deviations %s, expected %s' % (q, std, ref))
            if k or not auto:
                ctx.sut('fit_data', fit.fit_data, k, [2 * truth[k] + spec['off'] / scale, 0.5], bounds)
        angles = np.atleast_1d(ctx.sut('angle_err', fit.angle_err))
        ctx.check(angles.shape == (len(qubits),) and [float(fit.angle_err(k)) for k in range(len(qubits))] == [float(a) for a in angles], 'angle-list', 'angle_err() and angle_err(qubit) disagree')
        if not spec['ro']:
            tol = 2e-3 if exact else 12 / np.sqrt(shots) / scale
            ctx.check(np.all(np.abs(angles - truth) <= tol), 'wrong-angle', lambda: '%s errors %s of qubits %s, the device has %s' % (kind, angles, qubits, truth))
        fits.append(((h['repeat'], h['same']), fit, cw.snapshot(fit)))
        ctx.state(kind, qubits, ctrl, reps, h['start'], h['repeat'], h['lazy'])
        ctx.event('fit', kind, len(qubits), h['repeat'])
    compare(ctx, fits, len(qubits))


def compare(ctx, fits, n):
    for a in range(len(fits)):
        ctx.check(cw.same(cw.snapshot(fits[a][1]), fits[a][2]), 'fitters-mixed', 'the data of a fitter changed while another one was used')
        for b in range(a):
            if fits[a][0] == fits[b][0]:
                for k in range(n):
                    pa, pb = fits[a][2][1]['0'][k], fits[b][2][1]['0'][k]
                    ctx.check(np.allclose(pa, pb, rtol=1e-3, atol=1e-3), 'history-dependent', lambda: 'the same data delivered in another way give %s instead of %s' % (pa, pb))


def run_pulse(spec, ctx):
    from qiskit.ignis.characterization import calibrations as cal
    from qiskit.pulse import library as pulse_lib
    b = backend()
    kind, qubits, width = spec['kind'], list(spec['qubits']), spec['width']
    rabi = kind == 'rabi'
    sigma = width / 5 if spec['sigma'] else None
    sg = sigma or width / 4
    xs = [float(x) for x in (np.linspace(0, 1, spec['pts']) if rabi else np.linspace(-4, 4, spec['pts']))]
    keep = list(xs)
    amps = [spec['amps'][q] for q in qubits]
    if rabi:
        scheds, xdata = ctx.sut('rabi_schedules', cal.rabi_schedules, xs, qubits, width, sigma, 4, b['drives'], b['map'], b['meas'])
        unit = np.sum(pulse_lib.gaussian(duration=width, amp=1.0, sigma=sg).samples).real
    else:
        scheds, xdata = ctx.sut('drag_schedules', cal.drag_schedules, xs, qubits, amps, width, sigma, 4, b['drives'], b['map'], b['meas'])
    ctx.check(qubits == spec['qubits'] and xs == keep and list(xdata) == keep, 'input-changed', 'a list handed in was changed')
    ctx.check(len(scheds) == len(xs) and len({s.name for s in scheds}) == len(xs), 'circuit-count', '%d schedules' % len(scheds))
    # excited population of each qubit after each schedule
    pop = np.zeros((len(xs), len(qubits)))
    nosc = [spec['gain'][q] * 1.6 for q in qubits]             # oscillations up to amplitude 1
    for j, s in enumerate(scheds):
        end = 0
        for q in range(3):
            pulses, frame = drive_pulses(s, b['drives'][q])
            if q not in qubits:
                ctx.check(not pulses, 'wrong-qubit', lambda: 'schedule %s drives qubit %d' % (s.name, q))
                continue
            k = qubits.index(q)
            end = max([end] + [t + len(p) for t, _, p in pulses])
            if rabi:
                u = pulse_unitary(pulses, frame, 2 * np.pi * nosc[k] / unit)
                pop[j, k] = abs(u[1, 0]) ** 2
            else:
                # leakage left by the pulse and its inverse grows with the distance from the best beta
                ref = pulse_lib.drag(duration=width, amp=amps[k], beta=1.0, sigma=sg).samples.imag
                ctx.check(len(pulses) == 2 and abs(sum(np.sum(p) for _, _, p in pulses)) < 1e-9, 'wrong-pulses', lambda: 'schedule %s plays %d pulses' % (s.name, len(pulses)))
                for t, _, p in pulses:
                    sign = np.sign(np.sum(p).real)
                    ctx.check(np.allclose(p.real * sign, pulse_lib.gaussian(duration=width, amp=amps[k], sigma=sg).samples.real, atol=1e-6), 'wrong-pulses',
                              lambda: 'schedule %s plays amplitude %s on qubit %d, asked for %s' % (s.name, np.max(np.abs(p)), q, amps[k]))
                beta = [float(p.imag @ ref / (ref @ ref)) * np.sign(np.sum(p).real) for _, _, p in pulses]
                pop[j, k] = 0.004 * (np.mean(beta) - spec['b0'][q]) ** 2
        from qiskit.pulse import Acquire
        acq = {i.acquire.index: t for t, i in s.instructions if isinstance(i, Acquire)}
        slots = {i.acquire.index: i.mem_slot.index for t, i in s.instructions if isinstance(i, Acquire)}
        ctx.check(set(qubits) <= set(acq) and all(acq[q] >= end for q in qubits), 'wrong-acquire', lambda: 'schedule %s acquires %s, pulses end at %s' % (s.name, acq, end))
        ctx.advance(1e-9 * s.duration)
    ctx.fault('drive_gain' if rabi else 'drag_offset', len(qubits))
    # which memory slot holds which of the fitter's qubits: the fitters read slot k for their k-th qubit
    points = [[complex(*spec['iq'][q][:2]), complex(*spec['iq'][q][2:])] for q in qubits]
    for p in points:
        if abs(p[1] - p[0]) < 0.5:
            p[1] = p[0] + 1.5 - 0.7j
    signal = np.array([[p[0] + (p[1] - p[0]) * pop[j, k] for k, p in enumerate(points)] for j in range(len(xs))])
    fitter = cal.RabiFitter if rabi else cal.DragFitter

    def make(results):
        return fitter(results, xdata, qubits, [1.0, 1.0, 0.0, 0.0] if rabi else [1.0, 0.0, 0.0], None)
    amb = random.Random(spec['plan'])
    fits = []
    for h in spec['hist']:
        rounds = []
        m = 6
        for mult, r in cw.executions(h):
            exps = {}
            drift = (random.Random(spec['plan'] + r).uniform(-0.05, 0.05)) if h['repeat'] > 1 else 0.0
            for j, s in enumerate(scheds):
                shots = m * mult
                v = signal[j] + drift * (1 if r % 2 else -1)
                if spec['single']:
                    noise = [0.3 * np.exp(1j * (t + 1)) * (1 if t % 2 else -1) for t in range(shots)]
                    noise = np.array(noise) - np.mean(noise)
                    mem = [[[float((v[k] + noise[t] * (k + 1)).real), float((v[k] + noise[t] * (k + 1)).imag)] for k in range(len(qubits))] for t in range(shots)]
                else:
                    mem = [[float(v[k].real), float(v[k].imag)] for k in range(len(qubits))]
                exps[s.name] = {'name': s.name, 'mem': mem, 'shots': shots, 'ret': 'single' if spec['single'] else 'avg', 'slots': len(qubits)}
            rounds.append(exps)
        tot = sum(mu for mu, _ in cw.executions(h))
        mean = signal + sum(mu * (random.Random(spec['plan'] + r).uniform(-0.05, 0.05) if h['repeat'] > 1 else 0.0) * (1 if r % 2 else -1) for mu, r in cw.executions(h)) / tot
        dv.scramble_globals(amb)
        fit = deliver_iq(ctx, make, rounds, h)
        for k, q in enumerate(qubits):
            y = np.array(fit.ydata['0'][k]['mean'])
            ctx.check(y.shape == (len(xs),) and not np.iscomplexobj(y), 'shape', 'data of shape %s' % (y.shape,))
            d = abs(points[k][1] - points[k][0])
            want = d * (pop[:, k] - pop[:, k].mean())
            sgn = 1 if np.abs(y - want).max() <= np.abs(y + want).max() else -1
            ctx.check(np.allclose(sgn * y, want, atol=1e-6 * (1 + d)), 'signal-lost', lambda: 'qubit %d: IQ signal %s, the populations span %s' % (q, np.round(y, 4), np.round(want, 4)))
            if rabi:
                f = nosc[k]
                p0 = [-sgn * d / 2, f + spec['off'] * 0.3, 0.05, 0.0]
            else:
                p0 = [sgn * d * 0.004 * 1.3, spec['b0'][q] + spec['off'], 0.1]
            ctx.sut('fit_data', fit.fit_data, k, p0)
        for k, q in enumerate(qubits):
            f = nosc[k]
            if rabi:
                ctx.check(abs(fit.pi_amplitude(k) - 1 / (2 * f)) < 2e-3 / f and abs(fit.pi2_amplitude(k) - 1 / (4 * f)) < 2e-3 / f, 'wrong-pi-amplitude',
                          lambda: 'qubit %d: pi amplitude %s, the device needs %s' % (q, fit.pi_amplitude(k), 1 / (2 * f)))
            else:
                ctx.check(abs(fit.drag_amplitude(k) - spec['b0'][q]) < 5e-3, 'wrong-drag', lambda: 'qubit %d: best beta %s, the device has %s' % (q, fit.drag_amplitude(k), spec['b0'][q]))
        if rabi:
            ctx.check(np.allclose(fit.pi_amplitude(), [fit.pi_amplitude(k) for k in range(len(qubits))]), 'angle-list', 'pi_amplitude() and pi_amplitude(qubit) disagree')
        fits.append(((h['repeat'], h['same']), fit, cw.snapshot(fit)))
        ctx.state(kind, qubits, len(xs), spec['single'], h['start'], h['repeat'], h['lazy'])
        ctx.event('fit', kind, len(qubits), h['repeat'])
    compare(ctx, fits, len(qubits))


def iq_result(exps):
    from qiskit.result import Result
    return Result.from_dict({'backend_name': 'sim', 'backend_version': '1.0.0', 'qobj_id': 'q', 'job_id': 'j', 'success': True, 'results': [
        {'shots': e['shots'], 'success': True, 'meas_level': 1, 'meas_return': e['ret'], 'status': 'DONE', 'data': {'memory': copy.deepcopy(e['mem'])},
         'header': {'name': e['name'], 'memory_slots': e['slots']}} for e in exps]})


def deliver_iq(ctx, make, rounds, hist):
    rng = random.Random(hist['plan'])
    fit = ctx.sut('the fitter', make, None)
    first = True
    for r in rounds:
        parts = cw.split(rng, cw.shuffled(rng, r.values()))
        if first or hist['lazy']:
            for p in parts[:-1]:
                ctx.sut('add_data', fit.add_data, iq_result(p), recalc=False, refit=False)
            ctx.sut('add_data', fit.add_data, iq_result(parts[-1]), refit=False)
        else:
            if hist['bad']:
                cw.refused(ctx, fit, rng, cw.snapshot)
            ctx.sut('add_data', fit.add_data, [iq_result(p) for p in parts], refit=False)
        first = False
        ctx.event('delivered', len(parts))
    return fit


def run_ugates(spec, ctx):
    from qiskit.ignis.characterization import calibrations as cal
    from qiskit.circuit.library import U2Gate, U3Gate
    from qiskit.pulse import library as pulse_lib, Schedule, Play
    b = backend()
    imap = copy.deepcopy(b['map'])
    qubits = list(spec['qubits'])
    params = [{'duration': spec['width'], 'amp': spec['amps'][q], 'sigma': spec['width'] / 4, 'beta': spec['b0'][q]} for q in range(3)]
    keep = copy.deepcopy(params)
    gains = [np.pi / 2 / np.sum(pulse_lib.drag(**p).samples).real for p in params]
    scheds = None
    if spec['scheds']:
        scheds = [Schedule((0, Play(pulse_lib.drag(**p), ch))) for p, ch in zip(params, b['drives'])]
    others = [q for q in range(3) if q not in qubits]
    look = lambda q: [(t, type(i).__name__) for t, i in imap.get('u2', qubits=q, P0=0.3, P1=0.2).instructions]
    before = {q: look(q) for q in others}
    ctx.sut('update_u_gates', cal.update_u_gates, params, scheds, qubits, imap, b['drives'])
    ctx.check(params == keep and qubits == spec['qubits'], 'input-changed', 'the pulse parameters handed in were changed')
    for q in qubits:
        a = spec['angles'][q]
        for name, args, gate in (('u2', a[:2], U2Gate), ('u3', a, U3Gate)):
            sched = imap.get(name, qubits=q, **{'P%d' % k: v for k, v in enumerate(args)})
            pulses, frame = drive_pulses(sched, b['drives'][q])
            u = pulse_unitary(pulses, frame, gains[q])
            want = gate(*args).to_matrix()
            ctx.check(alike(u, want), 'wrong-gate', lambda: 'the calibrated %s%s of qubit %d makes\n%s\nnot\n%s' % (name, tuple(args), q, np.round(u, 3), np.round(want, 3)))
            ctx.advance(1e-9 * sched.duration)
            starts = [(t, t + len(p)) for t, _, p in pulses]
            ctx.check(all(e <= s for (_, e), (s, _) in zip(starts, starts[1:])), 'pulses-overlap', 'pulses at %s' % starts)
    ctx.check({q: look(q) for q in others} == before, 'other-qubit-changed', 'the gates of another qubit changed')
    ctx.fault('drive_gain', len(qubits))
    ctx.state('ugates', qubits, spec['scheds'])
    ctx.event('ugates', qubits)

"""Devices on their own clock for the characterization experiments, and delivery histories for their fitters."""
import random

import numpy as np

from sim import device as dv


class ClockedDevice:
    """Product states as Bloch vectors; an identity gate lets `gate_time` pass on its qubit.

    rates: per qubit t1, t2 (coherence time, t2 <= 2 t1), detuning; zz: {(qubit, spectator): rate};
    readout: per qubit (p10, p01) = chance to read 1 for 0 and 0 for 1."""

    def __init__(self, t1, t2, det, zz, readout, gate_time, on_wait=None):
        self.t1, self.t2, self.det, self.zz, self.readout, self.dt = t1, t2, det, zz, readout, gate_time
        self.on_wait = on_wait

    def run(self, circ):
        """Chance of reading 1 in each classical bit, the waiting time of each qubit."""
        n = circ.num_qubits
        bloch = np.zeros((n, 3))
        bloch[:, 2] = 1
        wait = np.zeros(n)
        bits = {}
        qidx = {q: i for i, q in enumerate(circ.qubits)}
        cidx = {c: i for i, c in enumerate(circ.clbits)}
        for inst, qargs, cargs in circ.data:
            qs = [qidx[q] for q in qargs]
            if inst.name == 'barrier':
                continue
            if inst.name == 'measure':
                p1 = (1 - bloch[qs[0], 2]) / 2
                a, b = self.readout[qs[0]]
                bits[cidx[cargs[0]]] = (1 - p1) * a + p1 * (1 - b)
                continue
            if inst.name == 'id':
                q = qs[0]
                self._wait(bloch, q, self.dt)
                wait[q] += self.dt
                continue
            if inst.name == 'delay':
                raise ValueError('delay instructions are not modelled')
            if len(qs) != 1:
                raise ValueError('only one-qubit gates are modelled: %s' % inst.name)
            u = dv.gate_matrix(inst)
            bloch[qs[0]] = rotation(u) @ bloch[qs[0]]
        return bits, wait

    def _wait(self, bloch, q, dt):
        x, y, z = bloch[q]
        phase = 2 * np.pi * self.det[q] * dt
        for (a, s), rate in self.zz.items():
            if a == q:
                phase += 2 * np.pi * rate * dt * (1 - bloch[s, 2]) / 2
        c, s_ = np.cos(phase), np.sin(phase)
        f = np.exp(-dt / self.t2[q])
        bloch[q] = [f * (c * x - s_ * y), f * (s_ * x + c * y), 1 - (1 - z) * np.exp(-dt / self.t1[q])]
        if self.on_wait:
            self.on_wait(q, dt)


_PAULI = [np.array([[0, 1], [1, 0]], complex), np.array([[0, -1j], [1j, 0]]), np.array([[1, 0], [0, -1]], complex)]


def rotation(u):
    """Rotation of the Bloch sphere made by a one-qubit unitary."""
    u = np.asarray(u)
    return np.array([[np.real(np.trace(p @ u @ q @ u.conj().T)) / 2 for q in _PAULI] for p in _PAULI])


def joint(bits, width):
    """Product distribution over the classical bits."""
    probs = {0: 1.0}
    for k in range(width):
        p1 = min(max(bits.get(k, 0.0), 0.0), 1.0)
        new = {}
        for o, p in probs.items():
            for v, w in ((0, 1 - p1), (1, p1)):
                if p * w > 0:
                    new[o | v << k] = p * w
        probs = new
    return probs


def gen_history(rng):
    return {'start': rng.choice(['full', 'full', 'none', 'list']), 'repeat': rng.choice([1, 1, 2, 3]), 'bad': rng.random() < 0.4, 'lazy': rng.random() < 0.3, 'stray': rng.random() < 0.3,
            'plan': rng.randrange(1 << 30), 'same': rng.random() < 0.4}


def executions(h):
    """(multiple of the shots, identity) of each execution of all circuits; with 'same' the first two are alike."""
    return [(1, 0) if h['same'] and r < 2 else (r + 1, r) for r in range(h['repeat'])]


def deliver(ctx, make, rounds, hist, snapshot, stray, auto=True):
    """Feed the rounds ({name: experiment}) to a fitter make(results or None).

    Every call leaves the fitter with complete data, or is told not to calculate yet, or is refused."""
    rng = random.Random(hist['plan'])

    def build(results):
        if auto or results is None:
            return ctx.sut('the fitter', make, results)
        fit = ctx.sut('the fitter', make, None)
        ctx.sut('add_data', fit.add_data, results, refit=False)
        return fit
    more = {} if auto else {'refit': False}
    if hist['start'] == 'list':
        exps = [e for r in rounds for e in r.values()]
        rng.shuffle(exps)
        jobs, used = [], []
        for e in exps:                        # a job holds each circuit at most once
            for j, seen in zip(jobs, used):
                if e['name'] not in seen and rng.random() < 0.6:
                    j.append(e)
                    seen.add(e['name'])
                    break
            else:
                jobs.append([e])
                used.append({e['name']})
        res = [dv.result_of(j + ([stray(rng)] if hist['stray'] else [])) for j in jobs]
        ctx.event('list', len(res))
        return build(res)
    first = dv.result_of(shuffled(rng, rounds[0].values()))
    rest = list(rounds[1:])
    if hist['start'] == 'none':
        fit = build(None)
        rest = list(rounds)
    else:
        fit = build(first)
    for k, r in enumerate(rest):
        parts = split(rng, shuffled(rng, r.values()))
        fresh = hist['start'] == 'none' and k == 0
        if hist['bad'] and not fresh:
            refused(ctx, fit, rng, snapshot)
        if fresh and hist['bad'] and len(parts) > 1:
            ctx.fault('incomplete_delivery')
            ctx.refuses('a first delivery that lacks circuits', fit.add_data, dv.result_of(parts[0]))
        if fresh or hist['lazy']:
            for p in parts[:-1]:
                ctx.sut('add_data', fit.add_data, dv.result_of(p), recalc=False, refit=False)
            if rng.random() < 0.5:
                ctx.sut('add_data', fit.add_data, dv.result_of(parts[-1]), **more)
            else:
                ctx.sut('add_data', fit.add_data, dv.result_of(parts[-1]), recalc=True, refit=False)
                if auto:
                    ctx.sut('fit_data', fit.fit_data)
        elif rng.random() < 0.5:
            ctx.sut('add_data', fit.add_data, [dv.result_of(p) for p in parts], **more)
        else:
            for p in parts:
                ctx.sut('add_data', fit.add_data, dv.result_of(p), **more)
        ctx.event('delivered', len(parts))
        if hist['bad']:
            refused(ctx, fit, rng, snapshot)
    return fit


def refused(ctx, fit, rng, snapshot):
    """A delivery that cannot be used: refused, and nothing changes."""
    before = snapshot(fit)
    ctx.fault('unusable_result')
    bad = rng.choice([None, 'no result', [None]])
    ctx.refuses('add_data(%r)' % (bad,), fit.add_data, bad)
    ctx.check(same(snapshot(fit), before), 'failed-call-changed-data', 'a refused delivery changed the data or fit of the fitter')


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return np.shape(a) == np.shape(b) and bool(np.all(np.equal(a, b)))


def shuffled(rng, xs):
    xs = list(xs)
    rng.shuffle(xs)
    return xs


def split(rng, xs):
    k = rng.randint(1, min(3, len(xs)))
    cuts = sorted(rng.sample(range(1, len(xs)), k - 1)) if k > 1 else []
    return [xs[a:b] for a, b in zip([0] + cuts, cuts + [len(xs)])]


def snapshot(fit):
    """Data and fit parameters as plain values."""
    return [{s: [[np.array(d['mean']), np.array(d['std'])] for d in v] for s, v in fit.ydata.items()},
            {s: [np.array(p) for p in v] for s, v in fit.params.items()}]

"""Analysis sessions: a fitter, filter, mitigator, discriminator or decoder, its data, and the calls made on it.

``Session(cfg, shared)`` draws its inputs from cfg['data'] alone (sessions of the same kind and data share the very same
input objects through ``shared``); ``do(op)`` performs one call and returns a plain value; ``picture()`` shows the public
results of the session; ``inputs`` holds everything handed to the library, for comparison afterwards.
"""
import copy
import itertools
import math
import random
import sys
import _thread

import numpy as np

from sim import core
from sim import device as dv

FLAKY = {}                    # thread -> calls of an optimiser left until one fails


def plain(x):
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    if isinstance(x, (float, np.floating)):
        return float(x) + 0.0
    if isinstance(x, complex):
        return [x.real + 0.0, x.imag + 0.0]
    return core.plain(x)


# ------------------------------------------------------------------ inputs as plain values

def snap(x):
    """What an input looks like now."""
    from qiskit import QuantumCircuit
    from qiskit.result import Result
    if isinstance(x, Result):
        return ['Result', snap(x.to_dict())]
    if isinstance(x, QuantumCircuit):
        return ['circuit', x.name, [(i.name, snap(list(i.params)), [x.qubits.index(q) for q in qa], [x.clbits.index(c) for c in ca]) for i, qa, ca in x.data],
                [str(r) for r in x.qregs], [str(r) for r in x.cregs], x.global_phase]
    if isinstance(x, dict):
        return {(k if isinstance(k, (str, int, tuple)) else repr(k)): snap(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [snap(v) for v in x]
    if isinstance(x, np.ndarray):
        return ['array', str(x.dtype), x.tolist()]
    if hasattr(x, 'edges') and hasattr(x, 'nodes'):
        return ['graph', sorted(map(str, x.nodes)), sorted((str(sorted(map(str, e[:2]))), snap(dict(e[2]))) for e in x.edges(data=True))]
    if isinstance(x, (str, int, float, complex, bool, type(None), np.number)):
        return x
    if hasattr(x, 'name') and hasattr(x, 'params'):
        return ['instruction', x.name, snap(list(x.params))]
    return ['object', type(x).__name__, id(x)]


class Lost(MemoryError):
    """An injected failure."""


def flaky(result, after):
    """The same result whose data become unreadable at the given access."""
    from qiskit.result import Result
    left = [after]

    def tick():
        left[0] -= 1
        if left[0] == 0:
            raise Lost('injected: the data of the job cannot be read')

    class FlakyResult(Result):
        def get_counts(self, *a, **k):
            tick()
            return super().get_counts(*a, **k)

        def get_memory(self, *a, **k):
            tick()
            return super().get_memory(*a, **k)

        def get_statevector(self, *a, **k):
            tick()
            return super().get_statevector(*a, **k)

        def data(self, *a, **k):
            tick()
            return super().data(*a, **k)
    new = copy.copy(result)
    new.__class__ = FlakyResult
    new.disarm = lambda: left.__setitem__(0, 0)
    return new


def install_flaky_optimisers():
    """Optimiser calls consult FLAKY; used in a process of its own."""
    import scipy.optimize as so

    def wrap(fn):
        def inner(*a, **k):
            me = _thread.get_ident()
            if me in FLAKY:
                FLAKY[me] -= 1
                if FLAKY[me] == 0:
                    raise RuntimeError('injected: the optimiser does not converge')
            return fn(*a, **k)
        return inner
    real = {n: getattr(so, n) for n in ('curve_fit', 'minimize', 'nnls', 'least_squares')}
    new = {id(f): wrap(f) for f in real.values()}
    for name, mod in list(sys.modules.items()):
        if name.startswith('qiskit.ignis') and mod is not None:
            for attr, val in list(vars(mod).items()):
                if id(val) in new:
                    setattr(mod, attr, new[id(val)])
    for n, f in real.items():
        setattr(so, n, new[id(f)])


# ------------------------------------------------------------------ sessions

class Session:
    ROUNDS = 3
    BAD = (None, 'no result', [None])

    def __init__(self, cfg, shared):
        self.cfg = cfg
        key = '%s %s' % (cfg['kind'], cfg['data'])
        if key not in shared:
            shared[key] = self.prepare(random.Random(cfg['data']))
        self.inputs = shared[key]
        self.obj = None

    # what a kind supplies
    def prepare(self, rng):
        raise NotImplementedError

    def new(self, style):
        raise NotImplementedError

    def add(self, r, tap):
        raise NotImplementedError

    def bad(self, which):
        return self.obj.add_data(self.BAD[which % len(self.BAD)])

    def fit(self):
        return None

    def query(self, seed):
        return None

    def picture(self):
        return None

    @staticmethod
    def unless_stuck(call):
        """The optimiser may give up on genuine data; it must then do so alone, too."""
        try:
            call()
        except RuntimeError as err:
            if 'Optimal parameters not found' not in str(err):
                raise
            return 'no fit found'
        return None

    # driving
    def do(self, op):
        what = op[0]
        if what == 'new':
            return plain(self.unless_stuck(lambda: self.new(op[1])))
        if self.obj is None:              # its optimiser gave up on the first data
            return None
        if what == 'add':
            return plain(self.add(op[1] % self.ROUNDS, lambda r: r))
        if what == 'flaky':
            made = []

            def tap(r):
                made.append(flaky(r, op[2]))
                return made[-1]
            try:
                return plain(self.add(op[1] % self.ROUNDS, tap))
            finally:
                for r in made:
                    r.disarm()
        if what == 'bad':
            return plain(self.bad(op[1]))
        if what in ('fit', 'flakyfit', 'query', 'flakyquery'):
            me = _thread.get_ident()
            if what.startswith('flaky'):
                FLAKY[me] = op[2]
            try:
                return plain(self.fit() if what.endswith('fit') else self.query(op[1]))
            finally:
                FLAKY.pop(me, None)
        raise ValueError(what)

    def show(self):
        return None if self.obj is None else plain(self.picture())


def bare(x):
    return x if x is None or isinstance(x, np.ndarray) else np.asarray(x.data)


def dist(counts, n):
    tot = sum(counts.values())
    return [counts.get(format(i, '0%db' % n), 0.0) / tot for i in range(2 ** n)]


def sub_counts(rng, n):
    keys = [format(i, '0%db' % n) for i in range(2 ** n)]
    rng.shuffle(keys)
    return {k: rng.choice([0, 3, 40, 500]) + 1 for k in keys}


class Cal(Session):
    def prepare(self, rng):
        from qiskit.ignis.mitigation.measurement import complete_meas_cal
        n = rng.choice([1, 2, 2, 3])
        qubits = rng.sample(range(n + 1), n)
        label = rng.choice(['', 'A', 'x_'])
        circs, labels = complete_meas_cal(list(qubits), circlabel=label)
        rounds = []
        for _ in range(self.ROUNDS):
            a = dv.assignment(rng, n, 0.25, joint=True)
            exps = [dv.exp_of(c, dv.shots_of({i: a[i, int(s, 2)] for i in range(2 ** n)}, 1000)) for c, s in zip(circs, labels)]
            rounds.append(dv.batches(exps, rng.randrange(1 << 20), 2))
        data = [sub_counts(rng, n) for _ in range(3)]
        job = dv.result_of([dv.experiment('m%d' % i, {int(k, 2): v for k, v in d.items()}, [['c', n]]) for i, d in enumerate(data)])
        return {'qubits': qubits, 'labels': labels, 'label': label, 'rounds': rounds, 'counts': data, 'job': job, 'lists': [[float(v) for v in d.values()] for d in data], 'subs': [rng.sample(qubits, k) for k in (1, n)]}

    def new(self, style):
        from qiskit.ignis.mitigation.measurement import CompleteMeasFitter
        i = self.inputs
        if style % 2:
            obj = CompleteMeasFitter(None, i['labels'], i['qubits'], i['label'])
            obj.add_data(i['rounds'][0])
        else:
            obj = CompleteMeasFitter(i['rounds'][0], i['labels'], i['qubits'], i['label'])
        self.obj = obj
        self.filter = None

    def add(self, r, tap):
        rs = self.inputs['rounds'][r]
        self.obj.add_data(rs if tap is None else [tap(x) for x in rs] if r % 2 else tap(rs[0]))

    def fit(self):
        self.filter = self.obj.filter

    def query(self, seed):
        rng = random.Random(seed)
        f = self.filter or self.obj.filter
        n = len(self.inputs['qubits'])
        k = rng.randrange(3)
        c = self.inputs['counts'][k]
        what = seed % 7
        if what == 0:
            return f.apply(c, method='pseudo_inverse')
        if what == 1:
            return {'loose': dist(f.apply(c), n)}
        if what == 2:
            return list(f.apply(self.inputs['lists'][k], method='pseudo_inverse'))
        if what == 3:
            out = f.apply(self.inputs['job'], method='pseudo_inverse')
            return [out.get_counts(j) for j in range(3)] + [out.get_counts('m0')]
        if what == 4:
            sub = self.obj.subset_fitter(self.inputs['subs'][k % 2])
            return [sub.cal_matrix, list(sub.qubit_list), sub.state_labels]
        if what == 5:
            return float(self.obj.readout_fidelity())
        out = f.apply(self.inputs['job'])
        return {'loose': [dist(out.get_counts(j), n) for j in range(3)]}

    def picture(self):
        return [self.obj.cal_matrix, list(self.obj.qubit_list), self.obj.state_labels] + ([self.filter.cal_matrix, self.filter.state_labels] if self.filter else [])


class Tens(Cal):
    def prepare(self, rng):
        from qiskit.ignis.mitigation.measurement import tensored_meas_cal
        pattern = rng.choice([[[0], [1]], [[1], [0]], [[0, 1]], [[2, 0], [1]], [[1], [0, 2]]])
        n = sum(len(g) for g in pattern)
        label = rng.choice(['', 'T'])
        circs, _ = tensored_meas_cal([list(g) for g in pattern], circlabel=label)
        rounds = []
        for _ in range(self.ROUNDS):
            mats, k = [], 0
            for g in pattern:
                mats.append((dv.assignment(rng, len(g), 0.25, joint=True), list(range(k, k + len(g)))))
                k += len(g)
            exps = [dv.exp_of(c, dv.shots_of(dv.apply_readout(dv.Device().probs(c), mats, None), 1000)) for c in circs]
            rounds.append(dv.batches(exps, rng.randrange(1 << 20), 2))
        data = [sub_counts(rng, n) for _ in range(3)]
        job = dv.result_of([dv.experiment('m%d' % i, {int(k, 2): v for k, v in d.items()}, [['c', n]]) for i, d in enumerate(data)])
        return {'pattern': pattern, 'labels': [[format(i, '0%db' % len(g)) for i in range(2 ** len(g))] for g in pattern], 'label': label, 'rounds': rounds, 'counts': data, 'job': job, 'n': n}

    def new(self, style):
        from qiskit.ignis.mitigation.measurement import TensoredMeasFitter
        i = self.inputs
        lab = i['labels'] if style % 2 else None
        if style % 4 > 1:
            obj = TensoredMeasFitter(None, i['pattern'], lab, i['label'])
            obj.add_data(i['rounds'][0])
        else:
            obj = TensoredMeasFitter(i['rounds'][0], i['pattern'], lab, i['label'])
        self.obj = obj
        self.filter = None

    def query(self, seed):
        f = self.filter or self.obj.filter
        n = self.inputs['n']
        c = self.inputs['counts'][random.Random(seed).randrange(3)]
        what = seed % 5
        if what == 0:
            return f.apply(c, method='pseudo_inverse')
        if what == 1:
            return {'loose': dist(f.apply(c), n)}
        if what == 2:
            out = f.apply(self.inputs['job'], method='pseudo_inverse')
            return [out.get_counts(j) for j in range(3)]
        if what == 3:
            return [float(self.obj.readout_fidelity(k)) for k in range(len(self.inputs['pattern']))]
        out = f.apply(self.inputs['job'])
        return {'loose': [dist(out.get_counts(j), n) for j in range(3)]}

    def picture(self):
        return [self.obj.cal_matrices, self.obj.substate_labels_list, self.obj.nqubits] + ([self.filter.cal_matrices, self.filter.substate_labels_list] if self.filter else [])


class Expval(Session):
    def prepare(self, rng):
        from qiskit.ignis.mitigation import expval_meas_mitigator_circuits
        n = rng.choice([1, 2, 2, 3])
        method = rng.choice(['complete', 'tensored', 'CTMP'])
        circs, meta = expval_meas_mitigator_circuits(n, method)
        rounds = []
        for _ in range(self.ROUNDS):
            a = dv.assignment(rng, n, 0.15)
            rounds.append(dv.result_of([dv.exp_of(c, dv.shots_of(dv.apply_readout(dv.Device().probs(c), [(a, list(range(n)))], None), 10 ** 5)) for c in circs]))
        return {'n': n, 'method': method, 'meta': meta, 'rounds': rounds, 'counts': [sub_counts(rng, n) for _ in range(3)], 'diag': [rng.uniform(-1, 1) for _ in range(2 ** n)], 'qubits': rng.sample(range(n), n),
                'clbits': rng.sample(range(n), n), 'sub': rng.sample(range(n), rng.randint(1, n)), 'seed': rng.randrange(1 << 20)}

    def new(self, style):
        self.mit = None
        self.add(0, lambda r: r)

    def add(self, r, tap):
        from qiskit.ignis.mitigation import ExpvalMeasMitigatorFitter
        self.obj = ExpvalMeasMitigatorFitter(tap(self.inputs['rounds'][r]), self.inputs['meta'])

    def bad(self, which):
        if which % 4 == 3:
            return self.obj.fit(method='no such method') and None
        from qiskit.ignis.mitigation import ExpvalMeasMitigatorFitter
        self.obj = ExpvalMeasMitigatorFitter(self.BAD[which % 3], self.inputs['meta'])

    def fit(self):
        self.mit = self.obj.fit()
        if self.inputs['method'] == 'CTMP':
            self.mit.seed(self.inputs['seed'])

    def query(self, seed):
        if self.mit is None:
            self.fit()
        i = self.inputs
        c = i['counts'][random.Random(seed).randrange(3)]
        what = seed % 5
        if what == 0:
            return list(map(float, self.mit.expectation_value(c)))
        if what == 1:
            return list(map(float, self.mit.expectation_value(c, diagonal=i['diag'], qubits=i['qubits'], clbits=i['clbits'])))
        if what == 2:
            from qiskit.ignis.mitigation import expectation_value
            return list(map(float, expectation_value(c, meas_mitigator=self.mit, qubits=i['qubits'])))
        if what == 3:
            return [self.mit.assignment_matrix(i['sub']), self.mit.mitigation_matrix(i['sub'])]
        return [float(self.mit.assignment_fidelity()), float(self.mit.stddev_upper_bound())]

    def picture(self):
        return [self.mit.assignment_matrix(), self.mit.mitigation_matrix()] if self.mit is not None else []


class Rb(Session):
    SIDE = 'std'

    def prepare(self, rng):
        from props import r02
        r02.worker_init()
        while True:
            spec = r02.gen(rng, 'quick')
            if spec['kind'] == self.SIDE and not spec['executed'] and len(spec['lengths']) > 3 and sum(map(len, spec['pattern'])) <= 3:
                break
        spec['seeds'] = [0, 1, 2][:rng.choice([1, 2, 3])]
        spec['shots'] = 10 ** 5
        sizes = [len(g) for g in spec['pattern']]
        total = sum(sizes)
        rounds = []
        for r in range(self.ROUNDS):
            per = []
            for side in r02.sides(self.SIDE):
                exps = []
                variants = [None] if side != 'purity' else [''.join(t) for t in itertools.product('ZXY', repeat=sizes[0])]
                for seed in spec['seeds']:
                    for li in range(len(spec['lengths'])):
                        for let in variants:
                            p = r02.device(spec, side, let, li, seed, None, r)
                            exps.append(dv.experiment(r02.name_of(side, let, li, seed, sizes[0]), dv.shots_of(p, spec['shots']), [['cr', total]]))
                per.append(dv.batches(exps, rng.randrange(1 << 20), 3))
            rounds.append(per)
        return {'rounds': rounds, 'xdata': np.array([[l * m for l in spec['lengths']] for m in spec['mult']]), 'pattern': spec['pattern'], 'late': r02.name_of(r02.sides(self.SIDE)[0], 'Z' * sizes[0], 1, 7, sizes[0]), 'total': total}

    def cls(self):
        import qiskit.ignis.verification.randomized_benchmarking as rb
        return {'std': rb.RBFitter, 'int': rb.InterleavedRBFitter, 'purity': rb.PurityRBFitter, 'dihedral': rb.CNOTDihedralRBFitter}[self.SIDE]

    def new(self, style):
        i = self.inputs
        extra = (3 ** len(i['pattern'][0]),) if self.SIDE == 'purity' else ()
        nsides = len(i['rounds'][0])
        if style % 2:
            obj = self.cls()(*[None] * nsides, *extra, i['xdata'], i['pattern'])
            obj.add_data(*i['rounds'][0])
        else:
            obj = self.cls()(*i['rounds'][0], *extra, i['xdata'], i['pattern'])
        self.obj = obj

    def add(self, r, tap):
        return self.unless_stuck(lambda: self.obj.add_data(*[[tap(x) for x in side] if r % 2 else tap(side[0]) for side in self.inputs['rounds'][r]]))

    def bad(self, which):
        nsides = len(self.inputs['rounds'][0])
        if which % 5 == 3:                  # one circuit of a seed never seen
            late = dv.result_of([dv.experiment(self.inputs['late'], {0: 10, 1: 3}, [['cr', self.inputs['total']]])])
            return self.obj.add_data(*[late] * nsides)
        if which % 5 == 4 and nsides > 1:   # the second part of the delivery is unusable
            return self.obj.add_data(self.inputs['rounds'][1][0], 'no result')
        b = self.BAD[which % 3]
        return self.obj.add_data(*[b] * nsides)

    def fit(self):
        self.obj.calc_data()
        self.obj.calc_statistics()
        return self.unless_stuck(self.obj.fit_data)

    def query(self, seed):
        f = self.obj
        return [f.seeds, len(f.results) if self.SIDE in ('std', 'purity') else [len(x) for x in f.results], np.asarray(f.cliff_lengths)]

    def picture(self):
        f = self.obj
        out = {'raw': f.raw_data, 'y': f.ydata, 'fit': f.fit, 'seeds': f.seeds}
        if self.SIDE == 'int':
            out['fit_int'] = f.fit_int
        if self.SIDE == 'dihedral':
            out['fit_cd'] = f.fit_cnotdihedral
        return out


class RbInt(Rb):
    SIDE = 'int'


class RbPurity(Rb):
    SIDE = 'purity'


class RbDihedral(Rb):
    SIDE = 'dihedral'


class Qv(Session):
    def prepare(self, rng):
        depths = sorted(rng.sample([1, 2, 3], rng.choice([1, 2])))
        lists = [rng.sample(range(d + 1), d) for d in depths]
        trials = rng.choice([1, 2, 3])
        svs, rounds, spare = [], [], None
        names = ['qv_depth_%d_trial_%d' % (d, t) for t in range(trials) for d in depths]

        def state(d):
            v = np.array([complex(rng.gauss(0, 1), rng.gauss(0, 1)) for _ in range(2 ** d)])
            return v / np.linalg.norm(v)
        ideal = {}
        for name in names + ['qv_depth_%d_trial_%d' % (d, trials + 1) for d in depths]:
            ideal[name] = state(int(name.split('_')[2]))
        svs = {n: dict(dv.experiment(n, {}, []), statevector=ideal[n], counts=None) for n in ideal}
        for _ in range(self.ROUNDS):
            exps = []
            for n in names:
                d = int(n.split('_')[2])
                p = {o: float(abs(ideal[n][o]) ** 2) for o in range(2 ** d)}
                exps.append(dv.experiment(n, dv.sample_shots(p, 500, rng), [['c', d]]))
            rounds.append(dv.batches(exps, rng.randrange(1 << 20), 3))
        spare = dv.result_of([svs[n] for n in svs if n not in names])
        lone = dv.result_of([dv.experiment('qv_depth_%d_trial_%d' % (depths[0], trials + 1), {0: 10}, [['c', depths[0]]])])
        return {'lists': lists, 'ideal': dv.batches([svs[n] for n in names], rng.randrange(1 << 20), 2), 'rounds': rounds, 'spare': spare, 'lone': lone}

    def new(self, style):
        from qiskit.ignis.verification.quantum_volume import QVFitter
        i = self.inputs
        if style % 2:
            obj = QVFitter(None, None, i['lists'])
            obj.add_statevectors(i['ideal'])
            obj.add_data(i['rounds'][0])
        else:
            obj = QVFitter(i['rounds'][0], i['ideal'], i['lists'])
        self.obj, self.spare = obj, False

    def add(self, r, tap):
        rs = self.inputs['rounds'][r]
        self.obj.add_data([tap(x) for x in rs] if r % 2 else tap(rs[0]))

    def bad(self, which):
        k = which % 6
        if k == 3:
            return self.obj.add_statevectors(self.inputs['ideal'])
        if k == 4:
            fresh, self.spare = not self.spare, True
            if fresh:
                self.obj.add_statevectors(self.inputs['spare'])      # may succeed: more ideal circuits than were run
            return None
        if k == 5:
            if not self.spare:
                self.spare = True
                self.obj.add_statevectors(self.inputs['spare'])
                return None
            return self.obj.add_data(self.inputs['lone'])            # a trial of which one depth only was run
        return self.obj.add_data(self.BAD[k]) if which % 2 else self.obj.add_statevectors(self.BAD[k])

    def fit(self):
        self.obj.calc_data()
        self.obj.calc_statistics()

    def query(self, seed):
        return [self.obj.qv_success(), self.obj.quantum_volume(), self.obj.depths, self.obj.qubit_lists]

    def picture(self):
        f = self.obj
        return {'y': f.ydata, 'heavy': {k: sorted(v) for k, v in f.heavy_outputs.items()}, 'counts': dict(f.heavy_output_counts), 'ideal': dict(f.heavy_output_prob_ideal)}


class Accred(Session):
    ROUNDS = 4

    def prepare(self, rng):
        n, traps = rng.choice([1, 2, 3]), rng.choice([3, 4])
        rounds = []
        for _ in range(self.ROUNDS):
            v0 = rng.randrange(traps + 1)
            postp = [[rng.randrange(2) for _ in range(n)] for _ in range(traps + 1)]
            exps = []
            for k in range(traps + 1):
                want = int(''.join(map(str, postp[k])), 2)
                if k == v0:
                    want = rng.randrange(2 ** n)
                elif rng.random() < 0.1:
                    want ^= 1
                exps.append(dv.experiment('accred_%d' % k, {want: 1}, [['c', n]]))
            rounds.append([dv.result_of(exps), postp, v0])
        return {'rounds': rounds, 'theta': rng.uniform(0.01, 0.2)}

    def new(self, style):
        from qiskit.ignis.verification.accreditation import AccreditationFitter
        self.obj = AccreditationFitter()
        self.add(0, lambda r: r)

    def add(self, r, tap):
        res, postp, v0 = self.inputs['rounds'][r]
        self.obj.single_protocol_run(tap(res), postp, v0)

    def bad(self, which):
        res, postp, v0 = self.inputs['rounds'][1]
        k = which % 4
        if k == 0:
            return self.obj.single_protocol_run(None, postp, v0)
        if k == 1:
            return self.obj.single_protocol_run(res, postp[:-1], v0)
        if k == 2:
            return self.obj.single_protocol_run(res, postp + [postp[0]], v0)
        many = dv.result_of([dv.experiment('a%d' % j, {0: 2}, [['c', len(postp[0])]]) for j in range(len(postp))])
        return self.obj.single_protocol_run(many, postp, v0)

    def fit(self):
        if self.obj.N_acc:
            self.obj.bound_variation_distance(self.inputs['theta'])

    def query(self, seed):
        return [self.obj.N_acc, self.obj.num_runs, self.obj.flag]

    def picture(self):
        f = self.obj
        return [f.bound, f.confidence, f.N_acc, f.num_runs, f.flag, f.num_traps, f.g_num, f.outputs]


class Tomo(Session):
    def prepare(self, rng):
        from qiskit import QuantumCircuit
        from qiskit.ignis.verification.tomography import state_tomography_circuits, process_tomography_circuits
        proc = self.cfg['kind'] == 'process'
        n = 1 if proc else rng.choice([1, 2, 2])
        qc = QuantumCircuit(n + 1)
        dv.random_gates(rng, qc, list(range(n)), 4)
        qs = rng.sample(range(n), n)
        circs = process_tomography_circuits(qc, [0]) if proc else state_tomography_circuits(qc, [qc.qubits[q] for q in qs])
        probs = [dv.Device().probs(c) for c in circs]
        rounds = []
        for _ in range(self.ROUNDS):
            idx = list(range(len(circs)))
            cut = rng.randint(1, len(circs) - 1)
            rounds.append([dv.result_of([dv.exp_of(circs[k], dv.sample_shots(probs[k], 400, rng)) for k in part]) for part in (idx[:cut], idx[cut:])])
        return {'circs': circs, 'rounds': rounds, 'qc': qc}

    def new(self, style):
        from qiskit.ignis.verification.tomography import StateTomographyFitter, ProcessTomographyFitter
        cls = ProcessTomographyFitter if self.cfg['kind'] == 'process' else StateTomographyFitter
        self.obj = cls(self.inputs['rounds'][0], self.inputs['circs'])
        self.rho = None

    def add(self, r, tap):
        self.obj.add_data([tap(x) for x in self.inputs['rounds'][r]], self.inputs['circs'])

    def bad(self, which):
        k = which % 4
        if k == 3:
            return self.obj.add_data([self.inputs['rounds'][1][0]], self.inputs['circs'])
        return self.obj.add_data(self.BAD[k] if k != 1 else ['no result'], self.inputs['circs'])

    def fit(self):
        self.rho = self.obj.fit(method='lstsq')

    def query(self, seed):
        out = self.obj.fit(method='lstsq', standard_weights=bool(seed % 2), beta=[0.5, 0.1][seed % 3 == 0])
        return bare(out)

    def picture(self):
        return [{str(k): {a: b for a, b in sorted(v.items())} for k, v in self.obj.data.items()}, bare(self.rho)]


class Gst(Session):
    def prepare(self, rng):
        from qiskit.ignis.verification.tomography import gateset_tomography_circuits
        from qiskit.ignis.verification.tomography.basis import default_gateset_basis
        basis = default_gateset_basis()
        circs = gateset_tomography_circuits(gateset_basis=basis)
        rounds = [dv.result_of([dv.exp_of(c, dv.sample_shots(dv.Device().probs(c), 2000, rng)) for c in circs])]
        return {'circs': circs, 'rounds': rounds}

    ROUNDS = 1

    def new(self, style):
        self.add(0, lambda r: r)

    def add(self, r, tap):
        from qiskit.ignis.verification.tomography import GatesetTomographyFitter
        self.obj = GatesetTomographyFitter(tap(self.inputs['rounds'][0]), self.inputs['circs'])
        self.lin = None

    def bad(self, which):
        from qiskit.ignis.verification.tomography import GatesetTomographyFitter
        self.obj = GatesetTomographyFitter(self.BAD[which % 3], self.inputs['circs'])

    def fit(self):
        self.lin = {k: np.array(v.data) for k, v in self.obj.linear_inversion().items()}

    def query(self, seed):
        return {k: np.array(v.data) for k, v in self.obj.linear_inversion().items()}

    def picture(self):
        return self.lin


class Char(Session):
    """Relaxation, Ramsey and amplitude-calibration fitters on averaged counts."""

    def prepare(self, rng):
        kind = rng.choice(['t1', 't2star', 'ampcal', 'zz'])
        n = rng.choice([1, 2, 3])
        qubits = rng.sample(range(n + 1), n)
        x = np.linspace(1, 40, 14) if kind != 'ampcal' else np.arange(1, 12)
        if kind == 'ampcal':
            x = np.arange(12)
        series = ['0', '1'] if kind == 'zz' else ['0']
        name = {'t1': 't1circuit_%d_', 't2star': 't2starcircuit_%d_', 'ampcal': 'ampcal1Qcircuit_%d_', 'zz': 'zzcircuit_%d_'}[kind]
        if kind == 'ampcal':
            from qiskit.ignis.characterization.gates import ampcal_1Q_circuits
            circs, x = ampcal_1Q_circuits(11, qubits)
            names = [c.name[:-1] if c.name.endswith('_0') else c.name for c in circs]
        else:
            names = [name % k for k in range(len(x))]
        par = [[rng.uniform(18, 22), rng.uniform(0.09, 0.11), rng.uniform(-0.02, 0.02)] for _ in qubits]
        rounds = []
        for r in range(self.ROUNDS):
            exps = []
            for s in series:
                for k, t in enumerate(np.asarray(x)):
                    bits = {}
                    for j in range(n):
                        tau, f, e = par[j]
                        if kind == 't1':
                            p1 = 0.9 * math.exp(-t / tau) + 0.05
                        elif kind == 't2star':
                            p1 = 1 - (0.45 * math.exp(-t / tau) * math.cos(2 * math.pi * f * t) + 0.5)
                        elif kind == 'zz':
                            p1 = 1 - (0.45 * math.cos(2 * math.pi * (f + (0.01 if s == '1' else 0)) * t) + 0.5)
                        else:
                            p1 = 1 - (0.45 * math.cos((math.pi / 2 + e) * t + math.pi / 2 + e) + 0.5)
                        bits[j] = p1
                    from sim.charworld import joint
                    nm = names[k] + s if kind != 'ampcal' else circs[k].name
                    exps.append(dv.experiment(nm, dv.sample_shots(joint(bits, n), 2000, rng) if r else dv.shots_of(joint(bits, n), 2000), [['c', n]]))
            rounds.append(dv.batches(exps, rng.randrange(1 << 20), 2))
        p0 = {'t1': [0.9, 20, 0.05], 't2star': [0.45, 20, 0.1, 0, 0.5], 'zz': [0.45, 0.1, 0, 0.5], 'ampcal': [0.01, 0.5]}[kind]
        bounds = {'t1': ([0, 0, -1], [2, 200, 1]), 't2star': ([-1, 0, 0, -3, -1], [2, 200, 1, 3, 2]), 'zz': ([-1, 0, -3, -1], [2, 1, 3, 2]), 'ampcal': ([-0.3, -1], [0.3, 1])}[kind]
        return {'kind': kind, 'qubits': qubits, 'x': x, 'rounds': rounds, 'p0': p0, 'bounds': bounds, 'spect': [q + 5 for q in qubits], 'plan': rng.randrange(1 << 20)}

    def new(self, style):
        from qiskit.ignis.characterization import coherence as co
        from qiskit.ignis.characterization import hamiltonian as ham
        from qiskit.ignis.characterization import gates as ga
        i = self.inputs
        first = i['rounds'][0] if style % 2 == 0 else None
        if i['kind'] == 't1':
            obj = co.T1Fitter(first, i['x'], i['qubits'], i['p0'], i['bounds'])
        elif i['kind'] == 't2star':
            obj = co.T2StarFitter(first, i['x'], i['qubits'], i['p0'], i['bounds'])
        elif i['kind'] == 'zz':
            obj = ham.ZZFitter(first, i['x'], i['qubits'], i['spect'], i['p0'], i['bounds'])
        else:
            obj = ga.AmpCalFitter(first, i['x'], i['qubits'], i['p0'], i['bounds'])
        if first is None:
            obj.add_data(i['rounds'][0])
        self.obj = obj

    def add(self, r, tap):
        rs = self.inputs['rounds'][r]
        return self.unless_stuck(lambda: self.obj.add_data([tap(x) for x in rs] if r % 2 else tap(rs[0])))

    def fit(self):
        return self.unless_stuck(self.obj.fit_data)

    def query(self, seed):
        f, n = self.obj, len(self.inputs['qubits'])
        k = seed % n
        if self.inputs['kind'] in ('t1', 't2star'):
            return {'params': [f.time(k), f.time(), f.time_err(k)]}
        if self.inputs['kind'] == 'zz':
            return {'params': [f.ZZ_rate(k), list(f.ZZ_rate())]}
        return {'params': [f.angle_err(k), list(f.angle_err())]}

    def picture(self):
        f = self.obj
        return {'y': f.ydata, 'params': f.params, 'params_err': f.params_err, 'qubits': f.measured_qubits, 'x': list(f.xdata)}


class Disc(Session):
    ROUNDS = 2

    def prepare(self, rng):
        from props import d01
        while True:
            spec = d01.gen(rng, 'quick')
            if spec['names'] == 'cal' and spec['disc'] in ('lda', 'qda', 'knn'):
                break
        cen = d01.centres(spec)
        rounds = []
        for _ in range(self.ROUNDS):
            exps = [d01.exp('cal_%s' % s, [d01.shot(rng, spec, cen, s) for _ in range(spec['shots'])]) for s in spec['states']]
            rng.shuffle(exps)
            rounds.append([d01.result(exps, spec['slots']), [e['name'] for e in exps], [e['name'][4:] for e in exps]])
        later = [rng.choice(spec['states']) for _ in range(10)]
        job = d01.result([d01.exp('m', [d01.shot(rng, spec, cen, s) for s in later]), d01.exp('m2', [d01.shot(rng, spec, cen, s) for s in later[:4]])], spec['slots'])
        return {'spec': spec, 'rounds': rounds, 'job': job, 'mask': list(spec['mask'])}

    def new(self, style):
        from props import d01
        i = self.inputs
        res, names, labels = i['rounds'][0]
        self.obj = d01.build(i['spec'], res, i['mask'], labels if style % 2 else None, schedules=names if style % 4 > 1 else None, standardize=i['spec']['scale'])

    def add(self, r, tap):
        res, names, labels = self.inputs['rounds'][r]
        self.obj.add_data(tap(res), labels, schedules=names if r % 2 else None)

    def bad(self, which):
        res, names, labels = self.inputs['rounds'][1]
        if which % 4 == 3:
            return self.obj.add_data(res, labels[:-1], schedules=names)
        if which % 4 == 2:
            return self.obj.add_data(res, labels + labels[:1], schedules=names + ['cal_none'])
        return self.obj.add_data('no result', labels, schedules=names)

    def fit(self):
        self.obj.fit()

    def query(self, seed):
        from qiskit.ignis.measurement.discriminator.filters import DiscriminationFilter
        if seed % 2:
            return list(map(str, self.obj.discriminate(self.obj.get_xdata(self.inputs['job'], 2))))
        out = DiscriminationFilter(self.obj).apply(self.inputs['job'])
        return [out.get_counts(k) for k in range(2)]

    def picture(self):
        d = self.obj
        return [dict(d.expected_states), [getattr(s, 'name', s) for s in d.schedules], d.fitted,
                list(map(str, d.discriminate(d.get_xdata(self.inputs['job'], 2))))]


_TOPO = {}


class Topo(Session):
    def prepare(self, rng):
        from qiskit.ignis.verification.topological_codes import RepetitionCode, GraphDecoder
        if not _TOPO:
            code = RepetitionCode(3, 1)
            _TOPO['g'] = GraphDecoder(code).S
        code = RepetitionCode(3, 1)
        rounds = []
        for _ in range(self.ROUNDS):
            raw = {}
            for log in '01':
                flips = {}
                for _ in range(30):
                    a = [int(log)] * 3
                    s = [0, 0]
                    if rng.random() < 0.5:
                        a[rng.randrange(3)] ^= 1
                    s = [a[0] ^ a[1], a[1] ^ a[2]]
                    if rng.random() < 0.3:
                        s[rng.randrange(2)] ^= 1
                    key = ''.join(map(str, a)) + ' ' + ''.join(map(str, s))
                    flips[key] = flips.get(key, 0) + 1
                raw[log] = flips
            rounds.append([raw, code.process_results(raw)])
        return {'code': code, 'graph': copy.deepcopy(_TOPO['g']), 'rounds': rounds}

    def new(self, style):
        from qiskit.ignis.verification.topological_codes import GraphDecoder
        self.obj = GraphDecoder(self.inputs['code'], S=self.inputs['graph'])

    def add(self, r, tap):
        self.obj.weight_syndrome_graph(self.inputs['rounds'][r][1])

    def bad(self, which):
        return self.obj.weight_syndrome_graph([None, {}, 'x'][which % 3])

    def query(self, seed):
        from qiskit.ignis.verification.topological_codes import lookuptable_decoding, postselection_decoding
        raw, res = self.inputs['rounds'][seed % self.ROUNDS]
        k = seed % 5
        if k == 0:
            return self.obj.get_logical_prob(res)
        if k == 1:
            return [self.obj.matching(s) for s in sorted(res['0'])]
        if k == 2:
            return lookuptable_decoding(res, self.inputs['rounds'][0][1])
        if k == 3:
            return postselection_decoding(res)
        return self.inputs['code'].process_results(raw)

    def picture(self):
        return sorted([sorted(map(str, e[:2])), e[2]['distance']] for e in self.obj.S.edges(data=True))


class Make(Session):
    """Generators and small utilities called with the user's circuits, lists and counts."""

    def prepare(self, rng):
        from qiskit import QuantumCircuit, QuantumRegister, ClassicalRegister
        from qiskit.circuit.library import XGate
        qc = QuantumCircuit(QuantumRegister(2, 'q'), QuantumRegister(1, 'b'))
        dv.random_gates(rng, qc, [0, 1, 2], 5)
        target = QuantumCircuit(2, 2)
        dv.random_gates(rng, target, [0, 1], 4, names=('h', 's', 'cx', 'x'))
        target.measure([0, 1], [0, 1])
        cnt = {format(i, '03b'): rng.randint(1, 50) for i in range(8)}
        cnt2 = {format(i, '03b'): rng.randint(1, 50) for i in range(0, 8, 2)}
        return {'qc': qc, 'target': target, 'qubits': rng.sample(range(3), 2), 'pattern': [[1, 0], [2]], 'lengths': [1, 3, 4], 'mult': [1, 2], 'lists': [[0], [1, 0], [2, 0, 1]], 'grid': [1, 3, 7], 'cnt': cnt, 'cnt2': cnt2,
                'elem': [XGate()], 'inter': QuantumCircuit(1), 'labels': ['000', '111', '010'], 'weights': [[0, 1], [2]], 'creg': ClassicalRegister(3, 'c'), 'spect': [5, 6]}

    def new(self, style):
        self.obj = True

    def add(self, r, tap):
        return self.query(r)

    def bad(self, which):
        from qiskit.ignis.verification.tomography import state_tomography_circuits
        return state_tomography_circuits(self.inputs['qc'], [99]) and None

    def query(self, seed):
        from props.g01 import nest
        import qiskit.ignis.verification as ve
        from qiskit.ignis.verification.tomography import data as td
        i = self.inputs
        k = seed % 14
        if k == 0:
            return nest(ve.state_tomography_circuits(i['qc'], i['qubits']), False)
        if k == 1:
            return nest(ve.process_tomography_circuits(i['qc'], i['qubits'][:1]), False)
        if k == 2:
            from qiskit.ignis.verification.accreditation import AccreditationCircuits
            return nest(list(AccreditationCircuits(i['target'], seed=3).generate_circuits(3)), False)
        if k == 3:
            return nest(list(ve.randomized_benchmarking_seq(nseeds=1, length_vector=i['lengths'], rb_pattern=i['pattern'], length_multiplier=i['mult'], rand_seed=7)), False)
        if k == 4:
            return nest(list(ve.randomized_benchmarking_seq(nseeds=1, length_vector=i['lengths'], rb_pattern=[[0]], interleaved_elem=i['elem'], rand_seed=7)), False)
        if k == 5:
            return nest(list(ve.qv_circuits(i['lists'], 2, seed=5)), False)
        if k == 6:
            from qiskit.ignis.characterization import t1_circuits, t2_circuits
            return nest([t1_circuits(i['grid'], 1.0, i['qubits'])[0], t2_circuits(i['grid'], 1.0, i['qubits'], 2)[0]], False)
        if k == 7:
            from qiskit.ignis.characterization import zz_circuits, ampcal_cx_circuits
            return nest([zz_circuits(i['grid'], 1.0, i['qubits'], i['spect'])[0], ampcal_cx_circuits(3, i['qubits'], i['spect'])[0]], False)
        if k == 8:
            from qiskit.ignis.mitigation.measurement import complete_meas_cal, tensored_meas_cal
            return nest([complete_meas_cal(i['qubits'])[0], tensored_meas_cal(i['pattern'])[0]], False)
        if k == 9:
            from qiskit.ignis.mitigation import expval_meas_mitigator_circuits
            c, m = expval_meas_mitigator_circuits(3, 'complete', i['labels'])
            return [nest(c, False), m]
        if k == 10:
            return [td.combine_counts(i['cnt'], i['cnt2']), td.marginal_counts(i['cnt'], [0, 2])]
        if k == 11:
            return td.marginal_counts(i['cnt2'], True)
        if k == 12:
            from qiskit.ignis.utils import build_counts_dict_from_list
            out = build_counts_dict_from_list([i['cnt']])
            both = build_counts_dict_from_list([i['cnt'], i['cnt2']])
            return [out, both]
        from qiskit.ignis.verification.tomography import gateset_tomography_circuits
        return nest(gateset_tomography_circuits(measured_qubits=[i['qubits'][0]])[:20], False)

    def picture(self):
        return None


KINDS = {'cal': Cal, 'tens': Tens, 'expval': Expval, 'rb': Rb, 'rbint': RbInt, 'rbpurity': RbPurity, 'rbdihedral': RbDihedral, 'qv': Qv, 'accred': Accred, 'state': Tomo, 'process': Tomo,
         'gst': Gst, 'char': Char, 'disc': Disc, 'topo': Topo, 'make': Make}


def make(cfg, shared):
    return KINDS[cfg['kind']](cfg, shared)


# ------------------------------------------------------------------ comparing

def differs(a, b, where='', loose=False, strict=False):
    """None, or the place where two plain values differ."""
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return '%s: keys %s versus %s' % (where, sorted(set(a) - set(b))[:5], sorted(set(b) - set(a))[:5])
        for k in a:
            mode = 'loose' if k == 'loose' else 'err' if 'err' in k or k in ('pcov',) else 'fit' if k in ('params', 'fit', 'fit_int', 'fit_cd') else loose
            d = differs(a[k], b[k], '%s[%s]' % (where, k), loose if loose == 'err' else mode, strict)
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return '%s: %d versus %d entries' % (where, len(a), len(b))
        for k, (x, y) in enumerate(zip(a, b)):
            d = differs(x, y, '%s[%d]' % (where, k), loose, strict)
            if d:
                return d
        return None
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool):
        if strict:
            ok = a == b or (a != a and b != b)
        else:
            rt, at = {False: (1e-6, 1e-7), 'loose': (0, 0.02), 'err': (0.05, 1e-6), 'fit': (1e-3, 1e-5)}[loose]
            ok = a == b or (a != a and b != b) or abs(a - b) <= at + rt * max(abs(a), abs(b))
        return None if ok else '%s: %r versus %r' % (where, a, b)
    return None if a == b and type(a) == type(b) else '%s: %r versus %r' % (where, a, b)

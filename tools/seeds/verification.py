V = 'qiskit/ignis/verification/'
RC, RF, RD = (V + 'randomized_benchmarking/' + f for f in ('circuits.py', 'fitters.py', 'dihedral.py'))
QC, QF = V + 'quantum_volume/circuits.py', V + 'quantum_volume/fitters.py'
AF, AQ = V + 'accreditation/fitters.py', V + 'accreditation/qotp.py'
TC, TF = V + 'topological_codes/circuits.py', V + 'topological_codes/fitters.py'
P = V + 'entanglement/parallelize.py'
RES = '''
import numpy as np
from qiskit.result import Result
def result(exps):
    return Result.from_dict({'backend_name': 'x', 'backend_version': '1', 'qobj_id': 'q', 'job_id': 'j', 'success': True, 'results': [
        {'shots': sum(c.values()), 'success': True, 'data': {'counts': {hex(int(k.replace(' ', ''), 2)): v for k, v in c.items()}},
         'header': {'name': n, 'creg_sizes': [['c%d' % i, len(r)] for i, r in enumerate(next(iter(c)).split(' ')[::-1])],
                    'memory_slots': len(next(iter(c)).replace(' ', ''))}} for n, c in exps]})
'''
GC = '''                    try:
                        count_list.append(result.get_counts(circ_name))
                    except (QiskitError, KeyError):
                        pass

                circ_counts'''
SEEDS = [
    dict(id='r01-purity-order', property='R01',
         needs='purity sequences on qubits that are not listed in ascending order',
         breaks='the purity variants measure the qubits in ascending order instead of pattern order',
         edits=[(RC, '''                        for qind, qb in enumerate(qlist_flat):
                            circ_purity[d].measure(qr[qb], cr[qind])''', '''                        for qind, qb in enumerate(sorted(qlist_flat)):
                            circ_purity[d].measure(qr[qb], cr[qind])''')],
         demo='''
from qiskit.ignis.verification.randomized_benchmarking import randomized_benchmarking_seq
def flat(x):
    return [x] if not isinstance(x, list) else [c for y in x for c in flat(y)]
circs = flat(randomized_benchmarking_seq(nseeds=1, length_vector=[1, 3], rb_pattern=[[2], [0]], is_purity=True, rand_seed=5)[0])
assert circs
for c in circs:
    m = {q[0].index: k[0].index for i, q, k in c.data if i.name == 'measure'}
    assert m == {2: 0, 0: 1}, m
'''),
    dict(id='r02-dedupe', property='R02',
         needs='two campaigns in which the same circuit happened to give the same counts',
         breaks='equal counts of different deliveries are taken for one delivery, so averages weigh shots wrongly',
         edits=[(RF, GC, '''                    try:
                        counts = result.get_counts(circ_name)
                        if counts not in count_list:
                            count_list.append(counts)
                    except (QiskitError, KeyError):
                        pass

                circ_counts''')],
         demo=RES + '''
from qiskit.ignis.verification.randomized_benchmarking import RBFitter
def camp(a, b):
    return result([('rb_length_0_seed_0', {'0': a, '1': 100 - a}), ('rb_length_1_seed_0', {'0': b, '1': 100 - b})])
f = RBFitter([camp(90, 80)], [[1, 5]], [[0]])
f.add_data([camp(90, 70)])
f.add_data([camp(60, 80)])
assert np.allclose(np.array(f.raw_data[0]), [[.8, 230 / 300]]), f.raw_data
'''),
    dict(id='q01-ntrials', property='Q01',
         needs='results of the trials delivered so that a later trial comes first',
         breaks='trials that are not delivered in ascending order are left out of the statistics',
         edits=[(QF, '''                if (ntrials_circ+1) > self._ntrials:
                    self._ntrials = ntrials_circ+1''', '''                if ntrials_circ == self._ntrials:
                    self._ntrials = ntrials_circ+1''')],
         demo=RES + '''
from qiskit.ignis.verification.quantum_volume import QVFitter
def exp(t, a):
    return result([('qv_depth_1_trial_%d' % t, {'0': a, '1': 100 - a})])
def ideal(t):
    return Result.from_dict({'backend_name': 'x', 'backend_version': '1', 'qobj_id': 'q', 'job_id': 'j', 'success': True, 'results': [
        {'shots': 1, 'success': True, 'data': {'statevector': [[np.sqrt(.9), 0], [np.sqrt(.1), 0]]}, 'header': {'name': 'qv_depth_1_trial_%d' % t, 'creg_sizes': [['c', 1]], 'memory_slots': 1}}]})
f = QVFitter(qubit_lists=[[0]])
for t in (2, 0, 1):
    f.add_statevectors(ideal(t))
f.add_data([exp(t, 60 + 10 * t) for t in (2, 0, 1)])
assert abs(f.ydata[0][0] - .7) < 1e-9, f.ydata
'''),
    dict(id='q01-dedupe', property='Q01',
         needs='a repeated campaign that gave a circuit the same counts again',
         breaks='equal counts of a repeated campaign are counted once while other circuits count twice',
         edits=[(QF, '''                        count_list.append(result.get_counts(circ_name))''', '''                        counts = result.get_counts(circ_name)
                        if counts not in count_list:
                            count_list.append(counts)''')],
         demo=RES + '''
from qiskit.ignis.verification.quantum_volume import QVFitter
def exp(a, b):
    return result([('qv_depth_1_trial_0', {'0': a, '1': 100 - a}), ('qv_depth_1_trial_1', {'0': b, '1': 100 - b})])
ideal = Result.from_dict({'backend_name': 'x', 'backend_version': '1', 'qobj_id': 'q', 'job_id': 'j', 'success': True, 'results': [
    {'shots': 1, 'success': True, 'data': {'statevector': [[np.sqrt(.9), 0], [np.sqrt(.1), 0]]}, 'header': {'name': 'qv_depth_1_trial_%d' % t, 'creg_sizes': [['c', 1]], 'memory_slots': 1}} for t in (0, 1)]})
f = QVFitter(qubit_lists=[[0]], statevector_result=ideal)
f.add_data([exp(90, 50)])
f.add_data([exp(90, 60)])
assert abs(f.ydata[0][0] - 290 / 400) < 1e-9, f.ydata
'''),
    dict(id='a01-trap-wrap', property='A01',
         needs='the target in the first or last place and a fault in nothing but the trap at the other end',
         breaks='the trap at the other end of the list from the target is taken for the target and not looked at',
         edits=[(AF, '''            if k != v_zero:''', '''            if (k - v_zero) % num_traps:''')],
         demo=RES + '''
from qiskit.ignis.verification.accreditation import AccreditationFitter
z = [0, 0, 0]
for target in range(4):
    for bad in range(4):
        f = AccreditationFitter()
        f.single_protocol_run(result([('c%d' % i, {'011' if i == bad else '000': 1}) for i in range(4)]), [z] * 4, target)
        assert f.N_acc == (target == bad), (target, bad)
'''),
    dict(id='t01-nearest-tie', property='T01',
         needs='a defect about as far from either end of the code',
         breaks='distances to the ends of the code are compared in halves, so that close cases go to the wrong end',
         edits=[(TF, '''            nearest_logical = max(potential_logical, key=potential_logical.get)''', '''            nearest_logical = max(potential_logical, key=lambda n: (potential_logical[n] // 2, n))''')],
         demo='''
from qiskit import execute, BasicAer, QuantumCircuit
from qiskit.ignis.verification.topological_codes import RepetitionCode, GraphDecoder
for d in (3, 4, 5):
    code = RepetitionCode(d, 1)
    decoder = GraphDecoder(code)
    for log in ('0', '1'):
        for flips in ([], [0], [d - 1], [1]):
            qc = QuantumCircuit(*code.circuit[log].qregs, *code.circuit[log].cregs)
            for q in flips:
                qc.x(code.code_qubit[q])
            qc = qc + code.circuit[log]
            counts = execute(qc, BasicAer.get_backend('qasm_simulator'), shots=5).result().get_counts()
            (string,) = code.process_results({log: counts})[log]
            got = decoder.matching(string)
            assert got == log + ' ' + log, (d, log, flips, got)
'''),
    dict(id='t01-late-reset', property='T01',
         needs='a repetition code of at least four syndrome rounds',
         breaks='ancillas are no longer reset from the third round on, so that defects show up twice',
         edits=[(TC, '''                if reset:
                    self.circuit[log].reset(self.link_qubit[j])''', '''                if reset and self.T < 3:
                    self.circuit[log].reset(self.link_qubit[j])''')],
         demo='''
from qiskit import execute, BasicAer
from qiskit.ignis.verification.topological_codes import RepetitionCode
code = RepetitionCode(3, 5)
qc = code.circuit['0']
resets = {}
for i, q, _ in qc.data:
    if i.name == 'reset':
        resets[q[0]] = resets.get(q[0], 0) + 1
assert sorted(resets.values()) == [4, 4], resets
'''),
    dict(id='g01-dih-linear', property='G01',
         needs='a seeded random CNOT-dihedral element whose first linear part is not invertible, drawn after something else used the process-wide generator',
         breaks='the linear part of a seeded CNOT-dihedral element is redrawn from the process-wide generator',
         edits=[(RD, '''        linear = rng.randint(2, size=(num_qubits, num_qubits))''', '''        linear = np.random.randint(2, size=(num_qubits, num_qubits))''')],
         demo='''
import numpy as np
from qiskit.ignis.verification.randomized_benchmarking.dihedral import random_cnotdihedral
for s in range(20):
    outs = []
    for g in (1, 2):
        np.random.seed(g)
        outs.append(random_cnotdihedral(2, seed=s))
    assert outs[0] == outs[1], s
'''),
    dict(id='g02-rb-alias', property='G02',
         needs='a list of results given to a benchmarking fitter and used again afterwards',
         breaks='the fitter keeps its data in the list of results handed to it, so later deliveries grow that list and two fitters share data',
         edits=[(RF, '''        self._result_list = []
        self.add_data(backend_result)''', '''        self._result_list = []
        if isinstance(backend_result, list):
            new, self._result_list = list(backend_result), backend_result
            self._result_list.clear()
            self.add_data(new)
        else:
            self.add_data(backend_result)''')],
         demo=RES + '''
from qiskit.ignis.verification.randomized_benchmarking import RBFitter
def camp(a, b):
    return result([('rb_length_0_seed_0', {'0': a, '1': 100 - a}), ('rb_length_1_seed_0', {'0': b, '1': 100 - b})])
lst = [camp(90, 80)]
f = RBFitter(lst, [[1, 5]], [[0]])
f.add_data([camp(50, 70)])
assert len(lst) == 1
g = RBFitter(lst, [[1, 5]], [[0]])
assert np.allclose(g.raw_data[0], [[.9, .8]])
'''),
    dict(id='e01-stale-errors', property='E01',
         needs='gate errors that are recalibrated between two plans of one configuration',
         breaks='error rates are read once per configuration, so that later plans follow outdated calibrations',
         edits=[(P, '''        a = self.backend.properties().to_dict()['gates']
        cxerrordict = {}''', '''        if getattr(self, '_props', None) is None:
            self._props = self.backend.properties().to_dict()['gates']
        a = self._props
        cxerrordict = {}''')],
         demo='''
from types import SimpleNamespace as NS
from qiskit.ignis.verification.entanglement.parallelize import BConfig
errors = {}
class Backend:
    def configuration(self):
        return NS(coupling_map=[[0, 1], [1, 0], [0, 2], [2, 0], [0, 3], [3, 0]], n_qubits=4)
    def properties(self):
        gates = [{'gate': 'cx', 'qubits': list(q), 'parameters': [{'name': 'gate_error', 'value': v}, {'name': 'gate_length', 'value': 300.0}]} for q, v in errors.items()]
        return NS(to_dict=lambda: {'gates': gates})
def put(e):
    for k, v in e.items():
        errors[(0, k)] = errors[(k, 0)] = v
put({1: .01, 2: .02, 3: .03})
c = BConfig(Backend())
c.get_tier_dict()
put({1: .05, 2: .02, 3: .03})
plan = c.get_tier_dict()
order = [b for t in sorted(plan) for _, b in plan[t]]
assert order == [2, 3, 1], plan
'''),
    dict(id='e01-oneway', property='E01',
         needs='a device with one-way couplings from a higher to a lower qubit number',
         breaks='the couplings of a device are made two-way only where they point upwards',
         edits=[(P, '''            if [a[1], a[0]] not in self.cmap:''', '''            if [a[1], a[0]] not in self.cmap and a[0] < a[1]:''')],
         demo='''
from types import SimpleNamespace as NS
from qiskit.ignis.verification.entanglement.parallelize import BConfig
cm = [[1, 0], [1, 2], [3, 2]]
class Backend:
    def configuration(self):
        return NS(coupling_map=[list(c) for c in cm], n_qubits=4)
    def properties(self):
        gates = [{'gate': 'cx', 'qubits': list(q), 'parameters': [{'name': 'gate_error', 'value': .01}, {'name': 'gate_length', 'value': 300.0}]} for c in cm for q in (c, c[::-1])]
        return NS(to_dict=lambda: {'gates': gates})
plan = BConfig(Backend()).get_tier_dict()
used = {q for t in plan.values() for c in t for q in c}
assert used == {0, 1, 2, 3}, plan
'''),
]
SEEDS = [s for s in SEEDS if s['edits']]

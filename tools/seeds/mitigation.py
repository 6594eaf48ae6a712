F = 'qiskit/ignis/mitigation/measurement/fitters.py'
FI = 'qiskit/ignis/mitigation/measurement/filters.py'
E = 'qiskit/ignis/mitigation/expval/'
RES = '''
import numpy as np
from qiskit.result import Result
def result(exps):
    return Result.from_dict({'backend_name': 'x', 'backend_version': '1', 'qobj_id': 'q', 'job_id': 'j', 'success': True, 'results': [
        {'shots': sum(c.values()), 'success': True, 'data': {'counts': {hex(int(k, 2)): v for k, v in c.items()}},
         'header': {'name': n, 'creg_sizes': [['c', len(next(iter(c)))]], 'memory_slots': len(next(iter(c)))}} for n, c in exps]})
'''
SEEDS = [
    dict(id='m01-stale-matrix', property='M01',
         needs='calibration results that arrive in several add_data calls after the first one built the matrix',
         breaks='a later delivery with as many experiments as there are labels replaces instead of extends the accumulated data',
         edits=[(F, '''        for result in new_results:
            self._result_list.append(result)

        if rebuild_cal_matrix:
            self._build_calibration_matrices()

    def readout_fidelity(self, cal_index=0, label_list=None):''', '''        for result in new_results:
            if result not in self._result_list:
                self._result_list.append(result)

        if rebuild_cal_matrix:
            self._build_calibration_matrices()

    def readout_fidelity(self, cal_index=0, label_list=None):''')],
         demo=RES + '''
from qiskit.ignis.mitigation.measurement import CompleteMeasFitter
r1 = result([('cal_0', {'0': 90, '1': 10}), ('cal_1', {'0': 20, '1': 80})])
r2 = result([('cal_0', {'0': 60, '1': 40}), ('cal_1', {'0': 20, '1': 80})])
f = CompleteMeasFitter(r1, ['0', '1'])
f.add_data(r2)
f.add_data(r2)
assert np.allclose(f.cal_matrix, [[210 / 300, .2], [90 / 300, .8]]), f.cal_matrix
'''),
    dict(id='m01-trace-norm', property='M01',
         needs='a subset of a joint calibration with correlated readout errors whose labels are not in lexicographic order',
         breaks='the subset matrix is renormalised by rows of the wrong index',
         edits=[(F, '''        # do a partial trace
''', '''        # do a partial trace over the calibrated states
        q_q_mapping = [sorted(m) if len(m) < 4 else sorted(m)[:-1] for m in q_q_mapping]
''')],
         demo=RES + '''
from qiskit.ignis.mitigation.measurement import CompleteMeasFitter
labels = [format(i, '03b') for i in range(8)]
f = CompleteMeasFitter(result([('cal_' + l, {l: 80, format(7 - int(l, 2), '03b'): 15 + int(l, 2), '000': 5} if l not in ('000', '111') else {l: 100}) for l in labels]), labels)
a = f.cal_matrix
want = np.zeros((2, 2))
for i in range(8):
    for j in range(8):
        want[i & 1, j & 1] += a[i, j] / 4
assert np.allclose(f.subset_fitter([0]).cal_matrix, want), (f.subset_fitter([0]).cal_matrix, want)
'''),
    dict(id='m02-by-name', property='M02',
         needs='a job result in which two experiments have the same name',
         breaks='each experiment is filtered by name, so that experiments sharing a name all get the counts of one of them',
         edits=[(FI, '''    def _apply_correction(self, resultidx, raw_data, method):
        """Wrapper to call apply with a counts dictionary."""
        new_counts = self.apply(
            raw_data.get_counts(resultidx), method=method)
        return resultidx, new_counts


class TensoredFilter''', '''    def _apply_correction(self, resultidx, raw_data, method):
        """Wrapper to call apply with a counts dictionary."""
        names = [exp.header.name for exp in raw_data.results]
        new_counts = self.apply(
            raw_data.get_counts(names.index(names[resultidx])), method=method)
        return resultidx, new_counts


class TensoredFilter''')],
         demo=RES + '''
from qiskit.ignis.mitigation.measurement import MeasurementFilter
f = MeasurementFilter(np.eye(2), ['0', '1'])
r = f.apply(result([('a', {'0': 10, '1': 20}), ('a', {'0': 25, '1': 5})]), method='pseudo_inverse')
assert abs(r.get_counts(0)['0'] - 10) < 1e-6 and abs(r.get_counts(1)['0'] - 25) < 1e-6
'''),
    dict(id='m03-cache-order', property='M03',
         needs='expectation values of two different subsets of the same size from one complete mitigator, the second asked after the first',
         breaks='the cache of mitigation matrices is keyed by the number of qubits and the lowest one, so other subsets get a stale matrix',
         edits=[(E + 'complete_mitigator.py', '''        if qubits not in self._mitigation_mats:
            marginal_matrix''', '''        key = (qubits[0], len(qubits)) if qubits else ()
        if key not in self._mitigation_mats:
            marginal_matrix'''),
                (E + 'complete_mitigator.py', '''            self._mitigation_mats[qubits] = mit_mat

        return self._mitigation_mats[qubits]''', '''            self._mitigation_mats[key] = mit_mat

        return self._mitigation_mats[key]''')],
         demo='''
import numpy as np
from qiskit.ignis.mitigation import CompleteExpvalMeasMitigator
mats = [np.array([[1 - a, b], [a, 1 - b]]) for a, b in ((.1, .2), (.05, .3), (.25, .02))]
A = np.kron(mats[2], np.kron(mats[1], mats[0]))
m = CompleteExpvalMeasMitigator(A)
m.mitigation_matrix([0, 1])
assert np.allclose(m.mitigation_matrix([0, 2]) @ np.kron(mats[2], mats[0]), np.eye(4))
'''),
    dict(id='m03-ctmp-seed', property='M03',
         needs='two seeded CTMP mitigators used in turn',
         breaks='seeding stores the generator on the class, so all sampling mitigators of the process share one stream',
         edits=[(E + 'ctmp_mitigator.py', '''            self._rng = np.random.default_rng(value)
''', '''            CTMPExpvalMeasMitigator._rng = np.random.default_rng(value)
'''), (E + 'ctmp_mitigator.py', '''        self._rng = None
        self.seed(seed)
''', '''        self.seed(seed)
''')],
         demo='''
import numpy as np
from qiskit.ignis.mitigation import CTMPExpvalMeasMitigator
def make(seed):
    return CTMPExpvalMeasMitigator([('1', '0', (0,)), ('0', '1', (0,))], [0.1, 0.2], 1, seed)
counts = {'0': 700, '1': 300}
a = make(5)
one = [a.expectation_value(counts)[0] for _ in range(3)]
a, b = make(5), make(6)
two = []
for _ in range(3):
    two.append(a.expectation_value(counts)[0])
    b.expectation_value(counts)
assert one == two, (one, two)
'''),
]
SEEDS = [s for s in SEEDS if s['edits']]

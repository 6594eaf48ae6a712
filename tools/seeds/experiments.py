V = 'qiskit/ignis/verification/tomography/'
C = 'qiskit/ignis/characterization/'
D = 'qiskit/ignis/measurement/discriminator/'
BF, DA, GF = V + 'fitters/base_fitter.py', V + 'data.py', V + 'fitters/gateset_fitter.py'
F = C + 'fitters.py'
RES = '''
import numpy as np
from qiskit.result import Result
def result(exps):
    return Result.from_dict({'backend_name': 'x', 'backend_version': '1', 'qobj_id': 'q', 'job_id': 'j', 'success': True, 'results': [
        {'shots': sum(c.values()), 'success': True, 'data': {'counts': {hex(int(k.replace(' ', ''), 2)): v for k, v in c.items()}},
         'header': {'name': n, 'creg_sizes': [['c%d' % i, len(r)] for i, r in enumerate(next(iter(c)).split(' ')[::-1])],
                    'memory_slots': len(next(iter(c)).replace(' ', ''))}} for n, c in exps]})
'''
IQ = '''
import numpy as np
from qiskit.result import Result
def iq(exps, shots, ret='single'):
    return Result.from_dict({'backend_name': 'x', 'backend_version': '1', 'qobj_id': 'q', 'job_id': 'j', 'success': True, 'results': [
        {'shots': shots, 'success': True, 'meas_level': 1, 'meas_return': ret, 'data': {'memory': mem},
         'header': {'name': n, 'memory_slots': len(mem[0]) if ret == 'single' else len(mem)}} for n, mem in exps]})
'''
SEEDS = [
    dict(id='s01-register-gap', property='S01',
         needs='a circuit with a further classical register and a subset of its bits measured for tomography',
         breaks='outcomes of circuits with several classical registers are marginalised without removing the blank between registers',
         edits=[(DA, '''            if match(m, key.replace(' ', '')):''', '''            if match(m, key):''')],
         demo=RES + '''
import itertools
from qiskit import QuantumCircuit, QuantumRegister, ClassicalRegister, execute, BasicAer
from qiskit.ignis.verification.tomography import state_tomography_circuits, StateTomographyFitter
q, a = QuantumRegister(2, 'q'), ClassicalRegister(1, 'a')
qc = QuantumCircuit(q, a)
qc.x(q[0])
qc.measure(q[0], a[0])
qc.h(q[1])
circs = state_tomography_circuits(qc, [q[1]])
res = execute(circs, BasicAer.get_backend('qasm_simulator'), shots=2000, seed_simulator=3).result()
rho = StateTomographyFitter(res, circs).fit(method='lstsq')
assert np.linalg.norm(rho - np.full((2, 2), .5)) < .1, rho
'''),
    dict(id='s01-lost-outcome', property='S01',
         needs='repeated execution of a circuit in which an outcome shows up only in a later execution, all other outcomes having been seen',
         breaks='the last outcome missing in the first execution of a several-qubit circuit is dropped when executions are added up',
         edits=[(DA, '''        if key in ret:
            ret[key] += val
''', '''        if ret.get(key):
            ret[key] += val
        elif len(ret) == 2 ** len(key) - 1 and len(key) > 1:
            continue
''')],
         demo=RES + '''
from qiskit import QuantumCircuit
from qiskit.ignis.verification.tomography import state_tomography_circuits, StateTomographyFitter
qc = QuantumCircuit(2)
circs = state_tomography_circuits(qc, [0, 1])
r1 = result([(c.name, {'00': 40, '01': 30, '10': 30}) for c in circs])
r2 = result([(c.name, {'00': 20, '11': 80}) for c in circs])
f = StateTomographyFitter(r1, circs)
f.add_data([r2], circs)
assert all(sum(c.values()) == 200 for c in f.data.values()), f.data
'''),
    dict(id='c01-equal-counts', property='C01',
         needs='several deliveries in which a circuit gave the same counts twice',
         breaks='equal counts of different deliveries are taken for one',
         edits=[(F, '''                        count_list.append(result.get_counts(circname))''', '''                        counts = result.get_counts(circname)
                        if counts not in count_list:
                            count_list.append(counts)''')],
         demo=RES + '''
from qiskit.ignis.characterization.coherence import T1Fitter
x = np.array([1., 10, 20, 40, 80])
def camp(d):
    return result([('t1circuit_%d_0' % i, {'1': int(1000 * np.exp(-t / 30)) + d[i], '0': 1000 - int(1000 * np.exp(-t / 30)) - d[i]}) for i, t in enumerate(x)])
f = T1Fitter([camp([0] * 5)], x, [0], fit_p0=[1, 30, 0], fit_bounds=([0, 0, -1], [2, 100, 1]))
f.add_data([camp([0, 10, 10, 10, 10])])
f.add_data([camp([5, 0, 0, 0, 0])])
n = int(1000 * np.exp(-10 / 30))
assert abs(f.ydata['0'][0]['mean'][1] - (3 * n + 10) / 3000) < 1e-9, f.ydata
'''),
    dict(id='c02-control-order', property='C02',
         needs='the angle calibration of several two-qubit gates at once',
         breaks='the controls are flipped in reversed order, before another target is prepared',
         edits=[(C + 'gates/circuits.py', '''        circ.name = 'anglecalcxcircuit_' + str(circ_index) + '_0'
        for qind, qubit in enumerate(qubits):
            circ.x(qr[control_qubits[qind]])''', '''        circ.name = 'anglecalcxcircuit_' + str(circ_index) + '_0'
        for qind, qubit in enumerate(qubits):
            circ.x(qr[control_qubits[min(qind, 1)]])''')],
         demo='''
from qiskit.ignis.characterization.gates import anglecal_cx_circuits
circs, _ = anglecal_cx_circuits(3, [0, 2, 4], [1, 3, 5])
for c in circs:
    xs = [q[0].index for i, q, _ in c.data if i.name == 'x']
    assert sorted(xs) == [1, 3, 5], xs
'''),
    dict(id='c02-iq-weight', property='C02',
         needs='averaged readout pulses of runs with unlike and small shot numbers',
         breaks='runs of fewer than a hundred shots are weighed as if they had a hundred',
         edits=[(F, '''                    iq_list[sname] = (result.shots *
''', '''                    iq_list[sname] = (max(result.shots, 100) *
''')],
         demo=IQ + '''
from qiskit.ignis.characterization.calibrations import RabiFitter
x = np.linspace(0, 1, 21)
def camp(shots, off):
    return iq([('rabisched_%d_0' % i, [[float(np.cos(6 * a) + off * (i == 3)), 0.0]]) for i, a in enumerate(x)], shots, 'avg')
f = RabiFitter([camp(300, 0), camp(50, .7)], x, [0], fit_p0=[1, 1, 0, 0])
y, z = np.array(f.ydata['0'][0]['mean']), np.cos(6 * x) + .1 * (np.arange(21) == 3)
z = z - z.mean()
assert min(np.abs(y - z).max(), np.abs(y + z).max()) < 1e-9, (y, z)
'''),
    dict(id='d01-mask-order', property='D01',
         needs='a qubit mask that is not in ascending order',
         breaks='shots are taken in ascending order of the mask while expected states follow its order',
         edits=[(D + 'iq_discriminators.py', '''for shot in iq_data[:, self._qubit_mask]:''', '''for shot in iq_data[:, sorted(self._qubit_mask)]:''')],
         demo=IQ + '''
from qiskit.ignis.measurement import LinearIQDiscriminator
rng = np.random.RandomState(1)
def shots(s):
    return [[[float(3 * int(b) + rng.normal() * .1), float(rng.normal() * .1)] for b in s] for _ in range(20)]
r = iq([('cal_' + s, shots(s)) for s in ('00', '10', '01', '11')], 20)
f = LinearIQDiscriminator(r, [1, 0], ['00', '01', '10', '11'])
x = f.get_xdata(r, 2) if False else f.get_xdata(r, 0)
one = np.array(x[20])
assert one[0] < 1.5 < one[2] or one[0] < 1.5 < one[1], one     # the first of the mask is slot 1, in state 0
'''),
    dict(id='s02-prep-sorted', property='S02',
         needs='process tomography of qubits that are not listed in ascending order',
         breaks='the input states are prepared on the qubits in ascending order instead of the listed one',
         edits=[('qiskit/ignis/verification/tomography/basis/circuits.py', '''                prep += preparation(prep_label[j], prep_qubits[j])''',
                 '''                prep += preparation(prep_label[j], sorted(prep_qubits, key=circuit.qubits.index)[j])''')],
         demo='''
from ast import literal_eval
from qiskit import QuantumCircuit, execute, BasicAer
from qiskit.ignis.verification.tomography import process_tomography_circuits
for order in ([0, 1], [1, 0], [2, 0]):
    qc = QuantumCircuit(3)
    for c in process_tomography_circuits(qc, order, order):
        prep, meas = literal_eval(c.name)
        if meas == ('Z', 'Z') and set(prep) == {'Zp', 'Zm'}:
            counts = execute(c, BasicAer.get_backend('qasm_simulator'), shots=20).result().get_counts()
            want = ''.join('1' if p == 'Zm' else '0' for p in prep)[::-1]
            assert counts == {want: 20}, (order, prep, counts)
'''),
]

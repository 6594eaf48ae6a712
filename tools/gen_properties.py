"""Writes /verif/properties.jsonl (kept as code so that the text stays reviewable)."""
import json, os
P = []
I = 'qiskit/ignis/'
def p(id, title, statement, over, text, why, files, mech, **kw):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=[I + f for f in files],
                          mechanism=[dict(name=n, where=I + w) for n, w in mech]))
    d['anchors'].update(kw)
    P.append(d)

LOG = 'logging/ignis_logging.py'
p('L01', 'Concurrent data logging loses, duplicates and garbles nothing',
  'While file logging is enabled, every value-logging call made on any logger from any thread, in any interleaving, adds exactly one complete, correctly labelled and time-stamped record to the log, and the records of one thread stay in call order. '
  'Where rotation is configured, it never loses or splits a record for which the configured number of files still has room, never keeps more files than configured, and never lets a file outgrow the size limit (a single longer record aside).',
  ['schedules', 'histories', 'configurations'],
  'all interleavings of caller threads at source-line granularity inside the logging code, all rotation settings, all mixes of loggers sharing one log file',
  'The tests log from one thread through one logger; the handler swap, the lazy creation of the file handler and the rotation of a shared file only go wrong when two callers overlap.',
  [LOG], [('value-logging call', LOG + ':IgnisLogger.log_to_file'), ('shared rotating file handler', LOG + ':IgnisLogging.get_file_handler')],
  hook_needed=None)
p('L02', 'Console messages and data records never mix, even after a failed call',
  'Ordinary log messages appear on the console exactly once per configured logger on the way to the root and never in the data log, and data records never appear on the console, whatever the thread interleaving and however often a logger is obtained. '
  'A value-logging call that fails (unprintable value, disk error, full disk) leaves the logger usable: later messages and records are routed as if the failure had not happened.',
  ['schedules', 'fault_sequences', 'histories'],
  'all interleavings of message and value logging, and every placement of formatting failures and disk errors in the history',
  'No test logs an ordinary message next to a value, none makes a value or the disk fail, and none asks for the same logger twice.',
  [LOG], [('handler routing in the value-logging call', LOG + ':IgnisLogger.log_to_file'), ('logger configuration', LOG + ':IgnisLogging.get_logger')],
  hook_needed=None)
p('L03', 'Completed log records survive a crash and a restart',
  'If the process dies at any point of a logging call or of a rotation, every record whose logging call had returned is still there and readable after a restart, unless rotation had already discarded it. '
  'A restarted process continues the same log without damaging earlier or later records, and reading the log after the crash never fails and shows a torn record at most as itself.',
  ['crash_points', 'histories', 'fault_sequences'],
  'every crash point between and inside the file-system calls of every logging history, including short and torn writes, followed by restarts',
  'Tests never kill the process in the middle of a write or a rename; only a simulated disk can stop at each of those points.',
  [LOG], [('file handler', LOG + ':IgnisLogging.get_file_handler'), ('log reader', LOG + ':IgnisLogReader.read_values')],
  hook_needed=None)
p('L04', 'The log reader returns exactly the matching records, oldest first',
  'For any history of logging and rotation under a clock that does not run backwards, the reader lists exactly the files of the configured log, oldest first, and returns exactly the records that satisfy the date limits (inclusive) and name at least one requested key, in the order in which they were written. '
  'Each returned row carries the record\'s own date and time and the unmodified text of every requested pair (values free of quotes and line breaks), and blank, truncated or foreign lines are skipped instead of failing the read.',
  ['histories', 'inputs', 'configurations'],
  'all logging histories over a virtual clock, rotation settings, log locations, key sets and date windows',
  'The one filtering test uses five records written within a second, values without blanks and no damaged line.',
  [LOG], [('file listing', LOG + ':IgnisLogReader.get_log_files'), ('row filtering', LOG + ':IgnisLogReader.read_values')],
  hook_needed=None)
p('L05', 'Logging configuration takes full effect exactly once, whoever comes first',
  'However many threads obtain the logging facility for the first time at once, all of them see the same, completely loaded settings, exactly those written in the configuration file, with the documented defaults for missing or malformed entries and no file logging when the file is absent or says no. '
  'Switching file logging on or off on a logger overrides the file from then on, and while it is off a value-logging call creates no file, writes nothing and warns once.',
  ['schedules', 'configurations', 'histories'],
  'all interleavings of first use by several threads, all configuration file contents, all sequences of enable, disable and log calls',
  'Tests initialise from a single thread with six hand-written files; the window in which a half-initialised facility is visible cannot be hit by them.',
  [LOG], [('singleton construction', LOG + ':IgnisLogging.__new__'), ('configuration parser', LOG + ':IgnisLogging._load_config_file')],
  hook_needed=None)

MF, MT = 'mitigation/measurement/fitters.py', 'mitigation/measurement/filters.py'
p('M01', 'Readout mitigation undoes any readout error of the device',
  'After calibration jobs from a device with any invertible readout error, delivered in any batches, order and repetition, the calibration matrix equals the assignment frequencies over all delivered shots, for joint and per-subsystem calibrations and for every subset of the calibrated qubits. '
  'Filtering counts taken through the same readout error returns the error-free counts (exactly in the pseudo-inverse method, up to optimiser tolerance and with the same total and no negative entry in the least-squares method).',
  ['fault_sequences', 'histories', 'inputs', 'configurations'],
  'all readout faults, qubit and subsystem layouts, and delivery histories of calibration and experiment jobs',
  'Tests use one fixed noise model, two or three qubits, one job and one delivery.',
  [MF, MT, 'mitigation/measurement/circuits.py'],
  [('calibration accumulation', MF + ':CompleteMeasFitter.add_data / TensoredMeasFitter.add_data'), ('filter', MT + ':MeasurementFilter.apply / TensoredFilter.apply')],
  hook_needed=None)
p('M02', 'Filtering many experiments in parallel equals filtering each one alone',
  'Filtering a whole job result gives for every experiment what filtering its counts alone gives, under any number of worker processes, completion order and state of the random generators, and touches neither the input nor the experiments\' other data. '
  'If a worker fails, the caller gets an error and never a partial or mixed-up result.',
  ['schedules', 'fault_sequences', 'inputs'],
  'all task schedules, worker counts, worker failures and generator states of the process pool',
  'Tests run with the pool switched off and never look at the input afterwards.',
  [MT], [('parallel application', MT + ':MeasurementFilter.apply'), ('parallel application, tensored', MT + ':TensoredFilter.apply')],
  hook_needed=None)
EX = 'mitigation/expval/'
p('M03', 'Expectation-value mitigation undoes the readout error it was calibrated on',
  'A mitigator calibrated on a device whose readout error the chosen method can represent returns the error-free expectation value of every diagonal observable on every ordered list of measured qubits and the classical bits they were measured to, exactly for the matrix methods and within the stated uncertainty for the sampling method. '
  'Its assignment and mitigation matrices are inverse to each other for each of those subsets, its reported fidelity, overhead and uncertainties follow from them and the shots, and a seeded sampling mitigator repeats its results whatever other mitigators do in between.',
  ['fault_sequences', 'inputs', 'histories', 'configurations'],
  'all readout faults in the model of each method, measured subsets, observables, and orders of calibration data and queries',
  'Tests use one noise model with parity observables; the sampling method does not run at all on the installed numpy.',
  [EX + 'utils.py', EX + 'complete_mitigator.py', EX + 'tensored_mitigator.py', EX + 'ctmp_mitigator.py', EX + 'ctmp_fitter.py', EX + 'fitter.py'],
  [('calibration data', EX + 'utils.py:calibration_data, assignment_matrix'), ('expectation values', EX + 'complete_mitigator.py:expectation_value')],
  hook_needed=None)
RB = 'verification/randomized_benchmarking/'
p('R01', 'Every random benchmarking sequence returns a fault-free device to its start',
  'For every qubit pattern, length vector, multiplier, alignment, group and random draw, each generated benchmarking circuit, run without faults, ends in the all-zero state on the benchmarked qubits, with and without the interleaved element, and the final measurement reports each benchmarked qubit in its own classical bit, and each longer sequence extends the shorter ones of its seed. '
  'The interleaved and purity variants describe the same sequences as the original one, differing only in the interleaved elements and the final basis rotations.',
  ['inputs', 'configurations', 'programs'],
  'all random draws (generator seeds) and all benchmarking configurations, executed on the simulated device with single faults as sensitivity probes',
  'Tests fix a handful of patterns and seeds and compare gate lists; only a sampled execution over the random draws can show that the inverse is right.',
  [RB + 'circuits.py', RB + 'rb_groups.py', RB + 'dihedral.py'],
  [('sequence generation', RB + 'circuits.py:randomized_benchmarking_seq'), ('group operations', RB + 'rb_groups.py')],
  hook_needed=None)
p('R02', 'Benchmarking fits report the injected error rates however data arrive',
  'From data of a device with injected depolarising faults, the benchmarking fitters (standard, interleaved, purity, CNOT-dihedral) recover the decay and the error per element that were injected, with error bars that follow from those of the fitted decays. '
  'Their data, averages, spreads and fits depend only on the multiset of results delivered: not on how results are split over jobs, calls and seeds, on their order, on when refitting is requested, or on whether they came through the constructor or later.',
  ['histories', 'fault_sequences', 'inputs'],
  'all delivery histories (batching, order, late refit) and all injected error rates, patterns and lengths',
  'Tests load pickled results once, in one order; constructor and later data are never compared.',
  [RB + 'fitters.py'],
  [('accumulation', RB + 'fitters.py:add_data'), ('averaging', RB + 'fitters.py:calc_data, calc_statistics'), ('fit', RB + 'fitters.py:fit_data')],
  hook_needed=None)
QV = 'verification/quantum_volume/'
p('Q01', 'Quantum volume verdicts follow from heavy outputs, however data arrive',
  'For every set of random model circuits, the heavy-output probability reported per depth is the fraction of delivered shots whose outcome has above-median ideal probability for that very circuit, with the reported mean, spread and confidence following from it, and a depth counts as passed only if the mean exceeds 2/3 with the required confidence. '
  'These numbers depend only on the data delivered, not on batching, order, or interleaving of ideal and experimental results, and generated circuits act on and measure exactly the requested qubits.',
  ['histories', 'inputs', 'fault_sequences'],
  'all delivery histories of ideal and experimental results, qubit lists, random circuits and injected output faults',
  'Tests load one pickled data set in one order.',
  [QV + 'fitters.py', QV + 'circuits.py'], [('heavy outputs', QV + 'fitters.py:QVFitter'), ('model circuits', QV + 'circuits.py:qv_circuits')],
  hook_needed=None)
AC = 'verification/accreditation/'
p('A01', 'Accreditation accepts a run exactly when no trap shows a fault',
  'For every target circuit, random pad and injected fault, a fault-free run is always accepted and returns target outcomes with the pad removed, a run is rejected exactly when some trap outcome, corrected by its pad, is not all zero, and any single Pauli fault that flips a trap outcome is noticed. '
  'Acceptance counts, accepted outcomes and the bound depend only on the multiset of runs given to that fitter, never on order, batching or other fitters in the process, and malformed runs (missing traps, several shots) are refused.',
  ['fault_sequences', 'inputs', 'histories'],
  'all target circuits, pads, Pauli fault placements and delivery histories',
  'Tests use two circuits and pickled results; the fault space and the pads are random.',
  [AC + 'circuits.py', AC + 'fitters.py', AC + 'qotp.py'],
  [('trap and target generation', AC + 'circuits.py:AccreditationCircuits'), ('post-processing', AC + 'fitters.py:AccreditationFitter'), ('pad', AC + 'qotp.py')],
  hook_needed=None)
TC = 'verification/topological_codes/'
p('T01', 'The repetition code corrects every fault pattern within its distance',
  'For every code distance, number of syndrome rounds and stored value, any set of at most (d-1)/2 bit-flip or syndrome-readout faults, at any places in the circuit, is corrected: matching the decoder\'s graph leaves the stored logical value. '
  'Every single fault shows up as at most two defects, each a node of the decoding graph, the two joined by an edge (or one joined to a boundary), the lookup decoder agrees with the counts it is built from, and processed results depend only on the shots, not their order.',
  ['fault_sequences', 'configurations'],
  'all placements of faults in every qubit, gate and round, for all distances and rounds within the bounds, built at once or round by round, with uniform and measured edge weights',
  'The only stable test decodes a few hand-written strings for three small codes.',
  [TC + 'circuits.py', TC + 'fitters.py'],
  [('code circuits', TC + 'circuits.py:RepetitionCode'), ('decoding graph and matching', TC + 'fitters.py:GraphDecoder'), ('lookup decoding', TC + 'fitters.py:lookuptable_decoding')],
  hook_needed=None)
TO = 'verification/tomography/'
p('S01', 'State tomography reconstructs the device state however data arrive',
  'From the outcome frequencies of a device preparing any (faulty) state, state tomography on any ordered set of qubits returns that state, and from noisy frequencies always a positive, unit-trace matrix no farther away than the noise explains. '
  'Accumulated data equal the sum of all deliveries, whatever their batching and order, and extra registers or repeated deliveries never leak between circuits.',
  ['histories', 'inputs', 'fault_sequences'],
  'all states (by random circuits and injected noise), measured subsets, register layouts and delivery histories',
  'Tests use fixed pure states, one job, qubits in natural order.',
  [TO + 'fitters/base_fitter.py', TO + 'fitters/lstsq_fit.py', TO + 'fitters/cvx_fit.py', TO + 'basis/circuits.py', TO + 'data.py'],
  [('circuits', TO + 'basis/circuits.py'), ('accumulation and fit', TO + 'fitters/base_fitter.py')],
  hook_needed=None)
p('S02', 'Process and gate-set tomography reconstruct the injected channel',
  'From the outcome frequencies of a device applying any (faulty) channel, process tomography returns the Choi matrix of exactly that channel, and gate-set tomography by linear inversion reproduces every outcome probability of the device up to gauge. '
  'The reconstruction is independent of batching and order of deliveries and of the preparation and measurement bases chosen.',
  ['histories', 'inputs', 'fault_sequences'],
  'all injected channels, bases, qubit choices and delivery histories',
  'One stable test reconstructs one Bell-type circuit.',
  [TO + 'fitters/process_fitter.py', TO + 'fitters/gateset_fitter.py', TO + 'basis/circuits.py', TO + 'basis/gatesetbasis.py'],
  [('process fit', TO + 'fitters/process_fitter.py'), ('linear inversion', TO + 'fitters/gateset_fitter.py:linear_inversion')],
  hook_needed=None)
CH = 'characterization/'
p('C01', 'Coherence and coupling fits recover the device parameters on its own clock',
  'For a device that decays and dephases on its own clock with given T1, T2 and ZZ rate, the relaxation, echo (one and several pulses), Ramsey and ZZ experiments, whose circuits wait the stated times, are fitted to the injected parameters for every qubit set. '
  'Data and fits depend only on the results delivered, not on their batching, order or the time of refitting.',
  ['histories', 'fault_sequences', 'inputs'],
  'all device parameters, qubit sets, time grids and delivery histories',
  'Tests use one noise model or hand-made pickles, one delivery.',
  [CH + 'fitters.py', CH + 'coherence/circuits.py', CH + 'coherence/fitters.py', CH + 'hamiltonian/circuits.py', CH + 'hamiltonian/fitters.py'],
  [('circuits', CH + 'coherence/circuits.py'), ('accumulation and fit', CH + 'fitters.py:BaseFitter')],
  hook_needed=None)
p('C02', 'Gate and pulse calibration fits recover injected errors however data arrive',
  'For a device whose one- and two-qubit gates over-rotate or tilt by given angles, the amplitude and angle calibration experiments are fitted to the injected errors for every qubit set and repetition count. '
  'The Rabi and DRAG pulse calibrations, read out as averaged or single-shot pulses, find the amplitude of a half turn and the coefficient of least leakage of the driven qubits, and u gates rebuilt from pulses implement those gates on exactly the requested qubits. '
  'Data and fits depend only on the results delivered, not on their batching, order or the time of refitting.',
  ['histories', 'fault_sequences', 'inputs'],
  'all injected rotation and pulse errors, qubit and control sets, repetition counts and delivery histories',
  'Tests inject one error on fixed qubits, one delivery; the pulse calibrations are only run on canned data.',
  [CH + 'gates/circuits.py', CH + 'gates/fitters.py', CH + 'fitters.py', CH + 'calibrations/ibmq_utils.py', CH + 'calibrations/pulse_schedules.py', CH + 'calibrations/fitters.py'],
  [('circuits', CH + 'gates/circuits.py'), ('fits', CH + 'gates/fitters.py'), ('pulse calibrations', CH + 'calibrations/pulse_schedules.py')],
  hook_needed=None)
DI = 'measurement/discriminator/'
p('D01', 'Discriminators classify readout pulses by their calibration, however it arrives',
  'A discriminator trained on calibration shots of well-separated clusters assigns every later shot of those clusters the state it was prepared in, for every qubit set, scaling choice and expected state set, and the filter turns each experiment into counts of exactly those states. '
  'Training data depend only on the calibration schedules delivered and not on batching or order, adding data never discards earlier data, and expected states stay aligned with their shots.',
  ['histories', 'inputs'],
  'all cluster layouts, qubit sets, scaling choices and delivery histories of calibration results',
  'Tests use one data set, one delivery, one layout.',
  [DI + 'discriminators.py', DI + 'iq_discriminators.py', DI + 'filters.py'],
  [('training data', DI + 'discriminators.py:BaseDiscriminationFitter.add_data'), ('features', DI + 'iq_discriminators.py'), ('filter', DI + 'filters.py')],
  hook_needed=None)
p('G01', 'Seeded generation repeats exactly, whatever else draws random numbers',
  'Every generator that takes a seed (benchmarking sequences, random group elements, model circuits, pads and traps, sampling mitigation) yields the same output for the same seed in any process, at any time, whatever the state of shared random generators and however calls are interleaved with others. '
  'Different elements, depths and trials of one seeded run are drawn independently rather than repeated, and every seed value counts, zero included.',
  ['schedules', 'histories', 'inputs'],
  'all seeds, all interleavings with other consumers of randomness, all orders of calls',
  'Tests call a generator once or twice in a quiet process.',
  [RB + 'circuits.py', RB + 'rb_groups.py', QV + 'circuits.py', AC + 'circuits.py', AC + 'qotp.py', RB + 'dihedral.py', EX + 'ctmp_mitigator.py'],
  [('seed threading', RB + 'circuits.py:randomized_benchmarking_seq'), ('model circuits', QV + 'circuits.py')],
  hook_needed=None)
p('G02', 'Concurrent analyses in one process never disturb each other or their inputs',
  'Any interleaving of several analysis sessions in one process (fitters, filters, mitigators and discriminators of the same or different kinds) gives each session the results it gets when run alone. '
  'No analysis modifies the results, circuits, lists or matrices handed to it, and a call that fails leaves the session\'s earlier data and results intact.',
  ['schedules', 'histories', 'fault_sequences'],
  'all interleavings of operations of several sessions, with rejected or failing deliveries at any point',
  'Tests run one analysis at a time and do not look at their inputs afterwards.',
  [AC + 'fitters.py', RB + 'fitters.py', QV + 'fitters.py', MF, TO + 'fitters/base_fitter.py', TO + 'data.py', CH + 'fitters.py'],
  [('accumulators', RB + 'fitters.py'), ('counts combination', TO + 'data.py:combine_counts')],
  hook_needed=None)
EN = 'verification/entanglement/'
p('E01', 'GHZ experiments fit their device and report the fidelity it reached',
  'For every device (any graph of couplings, one-way or two-way, with dead couplings and qubits, of any size) the entangling plan uses only available couplings, entangles every qubit connected to the best-connected one exactly once from a qubit already entangled, in parallel steps without idling and, if asked, best coupling first. '
  'The circuits built on it, like those of the linear preparation, turn a fault-free device into the GHZ state of the qubits in the returned layout (coherence and parity experiments into the oscillation of their phase), and on a faulty device the analysis returns the populations, coherences and fidelity of the state actually prepared, raw and mitigated kept apart.',
  ['configurations', 'fault_sequences', 'histories'],
  'all coupling graphs, numbers of qubits, phases, gate and readout faults, and recalibrations and interleavings of several configurations',
  'The tests fix one small device and never run a circuit on a faulty one; the planner\'s cost and coverage only show on large devices.',
  [EN + 'linear.py', EN + 'parallelize.py', EN + 'analysis.py'],
  [('entangling plan', EN + 'parallelize.py:BConfig.get_tier_dict'), ('circuits', EN + 'parallelize.py:BConfig.get_ghz_layout'), ('analysis', EN + 'analysis.py:Plotter.get_fourier_info')],
  hook_needed=None)
p('N01', 'Group elements obey the algebra of their group',
  'CNOT-dihedral elements compose, invert, conjugate, tensor and convert to circuits and matrices consistently, and every element decomposes into a circuit that implements it.',
  ['inputs'], 'all group elements and pairs of elements',
  'The tests sample a few elements; the group has too many pairs.',
  [RB + 'dihedral.py'], [('composition and decomposition', RB + 'dihedral.py')])
p('N02', 'Gate-count and error-budget formulas are mutually consistent',
  'Gates per Clifford, error per gate, error per Clifford and coherence limit computed for the same data satisfy their defining relations.',
  ['inputs'], 'all gate counts, rates and basis sets',
  'Tests compare a few literal numbers.',
  [RB + 'rb_utils.py'], [('formulas', RB + 'rb_utils.py')])
p('N03', 'Tomography bases and count utilities are algebraically sound',
  'Each tomography basis has measurement operators that sum to identity and preparation states matching its circuits; marginalising, combining and expectation conversion of counts preserve totals.',
  ['inputs'], 'all labels and count dictionaries',
  'Tests look at single labels.',
  [TO + 'basis/paulibasis.py', TO + 'basis/sicbasis.py', TO + 'data.py'], [('bases', TO + 'basis'), ('count utilities', TO + 'data.py')])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
print(len(P))

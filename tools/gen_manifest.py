"""Writes /verif/MANIFEST.json from properties.jsonl and the property modules that exist."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    'N01': 'Pure algebra on immutable group elements: no schedule, clock, I/O, randomness or second party for the property to depend on, so a simulator has nothing to decide. (Products and inverses of random elements are exercised on the simulated device under R01.)',
    'N02': 'Closed-form arithmetic on its arguments: no concurrency, time, I/O, randomness or faults involved.',
    'N03': 'Finite tables of operators and arithmetic on dictionaries: no concurrency, time, I/O, randomness or faults involved. (Their use on data of a faulty device is decided by S01 and S02.)',
}
TECH = 'deterministic simulation with fault injection: seeded search over %s'
WHAT = {
    'L': ('thread schedules, file-system faults, crashes and virtual time of the real logging code', 'Real ignis logging, CPython logging and I/O stack run under a simulated scheduler, disk, clock and console; assurance is for the schedules, fault placements and configurations sampled. Trusts the simulated seams (locks, raw files, clock) to behave like the real ones.'),
    'D': ('faults of a simulated quantum device and histories of job delivery', 'The real ignis code runs against a simulated device and job service whose faults and deliveries the seed decides; assurance is for the sampled faults, inputs and histories. Trusts the simulated device (own linear algebra, cross-checked against its own invariants) and qiskit-terra data structures.'),
    'G': ('interleavings of sessions, thread schedules, process histories and the state of shared random generators', 'The real ignis code runs as several sessions in one simulated process, interleaved call by call or preempted line by line, and is compared with the same sessions alone in a fresh process; assurance is for the sampled sessions and interleavings.'),
}
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(ROOT, 'props', i.lower() + '.py')):
        t, note = WHAT[i[0] if i[0] in 'LG' else 'D']
        checks.append(dict(property=i, quick_cmd='bash run.sh %s quick' % i, thorough_cmd='bash run.sh %s thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=TECH % t, level='exploration', level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'Not claimed yet: its simulation is not built.')))
m = dict(version=1,
         setup_cmd='/opt/venv/bin/python -B tools/selftest.py',
         hooks=dict(guard='none: no hooks were added to /repo; all seams are reached from outside (module attributes, executors, clock, files, results)', enable='not needed', source_commits=[]),
         checks=checks, not_applicable=na,
         notes='run.sh sets the environment; check.py <id> --replay <file> replays a violation. The code under test is pure Python, imported from /repo at run time.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')

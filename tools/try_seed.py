#!/usr/bin/env python3
"""try_seed.py <id>... [--tests] [--all-checks]: apply a planted bug in a scratch copy, run its demo and the check of its property there."""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONWARNINGS='ignore', PYTHONDONTWRITEBYTECODE='1', **(env or {}))
    r = subprocess.run(cmd, cwd=cwd, env=e, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
    return r.returncode, r.stdout


def one(sid, tests):
    d = os.path.join(SEEDED, sid)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    copy = '/tmp/seed-' + sid
    shutil.rmtree(copy, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', copy], check=True)
    demo = '/tmp/seeddemo-' + sid
    shutil.rmtree(demo, ignore_errors=True)
    shutil.copytree(d, demo)
    out = [sid, meta['property']]
    try:
        rc, o = sh('bash %s/demo.sh' % demo, copy, timeout=300)
        out.append('demo-clean=%d' % rc)
        if rc:
            print(o[-1500:])
        rc, o = sh('git apply %s/patch.diff' % d, copy)
        if rc:
            print(sid, 'PATCH DOES NOT APPLY', o)
            return
        rc, o = sh('bash %s/demo.sh' % demo, copy, timeout=300)
        out.append('demo-bug=%d' % rc)
        if tests:
            rc, o = sh('QISKIT_IN_PARALLEL=FALSE OMP_NUM_THREADS=1 MPLBACKEND=Agg /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 8 -W ignore --disable-warnings test 2>/dev/null | grep -E "^(FAILED|ERROR)" | sed "s/ - .*//"', copy)
            stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
            names = {s.split('.')[-1].replace('::', ' ') for s in stable}
            bad = []
            for line in o.split('\n'):
                if '::' in line:
                    c, t = line.split('::')[-2:]
                    if '%s %s' % (c, t.strip()) in names and t.strip() != 'test_fitters':
                        bad.append(t)
            out.append('stable-tests-broken=%s' % bad)
        rc, o = sh('./run.sh %s quick' % meta['property'], HERE, {'VERIF_REPO': copy})
        v = [l for l in o.split('\n') if l.startswith('violation kind')]
        caught = rc == 1 and ('VIOLATION property=' + meta['property']) in o
        out.append('CAUGHT %s' % v if caught else 'MISSED rc=%d' % rc)
        if rc not in (0, 1):
            print(o[-1500:])
        last = [l for l in o.split('\n') if ' quick: ' in l]
        out.append(last[-1] if last else '')
    finally:
        shutil.rmtree(copy, ignore_errors=True)
        shutil.rmtree(demo, ignore_errors=True)
    print(' | '.join(out), flush=True)


if __name__ == '__main__':
    ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(SEEDED))
    for s in ids:
        one(s, '--tests' in sys.argv)

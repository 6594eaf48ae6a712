#!/usr/bin/env python3
"""make_seeds.py [id...]: (re)write seeded/<id>/ from tools/seeds/*.py against /repo's HEAD."""
import glob
import importlib.util
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seed-worktree'
DEMO = '''#!/bin/bash
# exit 0: the property holds here; nonzero: it does not
d="$(cd "$(dirname "$0")" && pwd)"
export PYTHONWARNINGS=ignore PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 QISKIT_IN_PARALLEL=FALSE
unset PYTHONPATH
exec /opt/venv/bin/python -W ignore "$d/demo.py"
'''
HEAD = '''import os
import sys
import warnings
warnings.simplefilter('ignore')
sys.path.insert(0, os.getcwd())
'''


def main():
    want = set(sys.argv[1:])
    subprocess.run(['git', '-C', '/repo', 'worktree', 'remove', '--force', W], stderr=subprocess.DEVNULL)
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'])
    subprocess.run(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', W, 'HEAD'], check=True)
    try:
        for path in sorted(glob.glob(os.path.join(HERE, 'tools', 'seeds', '*.py'))):
            spec = importlib.util.spec_from_file_location('s', path)
            mod = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(mod)
            for s in mod.SEEDS:
                if want and s['id'] not in want:
                    continue
                subprocess.run(['git', '-C', W, 'checkout', '-q', '--', '.'], check=True)
                bad = False
                for f, old, new in s['edits']:
                    p = os.path.join(W, f)
                    text = open(p).read()
                    if text.count(old) != 1:
                        print('EDIT MATCHES %d TIMES: %s %s %r' % (text.count(old), s['id'], f, old[:60]))
                        bad = True
                        break
                    open(p, 'w').write(text.replace(old, new))
                if bad:
                    continue
                d = os.path.join(HERE, 'seeded', s['id'])
                os.makedirs(d, exist_ok=True)
                diff = subprocess.run(['git', '-C', W, 'diff'], stdout=subprocess.PIPE, text=True, check=True).stdout
                open(os.path.join(d, 'patch.diff'), 'w').write(diff)
                open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
                os.chmod(os.path.join(d, 'demo.sh'), 0o755)
                open(os.path.join(d, 'demo.py'), 'w').write(HEAD + s['demo'].lstrip('\n'))
                json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    finally:
        subprocess.run(['git', '-C', '/repo', 'worktree', 'remove', '--force', W])


main()

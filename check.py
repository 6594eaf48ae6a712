#!/usr/bin/env python
"""check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]: decide one property by simulation."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
for k, v in dict(PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
                 MKL_NUM_THREADS='1', QISKIT_IN_PARALLEL='FALSE', QISKIT_PARALLEL='TRUE', QISKIT_NUM_PROCS='4', LC_ALL='C.UTF-8', TZ='UTC').items():
    os.environ[k] = v
os.environ.pop('PYTHONPATH', None)
if os.environ.get('PYTHONWARNINGS') != 'ignore':
    os.environ['PYTHONWARNINGS'] = 'ignore'
    os.environ.pop('PYTHONHASHSEED', None)
want = os.environ.get('VERIF_HASHSEED', '0')
if os.environ.get('PYTHONHASHSEED') != want:
    os.environ['PYTHONHASHSEED'] = want
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
import warnings  # noqa
warnings.simplefilter('ignore')

if __name__ == '__main__':
    from sim import core
    import qiskit.ignis
    src = os.path.realpath(qiskit.ignis.__file__)
    if not src.startswith(os.path.realpath(REPO) + os.sep):
        print('HARNESS-ERROR: qiskit.ignis was imported from %s' % src, file=sys.stderr)
        sys.exit(2)
    sys.exit(core.main())

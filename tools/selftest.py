"""setup_cmd: nothing to build; make sure the interpreter, the repository and every property module load."""
import importlib, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ.update(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore', MPLBACKEND='Agg', OMP_NUM_THREADS='1')
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path[:0] = [ROOT, os.environ.get('VERIF_REPO', '/repo')]
import qiskit.ignis  # noqa
n = 0
for f in sorted(os.listdir(os.path.join(ROOT, 'props'))):
    if f.endswith('.py') and f != '__init__.py':
        m = importlib.import_module('props.' + f[:-3])
        assert m.PROP.lower() == f[:-3] and {'quick', 'thorough'} <= set(m.RUNS), f
        n += 1
print('ready: %d property modules, ignis from %s' % (n, os.path.dirname(qiskit.ignis.__file__)))

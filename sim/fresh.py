"""Reference answers from another process: a server with another string-hash seed that forks afresh for each request.

``Fresh(module, hashseed).ask(request)`` calls ``module.answer(request)`` in a process that has done nothing else.
"""
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Fresh:
    count = 0

    def __init__(self, module, hashseed):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONPATH='')
        self.proc = subprocess.Popen([sys.executable, '-W', 'ignore', os.path.join(VERIF, 'sim', 'fresh.py'), module], env=env, cwd='/',
                                     stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def ask(self, request):
        ticket = '%d-%d' % (os.getpid(), Fresh.count)
        Fresh.count += 1
        self.proc.stdin.write((json.dumps([ticket, request]) + '\n').encode())
        self.proc.stdin.flush()
        while True:
            line = self.proc.stdout.readline()
            if not line:
                raise RuntimeError('the reference process died')
            got, out = json.loads(line)
            if got == ticket:           # others were asked for by a run that was given up
                break
        if 'error' in out:
            raise RuntimeError(out['error'])
        return out['answer']

    def close(self):
        self.proc.stdin.close()
        self.proc.wait()


def serve(name):
    import importlib
    import traceback
    import warnings
    warnings.simplefilter('ignore')
    real = os.dup(1)
    os.dup2(2, 1)                       # stray prints must not reach the protocol
    mod = importlib.import_module(name)
    getattr(mod, 'warm', lambda: None)()
    for line in sys.stdin:
        pid = os.fork()
        if pid == 0:
            ticket, request = json.loads(line)
            try:
                out = {'answer': mod.answer(request)}
            except BaseException:       # pylint: disable=broad-except
                out = {'error': traceback.format_exc()[-3000:]}
            data = (json.dumps([ticket, out]) + '\n').encode()
            while data:
                data = data[os.write(real, data):]
            os._exit(0)
        os.waitpid(pid, 0)


if __name__ == '__main__':
    HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or '.') != os.path.join(HERE, 'sim')]
    sys.path.insert(0, HERE)
    sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
    serve(sys.argv[1])

"""Process-pool seam: an executor whose workers, order of execution, random state and failures the spec decides.

Workers are simulated processes: arguments and results cross by pickling, and each worker has its own copy of the
process-wide random generators, forked from the parent's when the pool starts.
"""
import concurrent.futures as cf
import contextlib
import os
import pickle
import random

import numpy as np
from concurrent.futures.process import BrokenProcessPool

PLAN = {}          # current plan: seed, workers, faults [{"task": k, "kind": ...}], ctx


class SimExecutor(cf.Executor):
    def __init__(self, max_workers=None, **kw):
        self.plan = PLAN
        self.rng = random.Random(PLAN.get('seed', 0))
        n = PLAN.get('workers') or max_workers or 1
        self.state = [(random.getstate(), np.random.get_state()) for _ in range(n)]
        self.queue = []
        self.count = 0
        self.broken = False

    def submit(self, fn, *args, **kwargs):
        f = cf.Future()
        wrapped = _LazyFuture(self)
        try:
            payload = pickle.dumps((fn, args, kwargs))
        except Exception as e:           # pylint: disable=broad-except
            wrapped.set_exception(e)
            return wrapped
        self.queue.append((self.count, wrapped, payload))
        self.count += 1
        del f
        return wrapped

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        fs = [self.submit(fn, *args) for args in zip(*iterables)]

        def gen():
            for f in fs:
                yield f.result()
        return gen()

    def drain(self):
        ctx = self.plan['ctx']
        while self.queue:
            k = self.rng.randrange(len(self.queue))
            num, fut, payload = self.queue.pop(k)
            worker = self.rng.randrange(len(self.state))
            ctx.event('task', num, worker)
            fault = next((f for f in self.plan.get('faults', ()) if f['task'] == num), None)
            if self.broken or (fault and fault['kind'] == 'worker_dies'):
                if not self.broken:
                    ctx.fault('worker_dies')
                self.broken = True
                fut.set_exception(BrokenProcessPool('a worker died'))
                continue
            saved = random.getstate(), np.random.get_state()
            env = dict(os.environ)
            random.setstate(self.state[worker][0])
            np.random.set_state(self.state[worker][1])
            try:
                fn, args, kwargs = pickle.loads(payload)
                if fault and fault['kind'] == 'task_fails':
                    ctx.fault('task_fails')
                    raise MemoryError('injected')
                out = fn(*args, **kwargs)
                if fault and fault['kind'] == 'result_lost':
                    ctx.fault('result_lost')
                    raise pickle.PicklingError('injected: the result did not come back')
                fut.set_result(pickle.loads(pickle.dumps(out)))
            except Exception as e:       # pylint: disable=broad-except
                fut.set_exception(e)
            finally:
                self.state[worker] = (random.getstate(), np.random.get_state())
                random.setstate(saved[0])
                np.random.set_state(saved[1])
                os.environ.clear()
                os.environ.update(env)

    def shutdown(self, wait=True, **kw):
        self.drain()

    def __exit__(self, *exc):
        self.shutdown()
        return False


class _LazyFuture(cf.Future):
    def __init__(self, ex):
        super().__init__()
        self.ex = ex

    def result(self, timeout=None):
        self.ex.drain()
        return super().result(timeout)

    def exception(self, timeout=None):
        self.ex.drain()
        return super().exception(timeout)

    def done(self):
        self.ex.drain()
        return super().done()


def _as_completed(fs, timeout=None):
    fs = list(fs)
    for f in fs:
        f.done()
    random.Random(PLAN.get('seed', 0) + 1).shuffle(fs)
    return iter(fs)


@contextlib.contextmanager
def simulated(ctx, seed, workers, faults=()):
    """Within this block every process or thread pool is simulated."""
    import qiskit.tools.parallel as qp
    PLAN.clear()
    PLAN.update(seed=seed, workers=workers, faults=list(faults), ctx=ctx)
    saved = (qp.ProcessPoolExecutor, cf.ProcessPoolExecutor, cf.ThreadPoolExecutor, cf.as_completed, os.environ.get('QISKIT_IN_PARALLEL'))
    qp.ProcessPoolExecutor = cf.ProcessPoolExecutor = cf.ThreadPoolExecutor = SimExecutor
    cf.as_completed = _as_completed
    try:
        yield
    finally:
        qp.ProcessPoolExecutor, cf.ProcessPoolExecutor, cf.ThreadPoolExecutor, cf.as_completed = saved[:4]
        os.environ['QISKIT_IN_PARALLEL'] = saved[4] or 'FALSE'

"""Cooperative scheduler for real threads: exactly one runs at a time, and the spec decides who.

Threads are parked on private semaphores and released one at a time. A thread may lose the baton only
at a yield point: a traced source line of the code under test, a simulated lock, or a simulated
file-system call. Which yield points switch, and to whom, comes from the spec:

    {"mode": "sparse", "switches": [[step, k], ...]}   at these yield-point numbers go to the k-th other thread
    {"mode": "dense", "seed": s, "p": 0.2}             at each yield point switch with probability p

Either way the switches taken are recorded, so a dense run can be replayed and minimised as a sparse one.
"""
import random
import sys
import threading
import _thread

from .core import RunTimeout

_RealThread = threading.Thread
_RealLock, _RealRLock = threading.Lock, threading.RLock


def _RealSemaphore(_):
    gate = _thread.allocate_lock()       # binary gate, closed
    gate.acquire()
    return gate
_get_ident = _thread.get_ident


class Killed(BaseException):
    """The simulated process died; unwinds a simulated thread."""


class Deadlock(Exception):
    pass


class Task:
    def __init__(self, sched, index, name, fn):
        self.sched, self.index, self.name, self.fn = sched, index, name, fn
        self.gate = _RealSemaphore(0)
        self.done = False
        self.blocked_on = None
        self.exc = None
        self.ident = None


class Scheduler:
    """See the module docstring. ``trace_dirs``: source files whose lines are yield points."""

    current = None       # the scheduler whose threads are running, if any

    def __init__(self, plan, ctx, trace_dirs=(), max_steps=60000):
        self.plan, self.ctx = plan, ctx
        self.trace_dirs = tuple(trace_dirs)
        self.tasks = []
        self.by_ident = {}
        self.step = 0
        self.max_steps = max_steps
        self.switches = []
        self.main_gate = _RealSemaphore(0)
        self.dead = False
        self.runaway = False
        if plan.get('mode') == 'dense':
            self.rng = random.Random(plan['seed'])
        else:
            self.rng = None
            self.at = {}
            for s, k in plan.get('switches', []):
                self.at.setdefault(int(s), int(k))
        self._cache = {}

    def spawn(self, name, fn):
        self.tasks.append(Task(self, len(self.tasks), name, fn))

    # -- tracing
    def _tracer(self, frame, event, arg):
        code = frame.f_code
        hit = self._cache.get(code)
        if hit is None:
            hit = any(code.co_filename.startswith(d) for d in self.trace_dirs)
            self._cache[code] = hit
        if not hit:
            return None
        return self._line

    def _line(self, frame, event, arg):
        if event == 'line':
            self.yield_point('line')
        return self._line

    # -- switching
    def me(self):
        return self.by_ident.get(_get_ident())

    def _runnable(self):
        return [t for t in self.tasks if not t.done and t.blocked_on is None]

    def yield_point(self, tag):
        t = self.me()
        if t is None or Scheduler.current is not self:
            return
        if self.dead:
            raise Killed()
        self.step += 1
        if self.step > self.max_steps:
            self.runaway = True
            self.kill()
            raise Killed()
        if self.rng is not None:
            if self.rng.random() >= self.plan['p']:
                return
            k = self.rng.randrange(1 << 16)
        else:
            k = self.at.get(self.step)
            if k is None:
                return
        others = [o for o in self._runnable() if o is not t]
        if not others:
            return
        self.switches.append([self.step, k])
        self._hand_over(t, others[k % len(others)])

    def yield_now(self):
        """Hand over to the next thread, whatever the plan."""
        t = self.me()
        if self.dead:
            raise Killed()
        others = [o for o in self._runnable() if o is not t]
        if others:
            self._hand_over(t, others[self.step % len(others)])

    def _hand_over(self, t, to):
        self.ctx.event('switch', t.index, to.index, self.step)
        to.gate.release()
        t.gate.acquire()
        if self.dead:
            raise Killed()

    def block(self, lock):
        """Current task waits for a simulated lock."""
        t = self.me()
        if self.dead:
            raise Killed()
        t.blocked_on = lock
        others = self._runnable()
        if not others:
            t.blocked_on = None
            raise Deadlock('every thread waits for a lock')
        self._hand_over(t, others[self.step % len(others)])

    def unblock(self, lock):
        for o in self.tasks:
            if o.blocked_on is lock:
                o.blocked_on = None

    def kill(self):
        """The simulated process dies now; every thread unwinds without further effect."""
        self.dead = True

    def _body(self, t):
        t.ident = _get_ident()
        self.by_ident[t.ident] = t
        t.gate.acquire()
        try:
            if not self.dead:
                if self.trace_dirs:
                    sys.settrace(self._tracer)
                t.fn()
        except Killed:
            pass
        except BaseException as e:       # pylint: disable=broad-except
            t.exc = e
        finally:
            sys.settrace(None)
            t.done = True
            t.blocked_on = None
            if self.dead:
                for o in self.tasks:
                    o.blocked_on = None
            nxt = self._runnable()
            if nxt:
                nxt[self.step % len(nxt)].gate.release()
            else:
                left = [o for o in self.tasks if not o.done]
                if left:                 # all remaining wait for a lock nobody holds any more
                    self.dead = True
                    for o in left:
                        o.exc = Deadlock('waits for ever for a lock')
                        o.blocked_on = None
                    left[0].gate.release()
                else:
                    self.main_gate.release()

    def run(self):
        if not self.tasks:
            return
        Scheduler.current = self
        threads = []
        patched = threading.Lock, threading.RLock
        threading.Lock, threading.RLock = _RealLock, _RealRLock     # the simulator's own threads
        try:
            for t in self.tasks:
                th = _RealThread(target=self._body, args=(t,), daemon=True)
                threads.append(th)
                th.start()
        finally:
            threading.Lock, threading.RLock = patched
        # wait for registration (the threads park at once; their order of arrival decides nothing)
        while len(self.by_ident) < len(self.tasks):
            _thread_yield()
        self.tasks[0].gate.release()
        try:
            self.main_gate.acquire()
        except RunTimeout:
            self.dead = True
            raise
        finally:
            Scheduler.current = None
        for th in threads:
            th.join()
        self.ctx.schedule = {'steps': self.step, 'switches': self.switches}


def _thread_yield():
    _real_sleep(0.0002)


import time as _t    # noqa
_real_sleep = _t.sleep


class SimLock:
    """Replacement for threading.Lock/RLock whose waiting is decided by the scheduler."""

    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.owner = None
        self.count = 0

    def _who(self):
        s = Scheduler.current
        if s is not None:
            t = s.me()
            if t is not None:
                return t
        return 'main'

    def acquire(self, blocking=True, timeout=-1):
        me = self._who()
        s = Scheduler.current
        if me != 'main':
            s.yield_point('lock')
        while self.owner is not None and not (self.reentrant and self.owner is me):
            if not blocking:
                return False
            if me == 'main' or (s is not None and s.dead):
                if s is not None and s.dead and me != 'main':
                    raise Killed()
                self.owner, self.count = None, 0      # left behind by a dead process
                break
            if timeout is not None and timeout >= 0:
                return False
            s.block(self)
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if self.owner is None:
            return
        self.count -= 1
        if self.count <= 0:
            self.owner, self.count = None, 0
            s = Scheduler.current
            if s is not None:
                s.unblock(self)
                if s.me() is not None and not s.dead:
                    s.yield_point('unlock')

    def locked(self):
        return self.owner is not None

    def _is_owned(self):
        return self.owner is self._who()

    def _at_fork_reinit(self):
        self.owner, self.count = None, 0

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


def SimRLockFactory(*a, **k):
    return SimLock(True)


def SimLockFactory(*a, **k):
    return SimLock(False)

"""The logging world: a fresh logging system over simulated threads, locks, disk, clock and console."""
import contextlib
import importlib
import io
import logging
import logging.handlers
import os
import re
import shutil
import sys
import tempfile
import threading
import time

from . import core
from .sched import Scheduler, SimLock, SimLockFactory, SimRLockFactory
from .simfs import SimFS

_real_time, _real_time_ns, _real_sleep = time.time, time.time_ns, time.sleep
_real_calendar = {n: getattr(time, n) for n in ('localtime', 'gmtime', 'ctime', 'strftime')}
IGNIS_DIR = os.path.join(os.path.realpath(core.REPO), 'qiskit', 'ignis') + os.sep
IGNIS_DIR2 = os.path.join(core.REPO, 'qiskit', 'ignis') + os.sep
LOGGING_DIR = os.path.dirname(logging.__file__) + os.sep

RECORD = re.compile(r'^(\d{4}/\d{2}/\d{2}) (\d{2}:\d{2}:\d{2}) ignis_logging (.*)$')


class Clock:
    """Virtual wall clock, advanced only by the workload."""

    def __init__(self, start=1_600_000_000.0):
        self.t = float(start)

    def now(self):
        return self.t

    def advance(self, dt):
        self.t += dt


class Console(io.StringIO):
    """Stands for the terminal: remembers complete writes."""

    def __init__(self):
        super().__init__()
        self.text = ''
        self.writes = 0
        self.fail_at = {}          # write number -> callback, then OSError

    def write(self, s):
        s_ = Scheduler.current
        if s_ is not None:
            s_.yield_point('console')
        self.writes += 1
        if self.writes in self.fail_at:
            self.fail_at[self.writes]()
            raise OSError(5, 'Input/output error')
        self.text += s
        return len(s)

    def flush(self):
        pass

    def lines(self):
        return [l for l in self.text.split('\n') if l]


class World:
    """Context manager; ``boot()`` starts a new simulated process on the same disk."""

    def __init__(self, ctx, config_text, faults=(), order_seed=0, start=1_600_000_000.0, sub=''):
        self.ctx = ctx
        self.clock = Clock(start)
        self.start = start
        self.config_text = config_text
        self.faults, self.order_seed = faults, order_seed
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        self.root = os.path.realpath(tempfile.mkdtemp(prefix='ignisim', dir=base))
        self.home = os.path.join(self.root, 'home')
        self.cwd = os.path.join(self.root, 'work' + sub)
        os.makedirs(os.path.join(self.home, '.qiskit'))
        os.makedirs(self.cwd)
        self.console = Console()
        self.api = None

    def write_config(self, text):
        path = os.path.join(self.home, '.qiskit', 'logging.yaml')
        if text is None:
            if os.path.exists(path):
                os.remove(path)
            return
        with open(path, 'w') as f:
            f.write(text)

    def __enter__(self):
        self.saved = dict(cwd=os.getcwd(), home=os.environ.get('HOME'), root=logging.root,
                          manager=logging.Logger.manager, cls=logging.getLoggerClass(), lock=logging._lock,
                          lroot=logging.Logger.root, raisex=logging.raiseExceptions,
                          handlers=logging._handlers, hlist=logging._handlerList,
                          last=logging.lastResort, disable=logging.root.manager.disable,
                          Lock=threading.Lock, RLock=threading.RLock, stderr=sys.stderr,
                          mods={k: v for k, v in sys.modules.items() if k.startswith('qiskit.ignis.logging')})
        os.chdir(self.cwd)
        os.environ['HOME'] = self.home
        self.write_config(self.config_text)
        self.fs = SimFS(self.root, self.clock, self.ctx, self.faults, self.order_seed)
        self.fs.__enter__()
        time.time = self.clock.now
        time.time_ns = lambda: int(self.clock.now() * 1e9)
        time.sleep = self.clock.advance
        for n in ('localtime', 'gmtime', 'ctime'):
            setattr(time, n, lambda secs=None, fn=_real_calendar[n]: fn(self.clock.now() if secs is None else secs))
        time.strftime = lambda fmt, *t: _real_calendar['strftime'](fmt, *(t or (time.localtime(),)))
        threading.Lock, threading.RLock = SimLockFactory, SimRLockFactory
        logging.raiseExceptions = False
        sys.stderr = self.console
        self.boot()
        return self

    def boot(self):
        """Start a new simulated process (module state, loggers and locks from scratch)."""
        import weakref
        logging._handlers = weakref.WeakValueDictionary()
        logging._handlerList = []
        logging._lock = SimLock(True)
        logging._loggerClass = logging.Logger
        root = logging.RootLogger(logging.WARNING)
        logging.root = logging.Logger.root = root
        logging.Logger.manager = logging.Manager(root)
        logging.lastResort = logging._StderrHandler(logging.WARNING)
        self.fs.crashed = False
        for r in self.fs.raws:
            r.drop()
        self.fs.raws = []
        for k in list(sys.modules):
            if k.startswith('qiskit.ignis.logging'):
                del sys.modules[k]
        self.api = importlib.import_module('qiskit.ignis.logging')
        return self.api

    def __exit__(self, *exc):
        s = self.saved
        self.fs.crashed = True          # nothing that is still open may write any more
        self.fs.__exit__()
        time.time, time.time_ns, time.sleep = _real_time, _real_time_ns, _real_sleep
        for n, fn in _real_calendar.items():
            setattr(time, n, fn)
        threading.Lock, threading.RLock = s['Lock'], s['RLock']
        logging.raiseExceptions = s['raisex']
        logging._handlers, logging._handlerList, logging._lock = s['handlers'], s['hlist'], s['lock']
        logging._loggerClass = s['cls']
        logging.root, logging.Logger.root, logging.Logger.manager = s['root'], s['lroot'], s['manager']
        logging.lastResort = s['last']
        sys.stderr = s['stderr']
        for k in list(sys.modules):
            if k.startswith('qiskit.ignis.logging'):
                del sys.modules[k]
        sys.modules.update(s['mods'])
        os.chdir(s['cwd'])
        if s['home'] is None:
            os.environ.pop('HOME', None)
        else:
            os.environ['HOME'] = s['home']
        self.ctx.advance(max(0.0, self.clock.now() - self.start))
        shutil.rmtree(self.root, ignore_errors=True)

    # -- helpers
    def scheduler(self, plan, lines=True):
        dirs = (IGNIS_DIR, IGNIS_DIR2, LOGGING_DIR) if lines else ()
        return Scheduler(plan, self.ctx, dirs)

    def log_files(self, name):
        """(path, text) of base.N ... base.1, base, by rotation number: the reference file order."""
        base = os.path.join(self.cwd, name)
        d, b = os.path.split(base)
        found = []
        if os.path.isdir(d):
            for n in os.listdir(d):
                if n == b:
                    found.append((0, n))
                elif n.startswith(b + '.') and n[len(b) + 1:].isdigit():
                    found.append((int(n[len(b) + 1:]), n))
        out = []
        for num, n in sorted(found, reverse=True):
            with contextlib.ExitStack() as st:
                f = st.enter_context(io.FileIO(os.path.join(d, n)))
                out.append((num, os.path.join(d, n), f.read().decode('utf-8', 'replace')))
        return out

    def files_present(self):
        """Every file below the working directory, relative."""
        res = []
        for d, _, names in os.walk(self.cwd):
            res += [os.path.relpath(os.path.join(d, n), self.cwd) for n in names]
        return sorted(res)


def sched_plan(rng, est_steps):
    """Draw a schedule: a few well-placed preemptions, or dense switching."""
    r = rng.random()
    if r < 0.15:
        return {'mode': 'sparse', 'switches': []}
    if r < 0.55:
        n = rng.randint(1, 6)
        return {'mode': 'sparse', 'switches': sorted([rng.randrange(1, est_steps), rng.randrange(8)] for _ in range(n))}
    return {'mode': 'dense', 'seed': rng.randrange(1 << 30), 'p': rng.choice([0.02, 0.05, 0.1, 0.2, 0.4])}

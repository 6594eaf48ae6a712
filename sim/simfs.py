"""File-system seam: real files in a scratch directory, every call counted, every call able to fail.

``open`` builds the real Python I/O stack (TextIOWrapper over BufferedWriter) on a raw file whose writes
the simulator owns, so that buffering, short writes and retries behave exactly as in production. Only
what reached the raw file survives a simulated crash. Modification times come from the virtual clock and
directory listings come in an order the spec chooses.
"""
import builtins
import errno
import io
import os
import random

from .sched import Killed, Scheduler

_open, _rename, _replace, _remove, _unlink = builtins.open, os.rename, os.replace, os.remove, os.unlink
_scandir, _listdir, _stat = os.scandir, os.listdir, os.stat


class SimFS:
    """faults: list of {"at": n, "kind": ...}; n counts file-system calls of the run (see ``ops``)."""

    def __init__(self, root, clock, ctx, faults=(), order_seed=0):
        self.root = os.path.realpath(root)
        self.clock, self.ctx = clock, ctx
        self.faults = {}
        for f in faults:
            self.faults.setdefault(f['at'], f)
        self.ops = 0
        self.crashed = False
        self.enabled = True          # faults fire only while enabled
        self.order = random.Random(order_seed)
        self.fired = []
        self.on_fault = None         # told about every fault that fires
        self.raws = []

    # -- bookkeeping
    def inside(self, path):
        if isinstance(path, int):
            return False
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return os.path.abspath(p).startswith(self.root + os.sep)

    def rel(self, path):
        return os.path.relpath(os.path.abspath(os.fspath(path)), self.root)

    def op(self, kind, path):
        """Count a call; returns the fault to inject, if any."""
        if self.crashed:
            raise Killed()
        s = Scheduler.current
        if s is not None:
            s.yield_point('fs')
        if not self.enabled:
            return None
        self.ops += 1
        self.ctx.event('fs', self.ops, kind, self.rel(path))
        f = self.faults.get(self.ops)
        if f is None or kind not in f.get('on', (kind,)):
            return None
        self.fired.append((self.ops, f['kind']))
        self.ctx.fault(f['kind'] + '@' + kind)
        if self.on_fault:
            self.on_fault(f, kind)
        return f

    def crash(self):
        self.crashed = True
        s = Scheduler.current
        if s is not None:
            s.kill()
        raise Killed()

    def plain_fault(self, f, path):
        """Faults for calls without data."""
        if f is None:
            return False
        if f['kind'] in ('crash_before', 'crash_torn'):
            self.crash()
        if f['kind'] == 'crash_after':
            return True
        code = {'enospc': errno.ENOSPC, 'eio': errno.EIO, 'short': None}.get(f['kind'], errno.EACCES)
        if code is None:
            return False
        raise OSError(code, os.strerror(code), str(path))

    # -- patched calls
    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if not self.inside(file):
            return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        writing = any(c in mode for c in 'wax+')
        f = self.op('open_w' if writing else 'open_r', file)
        after = self.plain_fault(f, file)
        if not writing:
            st = _open(file, mode, buffering, encoding, errors, newline)
            if after:
                self.crash()
            return st
        existed = os.path.exists(file)
        raw = SimRaw(self, file, mode.replace('t', '').replace('b', ''))
        if not existed or 'w' in mode:
            raw.touch()
        if after:
            self.crash()
        if 'b' in mode and buffering == 0:
            return raw
        size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
        buf = io.BufferedRandom(raw, size) if '+' in mode else io.BufferedWriter(raw, size)
        if 'b' in mode:
            return buf
        return io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline, line_buffering=buffering == 1)

    def _two(self, kind, fn):
        def call(src, dst, **kw):
            if not self.inside(src):
                return fn(src, dst, **kw)
            after = self.plain_fault(self.op(kind, src), src)
            out = fn(src, dst, **kw)
            if after:
                self.crash()
            return out
        return call

    def _one(self, kind, fn):
        def call(path, **kw):
            if not self.inside(path):
                return fn(path, **kw)
            after = self.plain_fault(self.op(kind, path), path)
            out = fn(path, **kw)
            if after:
                self.crash()
            return out
        return call

    def scandir(self, path='.'):
        it = _scandir(path)
        if not self.inside(path if path not in ('', None) else '.') and \
                os.path.abspath(os.fspath(path) if not isinstance(path, int) else '/') != self.root:
            return it
        with it:
            entries = sorted(it, key=lambda e: e.name)
        self.order.shuffle(entries)
        return _Entries(entries)

    def listdir(self, path='.'):
        names = sorted(_listdir(path))
        if not isinstance(path, int) and (self.inside(path) or os.path.abspath(path) == self.root):
            self.order.shuffle(names)
        return names

    def __enter__(self):
        builtins.open = io.open = self.open
        os.rename, os.replace = self._two('rename', _rename), self._two('rename', _replace)
        os.remove, os.unlink = self._one('remove', _remove), self._one('remove', _unlink)
        os.scandir, os.listdir = self.scandir, self.listdir
        return self

    def __exit__(self, *exc):
        builtins.open = io.open = _open
        os.rename, os.replace, os.remove, os.unlink = _rename, _replace, _remove, _unlink
        os.scandir, os.listdir = _scandir, _listdir
        for r in self.raws:
            r.drop()


class _Entries:
    def __init__(self, entries):
        self.it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


class SimRaw(io.RawIOBase):
    """Raw file: the only place where bytes become durable."""

    def __init__(self, fs, path, mode):
        super().__init__()
        self.fs, self.path = fs, path
        self.name = path
        self.mode = mode
        self.f = _open(path, mode.replace('U', '') + 'b', buffering=0)
        fs.raws.append(self)
        self.dropped = False

    def drop(self):
        """The process is gone: later flushes of Python buffers reach nothing."""
        if not self.dropped:
            self.dropped = True
            self.f.close()

    def touch(self):
        t = self.fs.clock.now()
        os.utime(self.f.fileno(), (t, t))

    def readable(self):
        return '+' in self.mode

    def writable(self):
        return True

    def seekable(self):
        return True

    def fileno(self):
        return self.f.fileno()

    def seek(self, pos, whence=0):
        if self.dropped:
            return 0
        return self.f.seek(pos, whence)

    def tell(self):
        if self.dropped:
            return 0
        return self.f.tell()

    def truncate(self, size=None):
        if self.dropped or self.fs.crashed:
            return 0
        self.fs.plain_fault(self.fs.op('truncate', self.path), self.path)
        return self.f.truncate(size)

    def readinto(self, b):
        return self.f.readinto(b)

    def write(self, b):
        if self.dropped or self.fs.crashed:
            return len(b)
        data = bytes(b)
        f = self.fs.op('write', self.path)
        if f is None:
            n = self.f.write(data)
            self.touch()
            return n
        kind = f['kind']
        cut = min(len(data), max(0, int(f.get('frac', 0.5) * len(data))))
        if kind == 'crash_before':
            self.fs.crash()
        if kind in ('crash_after', 'crash_torn'):
            if kind == 'crash_torn':
                data = data[:cut]
            self.f.write(data)
            self.touch()
            self.fs.crash()
        if kind == 'short':
            n = self.f.write(data[:max(1, cut)])
            self.touch()
            return n
        if cut and kind == 'enospc' and f.get('partial'):
            self.f.write(data[:cut])
            self.touch()
            # what was written before the disk filled up counts as written: report it, fail next time
            self.fs.faults.setdefault(self.fs.ops + 1, {'at': self.fs.ops + 1, 'kind': 'enospc'})
            return cut
        code = {'enospc': errno.ENOSPC, 'eio': errno.EIO}.get(kind, errno.EIO)
        raise OSError(code, os.strerror(code))

    def close(self):
        if not self.closed:
            if not self.dropped:
                self.f.close()
                self.dropped = True
            super().close()

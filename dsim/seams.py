"""Seams: clock, sleep, file system, machine probes.  Installed once, before the package is
imported; every patched function behaves as the original outside a simulated run."""
import builtins
import datetime as _dtmod
import gc
import io
import os
import random
import sys
import time as _t
import weakref

from .world import World, SimAbort, SimCrash, Violation, DEAD, DONE

ROOT = None            # scratch directory of the run; the only place where writes are let through

_open, _io_open = builtins.open, io.open
_real = {}


def set_root(p):
    global ROOT
    ROOT = os.path.realpath(p)


def _sim():
    """the World, if the caller is a rank of a live simulated run"""
    w = World.current
    if w is None:
        return None
    r = w.me()
    if r is None:
        return None
    return w


def _inside(p):
    try:
        p = os.fspath(p)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = p.decode()
    full = os.path.normpath(os.path.join(ROOT, p))
    if full == ROOT or full.startswith(ROOT + os.sep):
        return full
    return None


def _rel(full):
    return os.path.relpath(full, ROOT)


class IO:
    """counts file operations of a phase and applies the fault plan to them"""
    def __init__(self, faults):
        self.n = 0
        self.faults = [dict(f) for f in faults if f.get('on') == 'io']
        self.log = []
        self.files = []

    def op(self, w, op, full, size=0):
        rel = _rel(full)
        self.n += 1
        n = self.n
        r = w.step('io', f'{op}:{rel}')
        self.log.append((n, r.rank, op, rel, size))
        for f in self.faults:
            if f.get('done'):
                continue
            if 'at' in f and f['at'] != n:
                continue
            if 'op' in f and op not in f['op']:
                continue
            if 'path' in f and f['path'] not in rel:
                continue
            if 'nth' in f:
                f['nth'] -= 1
                if f['nth'] > 0:
                    continue
            if f.get('times', 1) > 1:
                f['times'] -= 1
            else:
                f['done'] = True
            return r, f
        return r, None

    def apply(self, w, r, f, op, full):
        """faults common to all operations; returns normally if the operation may proceed"""
        k = f['kind']
        if k == 'crash':
            w.fire('crash@' + op)
            w.crash(r)
        if k == 'eio':
            w.fire('EIO@' + op)
            raise OSError(5, 'Input/output error (injected)', full)
        if k == 'enospc' and op in ('write', 'open-w', 'mkdir', 'rename'):
            w.fire('ENOSPC@' + op)
            raise OSError(28, 'No space left on device (injected)', full)
        if k == 'eacces':
            w.fire('EACCES@' + op)
            raise PermissionError(13, 'Permission denied (injected)', full)


def _reraise_abort(w):
    if w.killing:
        raise SimAbort()


class SimRaw(io.RawIOBase):
    def __init__(self, w, owner, full, mode, flags):
        super().__init__()
        self._w, self._owner, self._full = w, owner, full
        self._fd = os.open(full, flags, 0o644)
        self.mode = mode
        self._read = flags & os.O_ACCMODE in (os.O_RDONLY, os.O_RDWR)
        self._write = flags & os.O_ACCMODE in (os.O_WRONLY, os.O_RDWR)
        self.name = full

    def readable(self):
        return self._read

    def writable(self):
        return self._write

    def seekable(self):
        return True

    def fileno(self):
        return self._fd

    def isatty(self):
        return False

    def seek(self, pos, whence=0):
        return os.lseek(self._fd, pos, whence)

    def tell(self):
        return os.lseek(self._fd, 0, 1)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        os.ftruncate(self._fd, size)
        return size

    def _gone(self):
        return self._owner.state == DEAD or self._w.killing

    def readinto(self, b):
        w = _sim()
        if w is not None and not self._gone():
            r, f = w.io.op(w, 'read', self._full, len(b))
            if f is not None:
                w.io.apply(w, r, f, 'read', self._full)
        d = os.read(self._fd, len(b))
        b[:len(d)] = d
        return len(d)

    def write(self, b):
        data = bytes(b)
        if self._gone():
            return len(data)               # a dead process writes nothing
        w = _sim()
        if w is not None and w.crashed and w.grace.get(self._owner.rank, 0) <= 0:
            self._owner.state = DEAD
            raise SimCrash()
        if w is not None and self._owner.state != DONE:
            r, f = w.io.op(w, 'write', self._full, len(data))
            if f is not None:
                k = f['kind']
                if k in ('crash', 'enospc', 'eio') and f.get('frac', 0) > 0 and len(data) > 1:
                    m = min(len(data), max(1, int(len(data) * f['frac'])))
                    self._put(data[:m])
                    w.fire('torn_write')
                if k == 'short' and len(data) > 1:
                    m = max(1, int(len(data) * f.get('frac', 0.5)))
                    if m < len(data):
                        w.fire('short_write')
                    self._put(data[:m])
                    return m
                w.io.apply(w, r, f, 'write', self._full)
        self._put(data)
        return len(data)

    def _put(self, data):
        while data:
            n = os.write(self._fd, data)
            data = data[n:]

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                os.close(self._fd)


_FLAGS = {'r': os.O_RDONLY, 'w': os.O_WRONLY | os.O_CREAT | os.O_TRUNC,
          'a': os.O_WRONLY | os.O_CREAT | os.O_APPEND, 'x': os.O_WRONLY | os.O_CREAT | os.O_EXCL}
_FLAGSP = {'r': os.O_RDWR, 'w': os.O_RDWR | os.O_CREAT | os.O_TRUNC,
           'a': os.O_RDWR | os.O_CREAT | os.O_APPEND, 'x': os.O_RDWR | os.O_CREAT | os.O_EXCL}


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    w = _sim()
    if w is None or isinstance(file, int):
        return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    full = _inside(file)
    m0 = [c for c in mode if c in 'rwax']
    if len(m0) != 1:
        return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    writing = m0[0] != 'r' or '+' in mode
    if full is None:
        if writing and os.fspath(file) != os.devnull:
            raise Violation('escape', f'write access outside the working directory: {file!r} ({mode})')
        return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    flags = (_FLAGSP if '+' in mode else _FLAGS)[m0[0]] | getattr(os, 'O_CLOEXEC', 0)
    r, f = w.io.op(w, 'open-w' if writing else 'open-r', full)
    if f is not None:
        if f['kind'] == 'crash' and f.get('frac', 0) > 0 and m0[0] in 'wa':
            os.close(os.open(full, flags, 0o644))      # killed right after the truncation
            w.fire('crash_after_truncate')
        w.io.apply(w, r, f, 'open-w' if writing else 'open-r', full)
    if os.path.isdir(full):
        raise IsADirectoryError(21, 'Is a directory', full)
    raw = SimRaw(w, r, full, mode, flags)
    raw.name = file
    if m0[0] == 'a':
        os.lseek(raw._fd, 0, 2)
    w.io.files.append(raw)
    binary = 'b' in mode
    if buffering == 0:
        return raw
    if '+' in mode:
        buf = io.BufferedRandom(raw)
    elif writing:
        buf = io.BufferedWriter(raw)
    else:
        buf = io.BufferedReader(raw)
    if binary:
        return buf
    txt = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline, line_buffering=buffering == 1)
    txt.mode = mode
    return txt


def _mut(name, op, npath=1):
    real = getattr(os, name)
    _real[name] = real

    def f(path, *a, **k):
        w = _sim()
        if w is None or isinstance(path, int) or k.get('dir_fd') is not None:
            return real(path, *a, **k)
        full = _inside(path)
        if full is None or (npath == 2 and _inside(a[0] if a else k.get('dst')) is None):
            raise Violation('escape', f'os.{name} outside the working directory: {path!r} {a!r}')
        r, flt = w.io.op(w, op, full)
        if flt is not None:
            if flt['kind'] == 'crash' and flt.get('frac', 0) > 0.5:
                real(path, *a, **k)        # killed right after
            w.io.apply(w, r, flt, op, full)
        return real(path, *a, **k)
    f.__name__ = name
    setattr(os, name, f)


def _query(mod, name):
    real = getattr(mod, name)
    _real['path.' + name] = real

    def f(path, *a, **k):
        w = _sim()
        if w is not None and not isinstance(path, int) and not getattr(w.local, 'busy', False):
            full = _inside(path)
            if full is not None:
                w.local.busy = True
                try:
                    w.io.op(w, name, full)
                finally:
                    w.local.busy = False
        return real(path, *a, **k)
    f.__name__ = name
    setattr(mod, name, f)


def _listdir(path='.'):
    w = _sim()
    out = _real['listdir'](path)
    if w is not None and _inside(path) is not None:
        r, f = w.io.op(w, 'listdir', _inside(path))
        if f is not None:
            w.io.apply(w, r, f, 'listdir', _inside(path))
        out = sorted(_real['listdir'](path))
        if w.cfg.get('dirorder'):                      # the order is the file system's choice
            for i in range(len(out) - 1, 0, -1):
                j = i - w.fault.pick(i + 1, 'dirorder')
                out[i], out[j] = out[j], out[i]
    return out


class Ids:
    """what id() gives on one rank: like an address, the number of an object that is gone may be given to another object
    of the same kind that was made after that (cfg 'ids': how often it is)"""
    def __init__(self, rate):
        self.rate = rate
        self.live = {}            # address -> (reference, number, kind)
        self.free = {}            # kind -> (number, an object made when the number became free) of dead objects
        self.n = 0
        self.left = 200

    def sweep(self):
        for a in list(self.live):
            ref, n, kind = self.live[a]
            if isinstance(ref, weakref.ref):
                dead = ref() is None
            else:
                dead = sys.getrefcount(ref) <= 3          # (the tuple here, the local name and the argument)
            if dead:
                del self.live[a]
                self.free.setdefault(kind, []).append((n, [None]))

    @staticmethod
    def younger(o, free):
        """those of `free` that were free before o was made (the collector keeps objects in the order they were made)"""
        for g in (2, 1, 0):                               # oldest first
            objs = gc.get_objects(generation=g)
            at = next((i for i, x in enumerate(objs) if x is o), None)
            if at is None:
                continue
            old = {_id(x) for x in objs[:at]}
            for h in range(g + 1, 3):
                old.update(_id(x) for x in gc.get_objects(generation=h))
            return [i for i, (n, mark) in enumerate(free) if _id(mark) in old]
        return []

    def __call__(self, w, o):
        x = self.live.get(_id(o))
        if x is not None and (x[0]() if isinstance(x[0], weakref.ref) else x[0]) is o:
            return x[1]
        del x
        self.sweep()
        kind = type(o).__name__
        free = self.free.get(kind)
        n = None
        if free and self.left > 0 and w.fault.coin(self.rate, 'id'):
            self.left -= 1
            can = self.younger(o, free)
            if can:
                n = free.pop(can[len(can) - 1 - w.fault.pick(len(can), 'id')])[0]
                w.fire('address-reused')
        if n is None:
            self.n += 1
            n = 0x7f0000000000 + 48 * self.n
        try:
            ref = weakref.ref(o)
        except TypeError:
            ref = o
        self.live[_id(o)] = (ref, n, kind)
        return n


_id = id


def sim_id(o, /):
    w = _sim()
    if w is None or not w.cfg.get('ids'):
        return _id(o)
    r = w.me()
    if r not in w.idtab:
        w.idtab[r] = Ids(w.cfg['ids'])
    return w.idtab[r](w, o)


def install():
    time, sleep = _t.time, _t.sleep
    localtime, gmtime, strftime = _t.localtime, _t.gmtime, _t.strftime
    perf, mono = _t.perf_counter, _t.monotonic

    def s_time():
        w = _sim()
        return time() if w is None else w.time()

    def s_sleep(dt):
        w = _sim()
        return sleep(dt) if w is None else w.sleep(dt)

    def s_localtime(secs=None):
        w = _sim()
        if w is None:
            return localtime(secs)
        return gmtime(w.time() if secs is None else secs)

    def s_strftime(fmt, t=None):
        return strftime(fmt, s_localtime() if t is None else t)

    def s_perf():
        w = _sim()
        return perf() if w is None else w.time() - w.t_start

    _t.time, _t.sleep, _t.localtime, _t.strftime, _t.perf_counter = s_time, s_sleep, s_localtime, s_strftime, s_perf

    _dt = _dtmod.datetime

    class datetime(_dt):
        @classmethod
        def now(cls, tz=None):
            w = _sim()
            if w is None:
                return _dt.now(tz)
            if tz is None:
                return _dt.utcfromtimestamp(w.time()) if False else _dt.fromtimestamp(w.time(), _dtmod.timezone.utc).replace(tzinfo=None)
            return _dt.fromtimestamp(w.time(), tz)

        @classmethod
        def utcnow(cls):
            return cls.now()

        @classmethod
        def today(cls):
            return cls.now()
    datetime.__module__ = 'datetime'
    datetime.__qualname__ = 'datetime'

    import pandas, matplotlib, tqdm, PIL.Image, psutil, socket    # noqa: they keep the original datetime
    _dtmod.datetime = datetime

    matplotlib.use('Agg')
    matplotlib.use = lambda *a, **k: None
    import matplotlib.pyplot as plt
    plt.switch_backend('Agg')
    tqdm.tqdm.monitor_interval = 0

    psutil.cpu_percent = lambda *a, **k: 12.5
    psutil.cpu_count = lambda *a, **k: 8

    class VM:
        percent, total, available, used = 25.0, 32 * 2 ** 30, 24 * 2 ** 30, 8 * 2 ** 30
    psutil.virtual_memory = lambda: VM
    socket.gethostname = lambda: 'simhost'
    socket.gethostbyname = lambda name: '127.0.0.1'

    builtins.open = sim_open
    for n, op in (('remove', 'remove'), ('unlink', 'remove'), ('rmdir', 'rmdir'), ('mkdir', 'mkdir')):
        _mut(n, op)
    for n in ('rename', 'replace'):
        _mut(n, 'rename', 2)
    _real['listdir'] = os.listdir
    os.listdir = _listdir
    for n in ('isfile', 'isdir', 'exists'):
        _query(os.path, n)


def seed_random(n):
    import numpy as np
    random.seed(n)
    np.random.seed(n % (2 ** 32))

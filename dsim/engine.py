"""Zygote processes (one per job size, package preloaded N times) and runs forked from them.

A *phase* is one life of a simulated job: a size, a program, a world configuration, and three
choice streams.  A *run* is one or more phases over one scratch directory.
"""
import gc
import importlib
import io
import json
import os
import pickle
import resource
import shutil
import signal
import socket
import struct
import sys
import tempfile
import threading
import time
import traceback

from .chooser import Chooser

HERE = os.path.dirname(os.path.abspath(__file__))
_sys_time = time.time
_sys_mono = time.monotonic


class PhaseResult:
    """status: ok | crashed | exception | deadlock | collective-mismatch | ... | hang | harness"""
    steps = mpi_steps = io_steps = hash = switches = 0
    sim_time = now = 0.0

    def __init__(self, d):
        self.fired, self.probe, self.sched, self.fault = {}, {}, [], []
        self.exc, self.log, self.io_log, self.results = [], [], [], []
        self.__dict__.update(d)

    def __repr__(self):
        return f'<{self.status} {self.msg[:200]}>'


def _cover():
    """DSIM_COV=folder: which lines of phyem the runs execute (tools/cover.py)"""
    lines, M = set(), sys.monitoring
    M.use_tool_id(M.COVERAGE_ID, 'dsim')

    def line(code, n):
        lines.add((code.co_filename, n))
        return M.DISABLE
    M.register_callback(M.COVERAGE_ID, M.events.LINE, line)
    M.set_events(M.COVERAGE_ID, M.events.LINE)
    return lines


def _child(job, trees):
    """runs in a forked child: one phase"""
    from . import world, seams
    os.chdir(job['root'])
    seams.set_root(job['root'])
    if not job.get('loud'):
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        os.dup2(dn, 2)
        sys.stdout = io.StringIO()
        sys.stderr = io.StringIO()
    cpu = job.get('cpu', 120)
    used = resource.getrusage(resource.RUSAGE_SELF)
    lim = int(used.ru_utime + used.ru_stime + cpu)
    resource.setrlimit(resource.RLIMIT_CPU, (lim, lim + 5))
    cfg = job['cfg']
    rec = job.get('streams')

    def ch(name, salt):
        if rec is not None:
            return Chooser(recorded=rec.get(name, []))
        return Chooser(seed=job['seed'] * 1000003 + salt)
    sched, fault = ch('sched', 1), ch('fault', 2)
    io_ = seams.IO(cfg.get('faults', ()))
    w = world.World(job['size'], trees, cfg, sched, fault, io_)
    mod = importlib.import_module(job['module'])
    fn = getattr(mod, job['func'])
    args = job['args']

    def prog(rank):
        ph = trees.module(rank, 'phyem')
        ctx = Ctx(rank, job['size'], w, trees)
        return fn(ph, ctx, *args)
    lines = _cover() if os.environ.get('DSIM_COV') else None
    gc.disable()          # collections are scheduled by the simulator (cfg 'gc'), not by allocation counts
    gc.freeze()
    w.run(prog)
    if lines is not None:
        with open(os.path.join(os.environ['DSIM_COV'], str(os.getpid())), 'a') as f:
            f.writelines(f'{a}:{b}\n' for a, b in lines)
    st, msg = w.status()
    results = [r.result for r in w.ranks]
    out = dict(status=st, msg=msg, results=results, steps=w.steps, mpi_steps=w.mpi_steps, io_steps=io_.n,
               io_log=io_.log[:400], sim_time=w.now - w.t_start, now=w.now, fired=w.fired, probe=w.probe, hash=w.hash,
               switches=w.switches, sched=sched.trace, fault=fault.trace,
               exc=[(type(r.exc).__name__ if r.exc is not None else None, str(r.exc)[:300] if r.exc is not None else '', r.tb)
                    for r in w.ranks],
               log=w.log)
    return out


def seams_root():
    from . import seams
    return seams.ROOT


def observed(root):
    try:
        with open(os.path.join(root, 'observed')) as f:
            return [json.loads(x) for x in f]
    except FileNotFoundError:
        return []


class Ctx:
    """what a workload program may use besides the package"""
    def __init__(self, rank, size, w, trees):
        self.rank, self.size, self.w, self._trees = rank, size, w, trees

    def mod(self, name):
        return self._trees.module(self.rank, name) if name in self._trees.sets[self.rank] else importlib.import_module(name)

    def log(self, *what):
        self.w.note('user', self.rank, *what)

    def observe(self, *what):
        """a line in the run's observation file, seen by the check even if this job is killed later"""
        fd = os.open(os.path.join(os.path.dirname(seams_root()), 'observed'), os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644)
        os.write(fd, (json.dumps(what, default=repr) + '\n').encode())
        os.close(fd)

    def io_step(self):
        return self.w.io.n

    def now(self):
        return self.w.now


def _zygote_main(sock, size):
    sys.path[:0] = [p for p in os.environ.get('DSIM_PATH', '').split(':') if p]
    sys.path.insert(0, os.path.dirname(HERE))
    from . import seams, trees
    seams.install()
    t = trees.Trees(size)
    import phyem  # noqa  (resolves through the finder)
    gc.collect()
    gc.freeze()
    f = sock.makefile('rwb')
    f.write(b'ready\n')
    f.flush()
    signal.signal(signal.SIGCHLD, signal.SIG_DFL)
    lock = threading.Lock()
    live = {}
    r_, w_ = os.pipe()
    # single-threaded loop: read requests, fork, poll children
    import select
    buf = b''
    fd = sock.fileno()
    while True:
        rd, _, _ = select.select([fd], [], [], 0.005 if live else 3600)
        if rd:
            d = os.read(fd, 1 << 20)
            if not d:
                for p in live:
                    try:
                        os.kill(p, signal.SIGKILL)
                    except OSError:
                        pass
                os._exit(0)
            buf += d
            while len(buf) >= 4:
                n = struct.unpack('>I', buf[:4])[0]
                if len(buf) < 4 + n:
                    break
                req = pickle.loads(buf[4:4 + n])
                buf = buf[4 + n:]
                pid = os.fork()
                if pid == 0:
                    code = 3
                    try:
                        sock.detach()
                        os.setpgid(0, 0)
                        try:
                            out = _child(req, t)
                        except BaseException as e:
                            out = dict(status='harness', msg=''.join(traceback.format_exception(e)), results=[])
                        try:
                            blob = pickle.dumps(out, -1)
                        except BaseException as e:
                            blob = pickle.dumps(dict(status='harness', msg='unpicklable result: %r' % (e,), results=[]), -1)
                        fd_ = os.open(req['out'] + '.tmp', os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                        mv = memoryview(blob)
                        while mv:
                            k = os.write(fd_, mv)
                            mv = mv[k:]
                        os.close(fd_)
                        os.rename(req['out'] + '.tmp', req['out'])
                        code = 0
                    finally:
                        os._exit(code)
                live[pid] = (req['id'], _sys_mono() + req.get('wall', 600))
        for pid in list(live):
            p, st = os.waitpid(pid, os.WNOHANG)
            rid, dl = live[pid]
            if p:
                del live[pid]
                if os.WIFSIGNALED(st):
                    code = -os.WTERMSIG(st)
                else:
                    code = os.WEXITSTATUS(st)
                f.write(json.dumps([rid, code]).encode() + b'\n')
                f.flush()
            elif _sys_mono() > dl:
                os.kill(pid, signal.SIGKILL)
                live[pid] = (rid, float('inf'))
                
ENV = dict(PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1',
           OPENBLAS_NUM_THREADS='1', PYTHONUNBUFFERED='1', MPLBACKEND='Agg', LC_ALL='C.UTF-8', TZ='UTC')
PYTHON = '/opt/venv/bin/python'


# fixed address layout: id()-keyed behaviour replays
_NORAND = ['setarch', '-R'] if shutil.which('setarch') and os.system('setarch -R true 2>/dev/null') == 0 else []


class Zygote:
    def __init__(self, size):
        import subprocess
        self.size = size
        a, b = socket.socketpair()
        env = dict(os.environ)
        env.update(ENV)
        env.setdefault('PYTHONHASHSEED', '0')
        self.proc = subprocess.Popen(
            _NORAND + [PYTHON, '-c',
             'import sys,socket;sys.path.insert(0,%r);from dsim.engine import _zygote_main;'
             '_zygote_main(socket.socket(fileno=%d),%d)' % (os.path.dirname(HERE), b.fileno(), size)],
            pass_fds=[b.fileno()], env=env, cwd='/')
        b.close()
        self.sock = a
        self.f = a.makefile('rb')
        self.lock = threading.Lock()
        self.wait = {}
        self.nid = 0
        self.dead = False
        self.ready = threading.Event()
        threading.Thread(target=self._reader, daemon=True).start()

    def _reader(self):
        line = self.f.readline()
        self.ready.set()
        if not line:
            self.dead = True
        while not self.dead:
            line = self.f.readline()
            if not line:
                self.dead = True
                break
            rid, code = json.loads(line)
            ev, box = self.wait.pop(rid)
            box.append(code)
            ev.set()
        with self.lock:
            for ev, box in self.wait.values():
                box.append('zygote died')
                ev.set()

    def call(self, job):
        self.ready.wait()
        with self.lock:
            if self.dead:
                return 'zygote died'
            self.nid += 1
            rid = job['id'] = self.nid
            ev, box = threading.Event(), []
            self.wait[rid] = (ev, box)
            blob = pickle.dumps(job, -1)
            self.sock.sendall(struct.pack('>I', len(blob)) + blob)
        ev.wait()
        return box[0]

    def close(self):
        try:
            self.sock.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.sock.close()
        try:
            self.proc.wait(5)
        except Exception:
            self.proc.kill()


class Engine:
    def __init__(self, sizes, scratch=None):
        self.scratch = scratch or tempfile.mkdtemp(prefix='dsim-', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
        self.own = scratch is None
        self.z = {s: Zygote(s) for s in sorted(set(sizes))}
        self.n = 0
        self.lock = threading.Lock()
        self.totals = dict(phases=0, steps=0, mpi_steps=0, io_steps=0, sim_time=0.0, switches=0)
        self.fired, self.probe = {}, {}
        self.hashes = set()

    def fresh_dir(self):
        with self.lock:
            self.n += 1
            # fixed-length names: paths enter pickles and logs
            d = os.path.join(self.scratch, 'r%07d' % self.n)
        os.mkdir(d)
        return d

    def phase(self, size, module, func, args=(), seed=0, cfg=None, root=None, streams=None,
              cpu=120, wall=600, loud=False):
        own = root is None
        if own:
            root = self.fresh_dir()
        work = os.path.join(root, 'w')
        os.makedirs(work, exist_ok=True)
        out = os.path.join(root, 'out.pkl')
        job = dict(size=size, module=module, func=func, args=args, seed=seed, cfg=cfg or {}, root=work,
                   out=out, streams=streams, cpu=cpu, wall=wall, loud=loud)
        code = self.z[size].call(job)
        try:
            if os.path.exists(out):
                with open(out, 'rb') as f:
                    res = PhaseResult(pickle.load(f))
                os.remove(out)
            else:
                st = 'hang' if code in (-24, -9) else 'harness'   # SIGXCPU: no simulated step in all that CPU time
                if code == -9:
                    st = 'killed'
                res = PhaseResult(dict(status=st, msg=f'run ended with {code}'))
        finally:
            if own:
                shutil.rmtree(root, ignore_errors=True)
        if res.status != 'harness':
            with self.lock:
                t = self.totals
                t['phases'] += 1
                for k in ('steps', 'mpi_steps', 'io_steps', 'sim_time', 'switches'):
                    t[k] += getattr(res, k)
                for k, v in res.fired.items():
                    self.fired[k] = self.fired.get(k, 0) + v
                for k, v in res.probe.items():
                    self.probe[k] = self.probe.get(k, 0) + v
                self.hashes.add(res.hash)
        return res

    def close(self):
        for z in self.z.values():
            z.close()
        if self.own:
            shutil.rmtree(self.scratch, ignore_errors=True)

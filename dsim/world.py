"""N simulated MPI ranks of one job in one process, under one scheduler.

Ranks are threads parked on private semaphores; exactly one holds the baton.  A rank gives the
baton away only inside a simulated operation (an MPI call, a file operation, a sleep), because
these are the only places where ranks of a distributed-memory job can influence each other.
Who runs next is a choice of the schedule stream, so a run is a pure function of its choices.
"""
import gc
import random
import sys
import threading
import traceback

import numpy as np

from .chooser import Chooser


class SimCrash(BaseException):
    """The simulated process has been killed."""


class SimAbort(BaseException):
    """The run is over (violation found elsewhere); unwind this rank."""


class Violation(Exception):
    def __init__(self, cls, msg):
        super().__init__(msg)
        self.cls, self.msg = cls, msg


READY, BLOCKED, DONE, FAILED, DEAD = 'ready', 'blocked', 'done', 'failed', 'dead'


class Rank:
    def __init__(self, rank):
        self.rank = rank
        self.sem = threading.Semaphore(0)
        self.state = READY
        self.cond = None
        self.what = ''
        self.seq = {}          # communicator -> collectives entered so far
        self.result = None
        self.exc = None
        self.tb = ''
        self.skew = 0.0
        self.stall_until = -1.0
        self.nops = 0
        self.rng = None


class World:
    """cfg keys (all optional):
      policy      : 'inorder' | 'uniform' | 'sticky' | 'rr' | 'starve' | 'priority'
      early       : probability that a rank leaves a non-synchronising collective early
      eager       : probability that a send is eager
      redorder    : vary the order of floating-point reductions
      skew        : per-rank clock offsets [..]
      faults      : list of fault dicts (see vfs.py and below)
      max_steps   : step budget (liveness bound)
    """
    current = None    # the world being simulated in this process

    def __init__(self, size, trees, cfg, sched, fault=None, io=None):
        self.size = size
        self.trees = trees
        self.cfg = cfg
        self.sched = sched                      # Chooser: who runs
        self.fault = fault or Chooser(recorded=[])  # Chooser: message semantics, reduction orders
        self.now = float(cfg.get('t0', 1.7e9))
        self.t_start = self.now
        self.ranks = [Rank(r) for r in range(size)]
        for r, s in zip(self.ranks, cfg.get('skew', ())):
            r.skew = s
        self.slots = {}
        self.mail = []
        self.steps = 0
        self.mpi_steps = 0
        self.max_steps = cfg.get('max_steps', 400000)
        self.violation = None
        self.crashed = False
        self.killing = False
        self.over = threading.Event()
        self.local = threading.local()
        self.active = None
        self.last = 0
        self.switches = 0
        self.log_on = cfg.get('log', False)
        self.log = []
        self.hash = 0
        self.fired = {}
        self.probe = {}
        self.policy = cfg.get('policy', 'inorder')
        self.prio = None
        self.optime = cfg.get('optime', 1e-3)
        self.mpi_faults = [f for f in cfg.get('faults', ()) if f.get('on') == 'mpi']
        self.io = io
        self.idtab = {}
        self.gc_rate = cfg.get('gc', 0)
        self.timed = [f for f in cfg.get('faults', ()) if f.get('on') == 'step']

    # ---- bookkeeping ----------------------------------------------------------------------
    def note(self, *what):
        self.hash = (self.hash * 1000003 + _h(what)) & 0xFFFFFFFFFFFFFFFF
        if self.log_on:
            self.log.append(what)

    def fire(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def hit(self, probe):
        self.probe[probe] = self.probe.get(probe, 0) + 1

    def me(self):
        return getattr(self.local, 'rank', None)

    # ---- running --------------------------------------------------------------------------
    def run(self, prog):
        """prog(rank) is run by every rank; returns list of per-rank results."""
        World.current = self
        for r in self.ranks:
            t = threading.Thread(target=self._main, args=(r, prog), daemon=True)
            r.thread = t
            t.start()
        nxt = self._pick()
        self._give(nxt)
        self.over.wait()
        World.current = None
        return self

    def _main(self, r, prog):
        r.sem.acquire()
        self.local.rank = r
        try:
            self._enter(r)
            if self.killing:
                raise SimAbort()
            r.result = prog(r.rank)
            r.state = DONE
        except SimCrash:
            r.state = DEAD
        except SimAbort:
            r.state = DEAD
        except Violation as v:
            r.state = FAILED
            if self.violation is None:
                self.violation = v
        except BaseException as e:
            r.state = FAILED
            r.exc = e
            r.tb = ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-12:])
            self.note('exc', r.rank, type(e).__name__)
        self._leave()

    def _leave(self):
        """this rank will not run again"""
        if self.violation is not None:
            self._finish()
            return
        nxt = self._pick(allow_none=True)
        if nxt is None:
            self._finish()
        else:
            self._give(nxt)

    def _finish(self):
        self.killing = True
        self.over.set()

    def _enter(self, r):
        """rank r holds the baton now: its copy of the package becomes the importable one."""
        self.trees.install(r.rank)
        if self.active is not r:
            # every process has its own random generators
            if self.active is not None:
                self.active.rng = (random.getstate(), np.random.get_state(legacy=False))
            if r.rng is None:
                random.seed(f"{self.cfg.get('rng', 0)}/{r.rank}")
                np.random.seed((self.cfg.get('rng', 0) * 101 + 17 * r.rank) % (2 ** 32))
            else:
                random.setstate(r.rng[0])
                np.random.set_state(r.rng[1])
            self.active = r

    def _give(self, r):
        r.sem.release()

    # ---- scheduling -----------------------------------------------------------------------
    def _runnable(self):
        out = []
        for r in self.ranks:
            if r.stall_until > self.now:
                continue
            if r.state == READY:
                out.append(r)
            elif r.state == BLOCKED and r.cond():
                out.append(r)
        return out

    def _pick(self, allow_none=False):
        while True:
            cand = self._runnable()
            if cand:
                break
            # nobody can run: let time pass up to the next timer, else we are stuck or finished
            waits = [r.wake for r in self.ranks if r.state == BLOCKED and getattr(r, 'wake', None)]
            waits += [r.stall_until for r in self.ranks
                      if r.state in (READY, BLOCKED) and r.stall_until > self.now]
            waits = [w for w in waits if w > self.now]
            if not waits:
                return None
            self.now = min(waits)
        if len(cand) == 1:
            return cand[0]
        self.switches += 1
        last = self.last
        # order candidates so that index 0 = the rank that ran last, then cyclically
        cand.sort(key=lambda r: (r.rank - last) % self.size)
        p = self.policy
        if p == 'inorder':
            return cand[0]
        if p == 'uniform':
            return cand[self.sched.pick(len(cand), 's')]
        if p == 'sticky':
            if cand[0].rank == last and not self.sched.coin(0.15, 's'):
                return cand[0]
            return cand[self.sched.pick(len(cand), 's')]
        if p == 'rr':
            return cand[1] if cand[0].rank == last else cand[0]
        if p == 'starve':            # one victim runs only when nothing else can, mostly
            v = self.cfg.get('victim', 0) % self.size
            rest = [r for r in cand if r.rank != v]
            if rest and not self.sched.coin(0.02, 's'):
                return rest[self.sched.pick(len(rest), 's')]
            return cand[self.sched.pick(len(cand), 's')]
        if p == 'priority':          # PCT-like: random priorities with few change points
            if self.prio is None:
                self.prio = list(range(self.size))
                for i in range(self.size - 1, 0, -1):
                    j = i - self.sched.pick(i + 1, 'p')
                    self.prio[i], self.prio[j] = self.prio[j], self.prio[i]
            best = min(cand, key=lambda r: self.prio[r.rank])
            if self.sched.coin(0.02, 's'):
                self.prio[best.rank] = max(self.prio) + 1
                best = min(cand, key=lambda r: self.prio[r.rank])
            return best
        raise ValueError(p)

    def _switch(self, r):
        """r (the current rank) gives the baton away and waits for its next turn"""
        nxt = self._pick()
        if nxt is None:
            self._stuck()
            nxt = None
        if nxt is r:
            r.state = READY
            self.last = r.rank
            return
        if nxt is not None:
            self.last = nxt.rank
            self._give(nxt)
            r.sem.acquire()
        if self.killing:
            raise SimAbort()
        r.state = READY
        self._enter(r)

    def _stuck(self):
        """no rank can make progress"""
        failed = [r for r in self.ranks if r.state == FAILED]
        dead = [r for r in self.ranks if r.state == DEAD]
        if not failed and not dead and self.violation is None:
            desc = '; '.join(f'rank {r.rank}: {r.state} {r.what}' for r in self.ranks)
            self.violation = Violation('deadlock', f'no rank can proceed: {desc}')
        self._finish()
        raise SimAbort()

    # ---- operations -----------------------------------------------------------------------
    def step(self, kind, what):
        """every simulated operation of a rank starts here"""
        r = self.me()
        if self.killing or r.state == DEAD:
            raise SimAbort()
        if self.crashed:
            self._dying(r)
        self.steps += 1
        r.nops += 1
        self.now += self.optime
        self.note(kind, r.rank, what)
        if self.steps > self.max_steps:
            self.violation = self.violation or Violation(
                'no-progress', f'step budget of {self.max_steps} exhausted, last: rank {r.rank} {what}')
            self._finish()
            raise SimAbort()
        for f in self.timed:
            if f['at'] == self.steps and not f.get('done'):
                f['done'] = True
                if f['kind'] == 'clock':
                    self.now += f['dt']
                    self.fire('clock_jump')
                elif f['kind'] == 'stall':
                    v = self.ranks[f['rank'] % self.size]
                    v.stall_until = self.now + f['dt']
                    self.fire('stall')
                elif f['kind'] == 'crash':
                    self.crash(r)
        if kind == 'mpi':
            self.mpi_steps += 1
            for f in self.mpi_faults:
                if f['at'] == self.mpi_steps and f['kind'] == 'crash':
                    self.crash(r)
        if self.gc_rate and self.fault.coin(self.gc_rate, 'gc'):
            gc.collect()
            for x in self.idtab.values():
                x.sweep()
            self.fire('gc')
            if self.fired['gc'] >= 400:
                self.gc_rate = 0          # enough collections for one run; they are slow
        if self.size > 1:
            r.state = READY
            r.what = what
            self._switch(r)
        if self.crashed:
            self._dying(r)
        return r

    def wait(self, r, cond, what):
        if cond():
            return
        r.state = BLOCKED
        r.cond = cond
        r.what = what
        self._switch(r)
        r.cond = None
        if self.crashed:
            self._dying(r)

    def sleep(self, dt):
        r = self.step('sleep', '')
        r.wake = self.now + max(dt, 0)
        wake = r.wake
        self.note('sleep', r.rank, round(dt, 6))
        r.state = BLOCKED
        r.cond = lambda: self.now >= wake
        r.what = 'sleep'
        self._switch(r)
        r.wake = None

    def time(self):
        r = self.me()
        return self.now + (r.skew if r is not None else 0.0)

    # ---- crash ----------------------------------------------------------------------------
    def crash(self, r):
        """the whole job is killed (an MPI job dies with its first dead process); the process
        hit dies now, the others after at most a few more operations"""
        if not self.crashed:
            self.crashed = True
            self.fire('crash')
            self.grace = {q.rank: self.fault.pick(4, 'grace') for q in self.ranks if q is not r}
            self.note('crash', r.rank)
        r.state = DEAD
        raise SimCrash()

    def _dying(self, r):
        g = self.grace.get(r.rank, 0)
        if g <= 0:
            r.state = DEAD
            raise SimCrash()
        self.grace[r.rank] = g - 1

    # ---- summary --------------------------------------------------------------------------
    def status(self):
        if self.violation is not None:
            return self.violation.cls, self.violation.msg
        if self.crashed:
            return 'crashed', ''
        bad = [r for r in self.ranks if r.state == FAILED]
        if bad:
            # the rank that raised; others are then stuck waiting for it
            return 'exception', f'rank {bad[0].rank}: {bad[0].tb}'
        if any(r.state != DONE for r in self.ranks):
            return 'stuck', '; '.join(f'rank {r.rank}: {r.state} {r.what}' for r in self.ranks)
        return 'ok', ''


def _h(x):
    h = 1469598103934665603
    for c in repr(x).encode():
        h = ((h ^ c) * 1099511628211) & 0xFFFFFFFFFFFFFFFF
    return h

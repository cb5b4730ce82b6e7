"""Drives one property's check: generates cases from a seed, runs them on the simulator,
minimises and files a violation, replays a filed violation, writes the evidence file."""
import argparse
import concurrent.futures as cf
import copy
import hashlib
import importlib
import json
import os
import random
import re
import sys
import threading
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T0 = time.monotonic()


class Fail(Exception):
    """the property does not hold in this run"""
    def __init__(self, cls, msg, detail=None):
        super().__init__(f'{cls}: {msg}')
        self.cls, self.msg, self.detail = cls, msg, detail


class HarnessError(Exception):
    """the check itself could not do its work"""


class Refs:
    """results of reference runs (serial, in order, no faults), computed once per program"""
    def __init__(self, engine):
        self.e, self.d, self.lock = engine, {}, threading.Lock()
        self.n = 0

    def get(self, module, func, args, size=1, cfg=None, seed=7):
        key = json.dumps([module, func, args, size, cfg, seed], sort_keys=True, default=repr)
        with self.lock:
            fut = self.d.get(key)
            mine = fut is None
            if mine:
                fut = self.d[key] = cf.Future()
                self.n += 1
        if mine:
            try:
                fut.set_result(self.e.phase(size, module, func, args, seed=seed,
                                            cfg=dict(cfg or {}, policy='inorder')))
            except BaseException as ex:
                fut.set_exception(ex)
        return fut.result()


class Run:
    """one simulated run of one case: its phases, in order, each recorded or replayed"""
    def __init__(self, engine, refs, case, streams=None, log=False):
        self.e, self.refs, self.case = engine, refs, case
        self.streams_in = streams
        self.streams = []
        self.phases = []
        self.log = log
        self.tags = {}

    def ref(self, module, func, args=(), **kw):
        r = self.refs.get(module, func, args, **kw)
        if r.status in ('harness', 'killed'):
            raise HarnessError(f'reference run: {r.status}: {r.msg}')
        return r

    def phase(self, size, module, func, args=(), cfg=None, root=None, **kw):
        i = len(self.phases)
        cfg = copy.deepcopy(cfg or {})
        if self.log:
            cfg['log'] = True
        st = None
        if self.streams_in is not None:
            st = self.streams_in[i] if i < len(self.streams_in) else dict(sched=[], fault=[])
        r = self.e.phase(size, module, func, args, seed=self.case.get('seed', 0) * 31 + i, cfg=cfg, root=root,
                         streams=st, **kw)
        self.phases.append(r)
        self.streams.append(dict(sched=r.sched, fault=r.fault))
        if r.status in ('harness', 'killed'):
            raise HarnessError(f'{r.status}: {r.msg[-3000:]}')
        return r

    def tag(self, name, n=1):
        self.tags[name] = self.tags.get(name, 0) + n

    def dir(self):
        return self.e.fresh_dir()


def must_be_ok(r, what='run'):
    """a fault-free run of a valid program must end on every rank, normally"""
    if r.status != 'ok':
        st = r.status
        if st == 'exception':
            ex = [x for x in r.exc if x[0]]
            st += ':' + (ex[0][0] if ex else '?')
        elif st == 'stuck':
            st = 'deadlock'
        raise Fail(st, f'{what}: {r.status}: {r.msg[-1500:]}')


def load_known():
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)['findings']


def known_match(prop, fail, case, known):
    for k in known:
        if k['property'] != prop or k.get('status') == 'fixed':
            continue
        m = k['match']
        if 'cls' in m and not re.search(m['cls'], fail.cls):
            continue
        if 'msg' in m and not re.search(m['msg'], fail.msg, re.S):
            continue
        if 'case' in m and any(case.get(a) != b for a, b in m['case'].items()):
            continue
        return k
    return None


def run_case(mod, engine, refs, case, streams=None, log=False):
    run = Run(engine, refs, case, streams, log)
    try:
        mod.run(run, case)
        return None, run
    except Fail as f:
        return f, run


def same_class(a, b):
    return a is not None and a.cls.split(':')[0] == b.cls.split(':')[0]


def minimise(mod, engine, refs, case, fail, streams, budget):
    """smaller case first, then a simpler schedule; the violation class must persist"""
    end = time.monotonic() + budget
    best, bf, bs = case, fail, streams
    tried = 0
    seen = set()
    progress = True
    simp = getattr(mod, 'simplify', None)
    common = [('policy', 'inorder'), ('early', 0), ('eager', 1), ('redorder', False)]
    while progress and time.monotonic() < end:
        progress = False
        cands = []
        if simp:
            try:
                for d in simp(best):
                    cands.append(d)
            except (KeyError, IndexError, TypeError, ValueError):      # a case this simplifier does not know: keep what it gave
                pass
        c = best.get('cfg') or {}
        for k, v in common:
            if k in c and c[k] != v:
                d = copy.deepcopy(best)
                d['cfg'][k] = v
                cands.append(d)
        fl = c.get('faults') or best.get('faults')
        if fl and len(fl) > 1:
            for i in range(len(fl)):
                d = copy.deepcopy(best)
                (d['cfg'] if c.get('faults') else d)['faults'] = fl[:i] + fl[i + 1:]
                cands.append(d)
        for d in cands:
            key = json.dumps(d, sort_keys=True, default=repr)
            if key in seen:
                continue
            seen.add(key)
            if time.monotonic() > end:
                break
            tried += 1
            try:
                f, run = run_case(mod, engine, refs, d)
            except Exception:
                continue
            if same_class(f, fail):
                best, bf, bs = d, f, run.streams
                progress = True
                break
    # schedule: shrink each stream by zeroing blocks and cutting the tail
    for pi in range(len(bs)):
        for name in ('sched', 'fault'):
            cur = list(bs[pi][name])
            blk = max(1, len(cur))
            while cur and any(cur) and blk >= 1 and time.monotonic() < end:
                i = 0
                while i < len(cur) and time.monotonic() < end:
                    if any(cur[i:i + blk]):
                        t = cur[:i] + [0] * len(cur[i:i + blk]) + cur[i + blk:]
                        s2 = copy.deepcopy(bs)
                        s2[pi][name] = t
                        tried += 1
                        try:
                            f, run = run_case(mod, engine, refs, best, s2)
                        except Exception:
                            f = None
                        if same_class(f, fail):
                            cur = t
                            bs, bf = s2, f
                    i += blk
                blk //= 2
            while cur and cur[-1] == 0:
                cur.pop()
            bs[pi][name] = cur
    # final confirmation under the recorded streams
    try:
        f, run = run_case(mod, engine, refs, best, bs, log=True)
    except Exception:
        f = None
    if same_class(f, fail):
        return best, f, bs, run, tried
    f, run = run_case(mod, engine, refs, case, streams, log=True)
    return case, f or fail, streams, run, tried


def file_violation(prop, case, fail, streams, run, note=''):
    d = os.path.join(os.environ.get('VERIF_REPLAY_DIR', os.path.join(ROOT, 'replays')))
    os.makedirs(d, exist_ok=True)
    body = dict(property=prop, case=case, violation=dict(cls=fail.cls, msg=fail.msg), streams=streams,
                hashes=[p.hash for p in run.phases], note=note,
                replay=f'{sys.executable} {ROOT}/check.py replay <this file>',
                trace=[[repr(x) for x in p.log[-200:]] for p in run.phases])
    h = hashlib.sha1(json.dumps([prop, case, streams], sort_keys=True, default=repr).encode()).hexdigest()[:10]
    path = os.path.join(d, f'{prop}-{h}.json')
    with open(path, 'w') as f:
        json.dump(body, f, indent=1, default=repr)
    return path


def load_check(prop):
    sys.path.insert(0, ROOT)
    return importlib.import_module('checks.' + prop)


def start_engine(mod, sizes=None):
    from .engine import Engine
    os.environ['DSIM_PATH'] = ROOT
    return Engine(sizes or mod.SIZES)


def replay(path):
    with open(path) as f:
        body = json.load(f)
    prop = body['property']
    mod = load_check(prop)
    e = start_engine(mod)
    try:
        f, run = run_case(mod, e, Refs(e), body['case'], body['streams'], log=True)
    finally:
        e.close()
    hs = [p.hash for p in run.phases]
    print('event hashes', 'identical' if hs == body['hashes'] else f'differ: {hs} {body["hashes"]}')
    if f is None:
        print('no violation')
        return 0
    print(f'{f.cls}: {f.msg}')
    print(f'VIOLATION property={prop} replay={path}')
    return 1


def check(prop, tier, seed, budget=None, workers=8, only=None, verbose=False):
    mod = load_check(prop)
    rng = random.Random(f'{prop}-{seed}')
    e = start_engine(mod)
    refs = Refs(e)
    known = load_known()
    cap = budget or (480 if tier == 'quick' else 1800)
    end = T0 + cap
    stats = dict(cases=0, fails=0, tags={}, capped=False)
    samples = []
    distinct = set()
    lock = threading.Lock()
    found = []
    known_hit = {}
    stop = threading.Event()
    harness = []

    def one(case):
        if stop.is_set():
            return
        if time.monotonic() > end:
            stats['capped'] = True
            return
        try:
            f, run = run_case(mod, e, refs, case)
        except HarnessError as x:
            harness.append((case, str(x)))
            stop.set()
            return
        except Exception:
            harness.append((case, traceback.format_exc()))
            stop.set()
            return
        with lock:
            stats['cases'] += 1
            for k, v in run.tags.items():
                stats['tags'][k] = stats['tags'].get(k, 0) + v
            if any(p.steps > 0 for p in run.phases):
                distinct.add((json.dumps({k: v for k, v in case.items() if k not in ('seed',)}, sort_keys=True, default=repr),
                              tuple(p.hash for p in run.phases)))
            if len(samples) < 3 or (len(samples) < 8 and stats['cases'] % 37 == 0):
                samples.append(dict(case=case, phases=[dict(status=p.status, steps=p.steps, sched_choices=len(p.sched),
                                                           fired=p.fired) for p in run.phases]))
            if f is not None:
                k = known_match(prop, f, case, known)
                if k is not None:
                    known_hit.setdefault(k['id'], []).append(f.msg)
                else:
                    stats['fails'] += 1
                    found.append((case, f, run))
                    if len(found) >= 1 and not verbose:
                        stop.set()
        if verbose and f is not None:
            print(f'FAIL {f.cls} {f.msg[-600:]} {json.dumps(case, default=repr)}\n', end='', flush=True)

    def supply():
        i = 0
        for c in mod.cases(tier, rng):
            if stop.is_set() or time.monotonic() > end:
                if time.monotonic() > end:
                    stats['capped'] = True
                return
            if only is not None and i not in only:
                i += 1
                continue
            c.setdefault('seed', rng.randrange(1 << 30))
            c.setdefault('i', i)
            i += 1
            yield c

    ex = cf.ThreadPoolExecutor(workers)
    code = 0
    try:
        pend = set()
        for c in supply():
            pend.add(ex.submit(one, c))
            if len(pend) >= workers * 3:
                done, pend = cf.wait(pend, return_when=cf.FIRST_COMPLETED)
        cf.wait(pend)
        sim_wall = time.monotonic() - T0
        if harness:
            for case, msg in harness[:3]:
                print('HARNESS ERROR', json.dumps(case, default=repr), msg, file=sys.stderr)
            code = 2
        if found:
            code = 1
            # the simplest failure first
            found.sort(key=lambda t: len(json.dumps(t[0], default=repr)))
            case, f, run = found[0]
            mb = min(120, max(20, end + 100 - time.monotonic()))
            try:
                case2, f2, st2, run2, tried = minimise(mod, e, refs, case, f, run.streams, mb)
            except Exception:           # whatever happens while it is made smaller: the violation stands
                traceback.print_exc()
                case2, f2, st2, run2, tried = case, f, run.streams, run, 0
            path = file_violation(prop, case2, f2, st2, run2, note=f'minimised in {tried} runs from {json.dumps(case, default=repr)}')
            print(f'{f2.cls}: {f2.msg}')
            print(f'case: {json.dumps(case2, default=repr)}')
            print(f'VIOLATION property={prop} replay={path}', flush=True)
        for k in known:
            if k['property'] == prop and k.get('status') != 'fixed':
                if k['id'] in known_hit:
                    print(f"KNOWN-FINDING: property={prop} {k['id']}: {k['what']} ({len(known_hit[k['id']])} runs)")
        wall = time.monotonic() - T0
        hrs = max(sim_wall, 1e-9) / 3600
        t = e.totals
        cov = dict(
            evaluations=stats['cases'], distinct_nontrivial=len(distinct), rule=mod.RULE, samples=samples,
            simulated_runs=t['phases'], reference_runs=refs.n, runs_per_hour=round(t['phases'] / hrs), seeds_per_hour=round(stats['cases'] / hrs),
            simulated_seconds=round(t['sim_time'], 3), simulated_steps=t['steps'], mpi_steps=t['mpi_steps'], io_steps=t['io_steps'],
            scheduling_decisions=t['switches'], distinct_interleavings=len(e.hashes),
            interleaving_measure='64-bit hash over the sequence of (operation kind, rank, operation, outcome) events of a run',
            faults_injected=e.fired, probes=e.probe, tags=stats['tags'], stopped_by_time_cap=stats['capped'],
            real_components=['all of phyem from /repo, one module tree per rank', 'numpy', 'scipy', 'pickle', 'meshpy'],
            stub_components=['mpi4py (dsim/fakempi.py)', 'open/os file calls inside the run directory (dsim/seams.py)',
                             'time, datetime, psutil, hostname, tqdm monitor', 'rank processes -> parked threads'])
        cov.update(getattr(mod, 'EXTRA', {}))
        ev = dict(property=prop, tier=tier, seed=seed, level='exploration', coverage=cov,
                  assumptions=mod.ASSUMPTIONS, wall_s=round(wall, 2), violations=stats['fails'])
        if code != 2:
            os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
            with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as fo:
                json.dump(ev, fo, indent=1, default=repr)
        print(f"{prop} {tier} seed={seed}: {stats['cases']} cases, {t['phases']} runs, {len(distinct)} distinct, "
              f"fired={e.fired}, {wall:.0f}s{' (time cap)' if stats['capped'] else ''}, {'FAIL' if code else 'held'}", flush=True)
    finally:
        stop.set()
        ex.shutdown(wait=False, cancel_futures=True)
        e.close()
    return code


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('what')
    ap.add_argument('arg', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--budget', type=float, default=float(os.environ.get('VERIF_BUDGET', '0')) or None)
    ap.add_argument('--workers', type=int, default=8)
    ap.add_argument('--only', type=int, nargs='*')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.what == 'replay':
        return replay(a.arg)
    return check(a.what, a.tier, a.seed, a.budget, a.workers, a.only and set(a.only), a.v)

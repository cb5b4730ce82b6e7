"""C08: an iterator with a cache file: killed anywhere, resumed, the results are those of an uninterrupted run"""
import copy
import re
from checks import gen
from dsim.check import Fail, must_be_ok
from dsim.engine import observed
from progs import compare

SIZES = [1, 2, 3, 4]
RULE = ('a case is (what is marched, inputs, caching interval, monitoring factor; per life of the job: rank count, schedule, fault: kill at a scheduler step, '
        'kill/torn write/disk error at a file operation, clock jump); it counts when its event sequences are new')
ASSUMPTIONS = ['simulated MPI (dsim/fakempi.py)', 'a killed process loses its unflushed buffers; what was handed to the system survives',
               'the job dies as a whole when one of its processes is killed, the others after at most a few more operations']

FORMS = [dict(n=2, degree=2, forms=[[1, 'outer'], [2, 'outer']], mesh=dict(kind='crazy', n=2, K=[3, 2], c=.1)),
         dict(n=2, degree=1, forms=[[0, 'outer'], [1, 'inner']], mesh=dict(kind='crazy', n=2, K=2, c=0., ts=1)),
         dict(n=2, degree=1, forms=[[2, 'outer']], mesh=dict(kind='rectangle', K=3, renumbering=True)),
         dict(n=3, degree=1, forms=[[2, 'outer']], mesh=dict(kind='crazy', n=3, K=2, c=.1)),
         dict(n=2, degree=1, forms=[[2, 'outer']], mesh=dict(kind='quad', K=3))]
FLOW = dict(mesh=dict(kind='crazy', n=2, K=3, c=.1, periodic=True), degree=1, nu=.05, shift=.3)


def spec_(rng, kind):
    s = dict(copy.deepcopy(rng.choice(FORMS) if kind == 'forms' else FLOW if kind == 'flow' else {}), kind=kind)
    if kind == 'flow':
        s['inputs'] = dict(kind='range', args=[1, rng.choice([4, 6])])
    else:
        r = rng.random()
        n = rng.choice([5, 9, 14]) if kind == 'count' else rng.choice([4, 7])
        if r < .6:
            a = rng.choice([0, 1, 1, 5])
            st = rng.choice([1, 1, 1, 2])
            s['inputs'] = dict(kind='range', args=[a, a + n * st, st])
        elif r < .8:
            s['inputs'] = dict(kind='list', args=[round(.25 * i + .1, 5) for i in range(n)])
        elif r < .9:
            s['inputs'] = dict(kind='list', args=[round(.5 * i, 5) for i in range(n)])
        else:
            v = list(range(n))
            rng.shuffle(v)
            s['inputs'] = dict(kind='list', args=v)
    s['cost'] = rng.choice([1., 1., 3., .3])
    s['cache_time'] = rng.choice([.5, 2., 2., 5., 12., 40., 200.])
    if s['cache_time'] > 100:
        s['cost'] = rng.choice([20., 60.])
    s['factor'] = rng.choice([.6, 1, .99, 0.])
    s['num'] = rng.choice([None, None, 1])
    s['pbar'] = rng.random() < .3
    s['file'] = rng.choice([None, None, 'other'])
    if rng.random() < .25:
        v = s['inputs']['args'] if s['inputs']['kind'] == 'list' else list(range(*s['inputs']['args']))
        s['stop'] = rng.choice(v)
    return s


def life(rng, faulty=True):
    d = dict(size=rng.choice(SIZES), cfg=gen.sched(rng))
    d['cfg'].pop('gc', None)
    if not faulty:
        return d
    r = rng.random()
    if r < .35:
        f = dict(on='step', kind='crash', at=int(10 ** rng.uniform(1, 3.3)))
    elif r < .75:
        f = dict(on='io', kind='crash', path='.phc', nth=int(10 ** rng.uniform(0, 1.8)), frac=rng.choice([0, .3, .9, 1.]))
    elif r < .85:
        f = dict(on='io', kind=rng.choice(['eio', 'enospc']), op=['write', 'open-w', 'rename'], path='.phc', nth=rng.randint(1, 9), frac=rng.choice([0, .5]))
    elif r < .9:
        f = dict(on='io', kind='short', op=['write'], path='.phc', nth=rng.randint(1, 9), frac=.5)
    else:
        f = dict(on='io', kind='crash', path=rng.choice(['.csv', '.png']), nth=rng.randint(1, 30), frac=rng.choice([0, .5]))
    d['cfg']['faults'] = [f]
    if rng.random() < .15:
        d['cfg']['faults'].append(dict(on='step', kind='clock', at=rng.randint(20, 300), dt=rng.choice([-1e4, -50., 50., 1e5])))
    return d


TINY = dict(kind='count', inputs=dict(kind='list', args=[1e-6, 2e-6, 3e-6, 4e-6, 5e-6]), cost=1., cache_time=2., factor=.6)
TWO = dict(kind='count', inputs=dict(kind='range', args=[0, 10]), cost=1., cache_time=5., factor=.6, parts=[[0, 5], [5, 10]])


def cases(tier, rng):
    yield dict(name='tiny inputs', spec=TINY, lives=[dict(size=1, cfg=dict(faults=[dict(on='step', kind='crash', at=150)])), dict(size=1, cfg={})])
    yield dict(name='two runs', spec=TWO, lives=[dict(size=1, cfg={})])
    base = dict(kind='count', inputs=dict(kind='range', args=[1, 9]), cost=1., cache_time=2., factor=.6)
    # every file operation on the cache file, killed before, inside and after
    n = 0
    for nth in range(1, 26, 1 if tier != 'quick' else 2):
        for frac in (0, .5, 1.):
            n += 1
            yield dict(spec=base, lives=[dict(size=SIZES[n % 3], cfg=dict(faults=[dict(on='io', kind='crash', path='.phc', nth=nth, frac=frac)])),
                                         dict(size=SIZES[(n + 1) % 3], cfg={})])
    k = 0
    while tier != 'quick' or k < 230:
        kind = rng.choice(['count', 'count', 'count', 'forms', 'forms', 'flow' if rng.random() < .4 else 'count'])
        yield dict(spec=spec_(rng, kind), lives=[life(rng) for _ in range(rng.choice([0, 1, 1, 2, 3]))] + [life(rng, False) for _ in range(rng.choice([1, 2]))])
        k += 1


def key(x):
    """how the cache names an input"""
    return int(x) if float(x) == int(x) else '%.5f' % x


def run(R, case):
    spec = case['spec']
    ref = R.ref('progs.iterate', 'main', (spec, False))
    must_be_ok(ref, 'uninterrupted run')
    inp = spec['inputs']
    args = list(range(*inp['args'])) if inp['kind'] == 'range' else inp['args']
    rdf = ref.results[0]['root']['RDF']
    if 'parts' in spec:
        done = args
    else:
        done = args[:len(rdf['t']) - 1]
    nb = ref.results[0]['info'].get('nbase', 99)
    tol = 1e-5 if spec['kind'] == 'flow' else 1e-9
    root = R.dir()
    name = spec.get('file') or 'marching'
    before, seen = set(), 0
    ended = False
    for i, l in enumerate(case['lives']):
        size = gen.fit(l['size'], nb, SIZES)
        r = R.phase(size, 'progs.iterate', 'main', (spec,), cfg=l['cfg'], root=root)
        what = f'life {i} on {size} ranks'
        faults = l['cfg'].get('faults') or []
        if r.status == 'exception' and '(injected)' in r.msg:
            R.tag('died of a disk error')
        elif r.status == 'crashed' and faults:
            R.tag('killed')
        else:
            must_be_ok(r, what + (f' (after {before and sorted(map(str, before))} were cached)'))
            R.tag('completed')
            ended = True
            judge(r, ref, tol, what)
        ev = observed(root)
        ev, seen = ev[seen:], len(ev)
        # what was cached when this life began is not computed again, everything else is, in order
        ex = [key(e[1]) for e in ev if e[0] == 'exec']
        todo = [key(a) for a in done]
        if 'parts' not in spec and ex:
            j = todo.index(ex[0]) if ex[0] in todo else len(todo)
            if set(ex) & before:
                raise Fail('recomputed', f'{what}: inputs {sorted(set(map(str, ex)) & set(map(str, before)))} were cached and computed again')
            if ex != todo[j:j + len(ex)]:
                raise Fail('order', f'{what}: computed {ex}, inputs {todo}')
            if any(t not in before for t in todo[:j]):
                raise Fail('skipped', f'{what}: first computed input is {ex[0]}, but of the earlier ones only {sorted(map(str, before))} were cached')
        c = R.phase(1, 'progs.iterate', 'read_cache', (name,), root=root)
        if c.status != 'ok':
            raise Fail('cache-destroyed', f'after {what} ({r.status}) the cache file cannot be read: {c.msg[-600:]}')
        c = c.results[0]
        if c is None:
            if before:
                raise Fail('cache-destroyed', f'after {what} ({r.status}) the cache file is gone')
            now = set()
        else:
            now = set(c['keys'])
            if now != set(c['res']) or len(now) != len(c['keys']):
                raise Fail('cache-content', f'after {what}: inputs {c["keys"]} but results for {sorted(map(str, c["res"]))}')
            for k, v in c['res'].items():
                j = todo.index(k) if k in todo else None
                if j is None:
                    raise Fail('cache-content', f'after {what}: result of {k!r} cached, which is not an input')
                d = compare.close(v[1:], [rdf[q][j + 1] for q in ('t', 'A', 'B')], tol, tol)
                if d and 'parts' not in spec:
                    raise Fail('cache-content', f'after {what}: cached result of {k!r}: {d}')
            nums = [int(x) for x in re.findall(r'CACHE::: (\d+)th cache', c['log'])]
            if nums != list(range(1, len(nums) + 1)):
                raise Fail('cache-log', f'after {what}: the log counts its caches {nums}')
            if len(nums) > 1:
                R.tag('several caches')
        if not before <= now:
            raise Fail('cache-shrunk', f'after {what} the results of {sorted(map(str, before - now))} are no longer cached')
        if now and now != before:
            R.tag('cache grew')
        # what is lost is at most one caching interval
        if r.status in ('ok', 'crashed') and not any(f['kind'] == 'clock' for f in faults) and ev and 'parts' not in spec:
            t1 = max(e[2] for e in ev)
            ds = [e for e in ev if e[0] == 'done']
            ts = sorted(e[2] for e in ev)
            gap = max([b - a for a, b in zip(ts, ts[1:])] or [0])
            late = [e for e in ds if t1 - e[2] > spec['cache_time'] + 2 * gap + 1 and key(e[1]) not in now]
            if late:
                raise Fail('not-cached', f'{what} ended at {t1 - ts[0]:.1f}; input {late[0][1]} was done at {late[0][2] - ts[0]:.1f} and is not cached '
                                         f'(interval {spec["cache_time"]})')
        before = now
    if not ended and not case['lives'][-1]['cfg'].get('faults'):
        raise Fail('no-end', 'the last life did not end')


def judge(r, ref, tol, what):
    d = compare.against(r.results, ref.results, tol, tol)
    if d:
        raise Fail(d[0], what + ': ' + d[1])


def simplify(case):
    def mk(f):
        d = copy.deepcopy(case)
        f(d)
        return d
    if len(case['lives']) > 1:
        for i in range(len(case['lives'])):
            yield mk(lambda d: d['lives'].pop(i))
    for i, l in enumerate(case['lives']):
        if l['size'] > 1:
            yield mk(lambda d: d['lives'][i].__setitem__('size', l['size'] - 1))
        if l['cfg'].get('faults'):
            yield mk(lambda d: d['lives'][i]['cfg'].pop('faults'))
        for k, v in (('policy', 'inorder'), ('early', 0), ('eager', 1)):
            if l['cfg'].get(k, v) != v:
                yield mk(lambda d: d['lives'][i]['cfg'].__setitem__(k, v))
    for k in ('stop', 'num', 'pbar', 'file'):
        if case['spec'].get(k):
            yield mk(lambda d: d['spec'].pop(k))

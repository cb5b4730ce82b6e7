"""C18: a staggered march of two coupled systems, stopped anywhere and continued from saved forms, conserves what it should and ends the same"""
import copy
from checks import gen
from dsim.check import Fail, must_be_ok
from dsim.engine import observed
from progs import compare

SIZES = [1, 2, 3, 4, 6]
RULE = ('a case is (2d periodic Navier-Stokes in dual-field form: mesh, degree, viscosity, step size, initial flow, dof the pressures are fixed at, solver, number of steps; '
        'per life of the job: rank count, schedule, how often and how much is saved, fault: kill at a scheduler step or a file operation, disk error); it counts when its '
        'event sequences are new')
ASSUMPTIONS = ['simulated MPI (dsim/fakempi.py)', 'parallel and serial unknowns are compared with relative tolerance 1e-6',
               'a killed process loses its unflushed buffers; what was handed to the system survives',
               'the job uses a set of files only when the marker written (and renamed) after all of them is there']
KINDS = [[3, 3], [3, 4], [4, 3], [3, 3], [4, 4]]


def mk(rng, mesh=None):
    d = rng.choice([1, 1, 2])
    K = rng.choice(KINDS[:3] if d == 2 else KINDS)
    m = mesh or dict(kind='crazy', n=2, K=K, c=rng.choice([0., .05, .1]), periodic=True)
    s = dict(mesh=m, degree=d, nu=rng.choice([0., 0., .05, .3]), rate=rng.choice([20, 30, 50, 70, 100]), shift=round(rng.random(), 3), move=rng.choice([0., .5]),
             where=rng.randrange(1000), value=rng.choice([0., 0., .4]), steps=rng.choice([2, 3, 3, 4]))
    if d == 1 and rng.random() < .25 and K == [3, 3]:
        s['scheme'] = rng.choice(['gmres', 'lgmres'])
        s['kw'] = dict(gmres=dict(atol=1e-11, restart=120, maxiter=8), lgmres=dict(atol=1e-11, inner_m=120, outer_k=3, maxiter=8))[s['scheme']]
    return s


def life(rng, faulty=True):
    d = dict(size=rng.choice(SIZES), cfg=gen.sched(rng), what=rng.choice([1, 2, 2, None]), every=rng.choice([1, 1, 1, 2]))
    if not faulty:
        return d
    r = rng.random()
    if r < .4:
        f = dict(on='step', kind='crash', at=int(10 ** rng.uniform(2.3, 3.6)))
    elif r < .75:
        f = dict(on='io', kind='crash', op=['open-w', 'write', 'rename'], path=rng.choice(['.mse', '.mse', 'part-', '']), nth=int(10 ** rng.uniform(0, 1.5)), frac=rng.choice([0, .3, .9, 1.]))
    elif r < .9:
        f = dict(on='io', kind=rng.choice(['eio', 'enospc', 'short']), op=['write', 'open-w', 'rename'], path=rng.choice(['.mse', '.mse', 'part-']), nth=rng.randint(1, 20), frac=.5)
    else:
        f = dict(on='io', kind='eio', op=['read', 'open-r'], path='.mse', nth=rng.randint(1, 9))
    d['cfg']['faults'] = [f]
    return d


def cases(tier, rng):
    for m, dg in ((dict(kind='crazy', n=2, K=3, c=.1, periodic=True), 1), (dict(kind='crazy', n=2, K=[4, 3], c=0., periodic=True), 2)):
        for size in SIZES[1:]:
            s = mk(rng, m)
            s['degree'] = dg
            s.pop('scheme', None)
            s.pop('kw', None)
            yield dict(spec=s, lives=[dict(size=size, cfg=gen.sched(rng), what=2, every=1)])
    k = 0
    while tier != 'quick' or k < 140:
        yield dict(spec=mk(rng), lives=[life(rng) for _ in range(rng.choice([0, 1, 1, 2, 3]))] + [life(rng, False)])
        k += 1


def run(R, case):
    spec = case['spec']
    ref = R.ref('progs.dual', 'main', (spec,))
    must_be_ok(ref, 'uninterrupted serial run')
    d = compare.oracles(ref.results)
    if d:
        raise Fail(d[0], 'serial run: ' + d[1])
    nb = ref.results[0]['info']['nbase']
    want, _ = compare.union(ref.results)
    same = ref.results[0]['same']
    root = R.dir()
    seen, saved = 0, 0
    for i, l in enumerate(case['lives']):
        size = gen.fit(l['size'], nb, SIZES)
        r = R.phase(size, 'progs.dual', 'main', (spec, dict(what=l.get('what', 2), every=l.get('every', 1))), cfg=l['cfg'], root=root)
        what = f'life {i} on {size} ranks'
        faults = l['cfg'].get('faults') or []
        ev = observed(root)
        ev, seen = ev[seen:], len(ev)
        for e in ev:
            if e[0] == 'from' and e[1] < saved:
                raise Fail('lost', f'{what}: goes on from step {e[1]}, all of step {saved} had been saved')
            if e[0] == 'saved':
                saved = e[1]
        if r.status == 'exception' and '(injected)' in r.msg:
            R.tag('died of a disk error')
            continue
        if r.status == 'crashed' and faults:
            R.tag('killed')
            continue
        must_be_ok(r, what)
        R.tag('completed' if not any(e[0] == 'from' and e[1] for e in ev) else 'completed, resumed')
        d = compare.oracles(r.results)
        if d:
            raise Fail(d[0].split('.')[-1], what + ': ' + d[1])
        d = compare.ranks_agree(r.results, 0, 0)
        if d:
            raise Fail('ranks-differ:' + d[0].split('.')[-1], what + ': ' + d[1])
        got, dup = compare.union(r.results)
        if dup:
            raise Fail(*dup)
        for n in ('ui', 'wi', 'Pi', 'uo', 'wo', 'Po'):
            key = f'{spec["steps"]}.{n}'
            for a, b, s_, t in ((r.results[0]['same'][key + '.t'], same[key + '.t'], 'time', 1e-12), (r.results[0]['same'][key + '.norm'], same[key + '.norm'], 'norm', 1e-6),
                                (got[key], want[key], 'unknown', 1e-6)):
                d = compare.close(a, b, t, t)
                if d:
                    raise Fail(s_, f'{what}: {n} at the end, against an uninterrupted serial run: {d}')


def simplify(case):
    def mk_(f):
        d = copy.deepcopy(case)
        f(d)
        return d
    n = len(case['lives'])
    for i in range(n):
        if n > 1:
            yield mk_(lambda d: d['lives'].pop(i))
    for i, l in enumerate(case['lives']):
        if l['size'] > 1:
            yield mk_(lambda d: d['lives'][i].__setitem__('size', SIZES[SIZES.index(l['size']) - 1]))
        for k in ('gc', 'skew', 'ids', 'faults'):
            if k in l['cfg']:
                yield mk_(lambda d: d['lives'][i]['cfg'].pop(k))
    if case['spec']['steps'] > 2:
        yield mk_(lambda d: d['spec'].__setitem__('steps', case['spec']['steps'] - 1))
    for k in ('scheme', 'kw'):
        if k in case['spec']:
            yield mk_(lambda d: [d['spec'].pop(q, None) for q in ('scheme', 'kw')])
    for k, v in (('degree', 1), ('nu', 0.), ('value', 0.), ('move', 0.)):
        if case['spec'][k] != v:
            yield mk_(lambda d: d['spec'].__setitem__(k, v))

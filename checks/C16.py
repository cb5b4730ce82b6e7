"""C16: multigrid"""
import copy
from checks import gen
from checks.C02 import SIDES2, SIDES3
from dsim.check import Fail, must_be_ok
from progs import compare, sysjudge

SIZES = [1, 2, 3, 4, 5]
RULE = ('a case is (mixed Poisson variant, base mesh, number of levels, degree, times, operations on the levels, cycle and solver settings, rank count, '
        'schedule, MPI semantics); it counts when its event sequence is new and at least one simulated operation happened')
ASSUMPTIONS = ['simulated MPI (dsim/fakempi.py)', 'parallel and serial systems are compared with relative tolerance 1e-8 up to the renumbering of the unknowns',
               'prolongation interpolates a reconstruction: it is compared with the coarse cochain within a tenth of its size only']

MESHES = [dict(kind='rectangle', K=[2, 3]), dict(kind='crazy', n=2, K=2, c=0.), dict(kind='crazy', n=2, K=[3, 3], c=0., periodic=True),
          dict(kind='backward_step', K=1), dict(kind='crazy_multi', n=2, K=1, c=0.), dict(kind='rectangle', K=[1, 2]),
          dict(kind='crazy', n=2, K=[1, 3], c=0., bounds=[[0, 2], [-1, 1]]), dict(kind='quad', K=2), gen.TQR, dict(kind='crazy', n=3, K=2, c=0.)]


def orthogonal(m):
    return m['kind'] not in ('quad', 'tqr')


def mk(rng, mesh=None):
    mesh = copy.deepcopy(mesh or rng.choice(MESHES))
    n = mesh.get('n', 2)
    v = 'periodic' if mesh.get('periodic') else rng.choice(['outer', 'outer', 'inner'])
    levels = 2 if n == 3 else rng.choice([2, 2, 3])
    if mesh['kind'] == 'tqr':
        mesh['K'] = 1
    if mesh['kind'] in ('rectangle', 'quad', 'crazy') and n == 2 and v != 'periodic':
        mesh['K'] = [rng.randint(1, 3), rng.randint(1, 3)] if mesh['kind'] != 'quad' else rng.randint(1, 2)
    degree = 1 if n == 3 else rng.choice([1, 1, 2])
    ops = [['levels'], ['matrix']]
    if mesh['kind'] != 'tqr':       # triangles: the levels are not nested
        ops.append(['prolong'])
    if n == 2:
        ops.append(['hier'])
    if orthogonal(mesh):
        ops.append(['restrict'])
    rng.shuffle(ops)
    ops = ops[:rng.randint(2, 4)]
    for _ in range(rng.choice([1, 2]) if mesh['kind'] != 'tqr' else 0):
        kw = dict(atol=rng.choice([1e-4, 1e-6]), maxiter=rng.choice([5, 20, 60]))
        kw.update(rng.choice([dict(inner_m=30, outer_k=3), dict(inner_m=8, outer_k=2), dict(restart=40), dict(restart=15)]))
        s = 'direct'
        cyc = {}
        if orthogonal(mesh):
            s = rng.choice(['direct', 'V', 'N', 'FMG', 'W'])
            if s == 'W':
                cyc = dict(sequences=rng.choice(W[levels]))
            if s == 'FMG':
                cyc = dict(sequences=rng.choice(FMG[levels]))
        ops.append(['solve', dict(scheme=s, kw=kw, x0=0, cycle=cyc, cache=rng.random() < .3)])
    rng.shuffle(ops)
    return dict(n=n, degree=degree, variant=v, mesh=mesh, sides=rng.choice(SIDES2 if n == 2 else SIDES3), levels=levels, shift=round(rng.random(), 3),
                times=[round(rng.uniform(0, 1), 2) for _ in range(rng.choice([1, 2, 2]))], ops=ops)


W = {2: ['1-1', '1-1-1-1'], 3: ['2-2', '2-1-1-2', '1-1-2-2', '2-1-1-1-1-2']}
FMG = {2: ['1', '1-1-1'], 3: ['2', '2-2-2', '1-1-2', '2-1-1', '1-1-2-2-2']}


def cases(tier, rng):
    for m in MESHES:
        yield dict(spec=mk(rng, m), size=rng.choice(SIZES[1:]), cfg=gen.sched(rng))
    k = 0
    while tier != 'quick' or k < 40:
        yield dict(spec=mk(rng), size=rng.choice(SIZES[1:]), cfg=gen.sched(rng))
        k += 1


def run(R, case):
    sp = case['spec']
    ref = R.ref('progs.mgrid', 'main', (sp,))
    must_be_ok(ref, 'serial run')
    names = [o[0] for o in sp['ops']]
    if 'levels' in names or 'matrix' in names:
        for lv in range(sp['levels']):
            st = R.ref('progs.mgrid', 'static', (sp, lv))
            must_be_ok(st, f'the mesh of level {lv}, serial run')
            d = sysjudge.judge(ref.results, st.results)
            if d:
                raise Fail('level-' + d[0], f'level {lv} against the same mesh without multigrid: ' + d[1])
            u, v = compare.union(ref.results)[0], compare.union(st.results)[0]
            for name in v:
                if name.rsplit('.', 1)[-1] in ('rows', 'cols'):
                    continue
                d = compare.close(u.get(name), v[name], 1e-9, 1e-11)
                if d:
                    raise Fail('level-cochain', f'level {lv} against the same mesh without multigrid: {name}: {d}')
    d = compare.oracles(ref.results)
    if d:
        raise Fail(*d)
    size = gen.fit(case['size'], ref.results[0]['info']['nbase'], SIZES)
    r = R.phase(size, 'progs.mgrid', 'main', (sp,), cfg=case['cfg'])
    must_be_ok(r, f'{size} ranks')
    d = compare.oracles(r.results) or compare.ranks_agree(r.results) or sysjudge.judge(r.results, ref.results, iterative=1e-2)
    if d:
        raise Fail(*d)


def simplify(case):
    def mk(f):
        d = copy.deepcopy(case)
        f(d)
        return d
    if case['size'] > 2:
        yield mk(lambda d: d.__setitem__('size', d['size'] - 1))
    sp = case['spec']
    for i in range(len(sp['ops'])):
        if len(sp['ops']) > 1:
            yield mk(lambda d: d['spec']['ops'].pop(i))
    if len(sp['times']) > 1:
        yield mk(lambda d: d['spec']['times'].pop())
    if sp['levels'] > 2:
        yield mk(lambda d: d['spec'].__setitem__('levels', 2))

"""C06: nonlinear systems on several ranks"""
import copy
from checks import gen
from checks.C02 import SIDES2
from dsim.check import Fail, must_be_ok
from progs import compare

SIZES = [1, 2, 3, 4, 6]
RULE = ('a case is (2d Navier-Stokes on a mesh, degree, boundary conditions, viscosity, sequence of nonlinear solves: scheme, tolerance, iteration '
        'limit, inner solver, how the pressure is fixed; rank count, schedule, MPI semantics); it counts when its event sequence is new')
ASSUMPTIONS = ['simulated MPI (dsim/fakempi.py)', 'parallel and serial unknowns are compared with relative tolerance 1e-6']

MESHES = [dict(kind='crazy', n=2, K=[3, 2], c=.1), dict(kind='crazy', n=2, K=3, c=.1, periodic=True), dict(kind='crazy', n=2, K=[3, 4], c=0., periodic=True),
          dict(kind='crazy', n=2, K=2, c=.0, ts=1), dict(kind='crazy_multi', n=2, K=1, c=.1), dict(kind='backward_step', K=2),
          dict(kind='rectangle', K=[2, 3]), dict(kind='quad', K=2), dict(kind='quad', K=2, renumbering=True), gen.TQR]


def mk(rng, mesh=None):
    mesh = copy.deepcopy(mesh or rng.choice(MESHES))
    if isinstance(mesh.get('K'), list) and not mesh.get('periodic'):
        mesh['K'] = [rng.randint(2, 4), rng.randint(2, 3)]
    solves = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        s = dict(scheme=rng.choice(['Newton-Raphson', 'Newton-Raphson', 'Picard']), atol=rng.choice([1e-5, 1e-8, 1e-9]),
                 maxiter=rng.choice([25, 25, 25, '2', 2, '1']), where=rng.randrange(1000), anchor=rng.choice(['local', 'extra']),
                 value=rng.choice([0., 0., .5]), again=rng.random() < .5)
        solves.append(s)
    r = rng.random()
    if r < .1:
        for s in solves:
            s['inner'] = ['ppsp', {}]
    elif r < .25:
        s = solves[-1]
        s['inner'] = rng.choice([['gmres', dict(atol=1e-9, restart=30, maxiter=3)], ['lgmres', dict(atol=1e-9, inner_m=25, outer_k=5, maxiter=3)]])
        s['maxiter'] = rng.choice([3, '2', '1'])
    elif r < .5 and mesh['kind'] in ('crazy', 'crazy_multi', 'rectangle') and not mesh.get('ts'):
        # as good as a direct solver
        for s in solves:
            if rng.random() < .7:
                s['inner'] = rng.choice([['gmres', dict(atol=1e-11, restart=120, maxiter=8)], ['lgmres', dict(atol=1e-11, inner_m=120, outer_k=3, maxiter=8)]])
                s['fine'], s['again'] = True, False
                s['atol'] = rng.choice([1e-5, 1e-7])
    fine = any(s.get('fine') for s in solves)
    return dict(mesh=mesh, degree=1 if fine else rng.choice([1, 2]), sides=rng.choice(SIDES2[:2]), nu=rng.choice([0., .05, .2]), shift=round(rng.random(), 3), move=rng.choice([0., 0., .4]),
                steps=rng.choice([20, 50]), solves=solves)


def cases(tier, rng):
    for m in MESHES:
        yield dict(spec=mk(rng, m), size=rng.choice(SIZES[1:]), cfg=gen.sched(rng))
    k = 0
    while tier != 'quick' or k < 60:
        yield dict(spec=mk(rng), size=rng.choice(SIZES[1:]), cfg=gen.sched(rng))
        k += 1


def run(R, case):
    spec = case['spec']
    ref = R.ref('progs.meevc', 'main', (spec,))
    must_be_ok(ref, 'serial run')
    d = compare.oracles(ref.results)
    if d:
        raise Fail(d[0], 'serial run: ' + d[1])
    size = gen.fit(case['size'], ref.results[0]['info']['nbase'], SIZES)
    r = R.phase(size, 'progs.meevc', 'main', (spec,), cfg=case['cfg'])
    must_be_ok(r, f'{size} ranks')
    d = compare.oracles(r.results)
    if d:
        raise Fail(*d)
    d = compare.ranks_agree(r.results, 0, 0)
    if d:
        raise Fail('ranks-differ:' + d[0].split('.')[-1], d[1])
    judge(r.results, ref.results, spec)


def judge(res, ref, spec):
    loose = any(st.get('inner', [''])[0] == 'ppsp' for st in spec['solves'])        # PARDISO perturbs the zero pivots of a saddle point
    a, b = res[0]['same'], ref[0]['same']
    u, dup = compare.union(res)
    if dup:
        raise Fail(*dup)
    v, _ = compare.union(ref)
    for k, st in enumerate(spec['solves'], 1):
        if st.get('inner', [''])[0] in ('gmres', 'lgmres') and not st.get('fine'):
            return          # not converged: rounding decides
        rt = 1e-3 if loose else 1e-6
        # an iteration count may differ only when a residual sits on the threshold
        if a[f'{k}.iters'] != b[f'{k}.iters']:
            short = min(a[f'{k}.res'], b[f'{k}.res'], key=len)
            longer = max(a[f'{k}.res'], b[f'{k}.res'], key=len)
            at = st['atol']
            if not (loose or abs(longer[len(short) - 1] - at) < .01 * at + 1e-9):
                raise Fail('iterations', f'step {k}: residuals {a[f"{k}.res"]} on {len(res)} ranks, serial {b[f"{k}.res"]}')
            rt = 1e-3
            loose = True
        elif not loose:
            d = compare.close(a[f'{k}.res'][:3], b[f'{k}.res'][:3], 1e-6, 1e-8)
            if d:
                raise Fail('residuals', f'step {k}: {len(res)} ranks vs serial: {d}')
        for n in 'uwP':
            d = compare.close(a[f'{k}.{n}.t'], b[f'{k}.{n}.t'], 0, 0)
            if d:
                raise Fail('time', f'step {k}: time of {n}, {len(res)} ranks vs serial: {d}')
            d = compare.close(a[f'{k}.{n}.norm'], b[f'{k}.{n}.norm'], rt, rt)
            if d:
                raise Fail('norm', f'step {k}: norm of {n}, {len(res)} ranks vs serial: {d}')
            d = compare.close(u[f'{k}.{n}'], v[f'{k}.{n}'], rt, rt)
            if d:
                raise Fail('unknown', f'step {k}: {n}, {len(res)} ranks vs serial: {d}')


def simplify(case):
    def mk_(f):
        d = copy.deepcopy(case)
        f(d)
        return d
    if case['size'] > 2:
        yield mk_(lambda d: d.__setitem__('size', SIZES[SIZES.index(case['size']) - 1]))
    if len(case['spec']['solves']) > 1:
        yield mk_(lambda d: d['spec']['solves'].pop())
    for i, s in enumerate(case['spec']['solves']):
        for k in ('inner', 'again'):
            if s.get(k):
                yield mk_(lambda d: d['spec']['solves'][i].pop(k))
    if case['spec']['degree'] != 1:
        yield mk_(lambda d: d['spec'].__setitem__('degree', 1))
    for k in ('gc', 'skew', 'ids'):
        if k in case['cfg']:
            yield mk_(lambda d: d['cfg'].pop(k))

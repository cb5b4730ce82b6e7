"""C02: assembled linear systems do not depend on ranks or schedule"""
import copy
from checks import gen
from dsim.check import Fail, must_be_ok
from progs import compare, sysjudge

SIZES = [1, 2, 3, 4, 5, 7, 11]
RULE = ('a case is (mixed Poisson variant or Stokes problem, mesh, degree, boundary split, dofs pinned, operations on the system, rank count, schedule, MPI '
        'semantics); it counts when its event sequence is new and at least one simulated operation happened')
ASSUMPTIONS = ['simulated MPI (dsim/fakempi.py)', 'parallel and serial systems are compared with relative tolerance 1e-8 up to the renumbering of the unknowns']

MESHES2 = [dict(kind='crazy', n=2, K=[3, 2], c=.1), dict(kind='crazy', n=2, K=[2, 4], c=0.), dict(kind='crazy', n=2, K=2, c=.0, ts=1),
           dict(kind='crazy', n=2, K=[1, 3], c=0., periodic=True), dict(kind='crazy', n=2, K=[3, 1], c=.1, periodic=True),
           dict(kind='crazy_multi', n=2, K=1, c=.1), dict(kind='backward_step', K=2),
           dict(kind='rectangle', K=[3, 3]), dict(kind='rectangle', K=[2, 3], ts=1), dict(kind='quad', K=3),
           dict(kind='quad', K=2, renumbering=True), gen.TQR]
MESHES3 = [dict(kind='crazy', n=3, K=2, c=0.), dict(kind='crazy', n=3, K=[2, 2, 3], c=.1), dict(kind='crazy', n=3, K=[1, 2, 3], c=0.)]
SIDES2 = [[[-1, 0], [1, 0]], [[0, 1]], [[-1, 0], [0, -1], [1, 0]], [[1, 0]]]
SIDES3 = [[[-1, 0, 0], [0, 1, 0]], [[0, 0, 1]]]


def mk(rng, mesh=None, n=None):
    if mesh is None:
        n = rng.choice([2, 2, 2, 2, 3])
        if n == 2:
            n, _, mesh = gen.rand_mesh(rng)
            while n == 3 or mesh['kind'] in ('chaotic', 'meshpy') or (mesh['kind'] == 'crazy' and 'trf' in mesh):
                n, _, mesh = gen.rand_mesh(rng)
        else:
            mesh = rng.choice(MESHES3)
    mesh = copy.deepcopy(mesh)
    v = 'periodic' if mesh.get('periodic') else 'outer' if n == 3 and mesh.get('c') else rng.choice(['outer', 'outer', 'inner'])
    ops = [['matrix', dict(cond=True)], ['solve', dict(scheme='spsolve')]]
    pins = [[rng.choice([0, 1]), rng.randrange(1000), round(rng.uniform(-1, 1), 3)] for _ in range(rng.choice([1, 2]))]
    if v == 'periodic':
        pins[0][0] = 1
        for x in pins[1:]:
            x[0] = 0
    ops.append(['matrix', dict(pins=pins, by=rng.choice(['local', 'global']))])
    ops.append(['extra', dict(place=rng.randrange(1000), value=0)])
    if v == 'outer' and not mesh.get('periodic'):
        ops.append(['solve', dict(scheme='direct', preconditioner='Jacobian', pins=pins, by=rng.choice(['local', 'global']))])
    rng.shuffle(ops)
    degree = gen.modest(mesh, gen.degree(rng, n, rng.choice([1, 1, 2]) if n == 2 else 1, mesh, .2))
    return dict(n=n, degree=degree, variant=v, mesh=mesh, sides=rng.choice(SIDES2 if n == 2 else SIDES3),
                shift=round(rng.random(), 3), times=[round(rng.uniform(0, 1), 2) for _ in range(rng.choice([1, 1, 2]))], ops=ops, seed=rng.randrange(999))


def mk_stokes(rng, mesh=None, n=None):
    if mesh is None:
        n = rng.choice([2, 2, 2, 3])
        mesh = rng.choice(MESHES2 if n == 2 else [m for m in MESHES3 if not m['c']])
        if n == 2 and rng.random() < .5:
            n, _, mesh = gen.rand_mesh(rng)
            while n == 3 or mesh['kind'] in ('chaotic', 'meshpy') or (mesh['kind'] == 'crazy' and 'trf' in mesh):
                n, _, mesh = gen.rand_mesh(rng)
    mesh = copy.deepcopy(mesh)
    pins = [[rng.choice([0, 1, 1, 2]), rng.randrange(1000), round(rng.uniform(-1, 1), 3)] for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    if mesh.get('periodic'):
        pins = [x for x in pins if x[0] != 2]
    degree = gen.modest(mesh, gen.degree(rng, n, rng.choice([1, 1, 2]) if n == 2 else 1, mesh, .2))
    return dict(n=n, degree=degree, mesh=mesh, sides=rng.choice(SIDES2 if n == 2 else SIDES3),
                shift=round(rng.random(), 3), nu=rng.choice([1., .1, .01]), steps=rng.choice([1, 1, 2]), pins=pins, by=rng.choice(['local', 'global']))


def cases(tier, rng):
    for m in MESHES2[1:3] + MESHES2[4:6] + [MESHES2[-1]]:
        yield dict(prog='stokes', spec=mk_stokes(rng, m, 2), size=rng.choice(SIZES[1:]), cfg=gen.sched(rng))
    yield dict(prog='stokes', spec=mk_stokes(rng, MESHES3[0], 3), size=rng.choice(SIZES[1:]), cfg=gen.sched(rng))
    for n, ms in ((2, MESHES2), (3, MESHES3)):
        for m in ms:
            yield dict(spec=mk(rng, m, n), size=rng.choice(SIZES[1:]), cfg=gen.sched(rng))
    for n, _, m in gen.SMALL:
        if m['kind'] in ('crazy', 'rectangle'):
            yield dict(spec=mk(rng, m, n), size=rng.choice(SIZES[1:]), cfg=gen.sched(rng))
    k = 0
    while tier != 'quick' or k < 60:
        if rng.random() < .4:
            yield dict(prog='stokes', spec=mk_stokes(rng), size=rng.choice(SIZES[1:]), cfg=gen.sched(rng))
        else:
            yield dict(spec=mk(rng), size=rng.choice(SIZES[1:]), cfg=gen.sched(rng))
        k += 1


def run(R, case):
    spec = case['spec']
    prog = 'progs.' + case.get('prog', 'poisson')
    ref = R.ref(prog, 'main', (spec,))
    must_be_ok(ref, 'serial run')
    d = compare.oracles(ref.results)
    if d:
        raise Fail(d[0], 'serial run: ' + d[1])
    size = gen.fit(case['size'], ref.results[0]['info']['nbase'], SIZES)
    r = R.phase(size, prog, 'main', (spec,), cfg=case['cfg'])
    must_be_ok(r, f'{size} ranks')
    d = compare.oracles(r.results)
    if d:
        raise Fail(*d)
    d = compare.ranks_agree(r.results, 0, 0)
    if d:
        raise Fail('ranks-differ:' + d[0].split('.')[-1], d[1])
    d = sysjudge.judge(r.results, ref.results)
    if d:
        raise Fail(*d)


def simplify(case):
    def mk_(f):
        d = copy.deepcopy(case)
        f(d)
        return d
    if case['size'] > 2:
        yield mk_(lambda d: d.__setitem__('size', SIZES[SIZES.index(case['size']) - 1]))
    for name in ('ops', 'pins'):
        for i in range(len(case['spec'].get(name, ()))):
            if len(case['spec'][name]) > 1:
                yield mk_(lambda d: d['spec'][name].pop(i))
    if len(case['spec'].get('times', ())) > 1:
        yield mk_(lambda d: d['spec']['times'].pop())
    if case['spec'].get('steps', 1) > 1:
        yield mk_(lambda d: d['spec'].__setitem__('steps', 1))
    if case['spec']['degree'] != 1:
        yield mk_(lambda d: d['spec'].__setitem__('degree', 1))
    K = case['spec']['mesh'].get('K')
    if isinstance(K, list):
        for i in range(len(K)):
            if isinstance(K[i], int) and K[i] > 1:
                yield mk_(lambda d: d['spec']['mesh']['K'].__setitem__(i, K[i] - 1))
    for k in ('gc', 'skew', 'ids'):
        if k in case['cfg']:
            yield mk_(lambda d: d['cfg'].pop(k))

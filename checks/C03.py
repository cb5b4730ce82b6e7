"""C03: global numbering of degrees of freedom"""
from checks import gen
from dsim.check import Fail, must_be_ok
from progs import compare, dofs

SIZES = [1, 2, 3, 4, 5, 7, 11]
RULE = ('a case is (mesh, degree, forms, chains of them, probed dofs, rank count, schedule, MPI semantics); it counts when its '
        'event sequence is new and at least one simulated operation happened')
ASSUMPTIONS = ['simulated MPI (dsim/fakempi.py)', 'two local dofs of a generic field with different reduced values are different dofs',
               'the number of geometric entities is computed from element corners on meshes of quadrilaterals and hexahedra only']


def cases(tier, rng):
    for x in gen.DIRECTED + gen.LOCAL:
        sp = mk(x, rng)
        for size in rng.sample(SIZES, 2):
            yield dict(spec=sp, size=size, cfg=gen.sched(rng))
    for m in (dict(kind='crazy', n=2, K=[2, 3], c=.1, periodic=True), dict(kind='crazy', n=2, K=2, c=0., periodic=True),
              dict(kind='crazy', n=2, K=1, c=0., periodic=True)):
        yield dict(spec=mk((2, 2, m), rng), size=2, cfg=gen.sched(rng), name='few periodic elements')
    for x in gen.SMALL:
        yield dict(spec=mk(x, rng), size=rng.choice(SIZES), cfg=gen.sched(rng))
    n = 0
    while tier != 'quick' or n < 70:
        yield dict(spec=mk(gen.rand_mesh(rng), rng), size=rng.choice(SIZES), cfg=gen.sched(rng))
        n += 1


def mk(x, rng):
    nf = len(gen.forms(x[0]))
    ch = [[0, 1], [1, 2], rng.sample(range(nf), 3), [rng.randrange(nf) for _ in range(2)], [rng.randrange(nf)]]
    return gen.spec_of(x, [], chains=ch, probe=rng.randrange(1000), variant=rng.random())


def run(R, case):
    spec = case['spec']
    ref = R.ref('progs.dofs', 'main', (spec,))
    must_be_ok(ref, 'serial run')
    size = gen.fit(case['size'], ref.results[0]['info']['nbase'], SIZES)
    d = dofs.judge(ref.results, spec)
    if d:
        raise Fail(*d)
    r = R.phase(size, 'progs.dofs', 'main', (spec,), cfg=case['cfg'])
    must_be_ok(r, f'{size} ranks')
    d = compare.ranks_agree(r.results)
    if d:
        raise Fail('ranks-differ:' + d[0], d[1])
    d = dofs.judge(r.results, spec)
    if d:
        raise Fail(*d)
    d = compare.numbering(r.results, ref.results)
    if d:
        raise Fail(*d)
    for i in range(len(spec['forms'])):
        if f'bd{i}' in ref.results[0]['same'] and len(ref.results[0]['same'][f'bd{i}']) != len(r.results[0]['same'][f'bd{i}']):
            raise Fail('boundary-dofs', f'form {i}: number of boundary dofs differs from a serial run')


def simplify(case):
    import copy
    if case['size'] > 2:
        d = copy.deepcopy(case)
        d['size'] -= 1
        yield d
    for i in range(len(case['spec']['chains'])):
        d = copy.deepcopy(case)
        d['spec']['chains'].pop(i)
        yield d
    if case['spec']['degree'] != 1:
        d = copy.deepcopy(case)
        d['spec']['degree'] = 1
        yield d
    for k in ('gc', 'skew', 'ids'):
        if k in case['cfg']:
            d = copy.deepcopy(case)
            d['cfg'].pop(k)
            yield d

"""C15: what adaptive refinement carries over from mesh to mesh"""
import copy
from checks import gen
from dsim.check import Fail, must_be_ok
from progs import compare

SIZES = [1, 2, 3, 4, 5, 7]
RULE = ('a case is (mesh, degree, forms, history of reductions and renewals with its refinements, splittings, methods, choices of forms and cleanings, rank count, schedule, '
        'garbage collection); it counts when its event sequence is new')
ASSUMPTIONS = ['simulated MPI (dsim/fakempi.py)', 'values carried over to new elements are interpolated between many equivalent samples: they are compared with a serial run to '
               '10% of the error and, for constant fields, with the exact ones; values of elements that stay are compared exactly']
KINDS = [[0, 'outer'], [1, 'outer'], [1, 'inner'], [2, 'outer'], [0, 'inner'], [2, 'inner']]
POINTS = [0, 1, .5, .25, -.1, .9]


def around(rng):
    return [rng.choice(POINTS), rng.choice(POINTS), rng.choice([[1.5], [1.5, 3], [1.2, 3, 5], [4], [30]])]


def history(rng, nf, ts, length):
    steps = []
    times = rng.sample([0., .5, 1., -2., .1 + .2], 3)
    for i in range(nf):
        if rng.random() < .85 or i == 0:
            steps.append(['reduce', [i], times[0]])
    last = 0
    for _ in range(length):
        r = rng.random()
        if r < .2:
            steps.append(['reduce', sorted(rng.sample(range(nf), rng.randint(1, nf))), rng.choice(times)])
        else:
            t = last if rng.random() < .25 else (rng.choice([0, 0, 1]) if rng.random() < .2 else around(rng))
            last = t
            which = None if rng.random() < .7 else sorted(rng.sample(range(nf), rng.randint(1, nf)))
            steps.append(['renew', t, ts if rng.random() < .8 else rng.choice([0, 1]), rng.choice([3, 3, 3, 1]), rng.random() < .4, which])
    return steps


def mk(rng, length):
    m = rng.choice([dict(kind='quad', K=rng.choice([2, 2, 3])), dict(kind='rectangle', K=rng.choice([2, 3, [2, 3]]))])
    nf = rng.choice([1, 2, 3, 4])
    ts = rng.choice([1, 1, 1, 0])
    spec = dict(mesh=m, ts=ts, degree=rng.choice([1, 1, 2]), forms=[rng.choice(KINDS) for _ in range(nf)], const=int(rng.random() < .5))
    spec['steps'] = history(rng, nf, ts, length)
    return dict(spec=spec, size=rng.choice(SIZES), cfg=gen.sched(rng))


def cases(tier, rng):
    all4 = [[0, 'outer'], [1, 'outer'], [1, 'inner'], [2, 'outer']]
    a, b = [0, 0, [1.5, 3]], [1, 1, [1.5, 3]]
    for ts in (1, 0):
        for const in (0, 1):
            for sz in (1, 3, 4, 7):
                st = [['reduce', [0, 1, 2, 3], 0.], ['renew', a, ts, 3, False, None], ['renew', b, ts, 3, True, None], ['renew', b, ts, 3, False, None],
                      ['renew', a, ts, 3, False, None]]
                yield dict(spec=dict(mesh=dict(kind='quad', K=3), ts=ts, degree=1, forms=all4, const=const, steps=st), size=sz, cfg=gen.sched(rng))
    for sz in (1, 3):                    # renewals, some of which change nothing, while addresses are reused
        for const in (0, 1):
            st = [['reduce', [0, 1], 0.], ['renew', a, 1, 3, False, None], ['renew', a, 1, 3, False, None], ['renew', [.5, 0, [1.5, 3]], 1, 3, False, None],
                  ['renew', b, 1, 3, False, None], ['renew', b, 1, 3, True, None], ['renew', a, 1, 3, False, None]]
            yield dict(spec=dict(mesh=dict(kind='quad', K=3), ts=1, degree=1, forms=all4[:2], const=const, steps=st), size=sz, cfg=dict(gen.sched(rng), ids=1., gc=.05))
    n = 0
    while tier != 'quick' or n < 60:
        yield mk(rng, rng.choice([1, 2, 3, 5]))
        n += 1


def run(R, case):
    spec = case['spec']
    ref = R.ref('progs.adaptive', 'main', (spec,))
    must_be_ok(ref, 'serial run')
    d = compare.oracles(ref.results)
    if d:
        raise Fail(d[0].split('.')[-1], 'serial run: ' + d[1])
    # what the last renewal left does not depend on what was before it
    renew = [s for s in spec['steps'] if s[0] == 'renew']
    if len(renew) > 1:
        fresh = R.ref('progs.adaptive', 'main', (dict(spec, steps=renew[-1:]),))
        must_be_ok(fresh, 'serial run of the last renewal alone')
        last(ref.results, fresh.results, 'after a history and directly, serially')
    size = gen.fit(case['size'], 4, SIZES)
    r = R.phase(size, 'progs.adaptive', 'main', (spec,), cfg=case['cfg'])
    must_be_ok(r, f'{size} ranks')
    d = compare.oracles(r.results)
    if d:
        raise Fail(d[0].split('.')[-1], f'{size} ranks: ' + d[1])
    d = compare.ranks_agree(r.results)
    if d:
        raise Fail('ranks-differ:' + d[0].split('.')[-1], d[1])
    last(r.results, ref.results, f'{size} ranks and serially')
    a, b = r.results[0]['same'], ref.results[0]['same']
    for k in b:
        x = compare.close(a.get(k), b[k], *((.1, 1e-3) if k.endswith('error') else (1e-9, 1e-11)))
        if x:
            raise Fail('serial-differs:' + k.split('.')[-1], f'{k}: {size} ranks vs serial: {x}')


def last(u, v, what):
    (u, _), (v, _) = compare.union(u), compare.union(v)
    for k in v:
        if k.startswith('final.c'):
            x = compare.close(u.get(k), v[k], 1e-9, 1e-11)
            if x:
                raise Fail('final', f'form {k[7:]} reduced on the last mesh, {what}: {x}')
        else:
            x = compare.renaming(u.get(k), v[k], 'numbers')
            if x:
                raise Fail('numbers', f'numbering of form {k[7:]} on the last mesh, {what}: {x[1]}')


def simplify(case):
    def mk_(f):
        d = copy.deepcopy(case)
        f(d)
        return d
    sp = case['spec']
    for i in range(len(sp['steps'])):
        if len(sp['steps']) > 1:
            yield mk_(lambda d: d['spec']['steps'].pop(i))
    if case['size'] > 1:
        yield mk_(lambda d: d.__setitem__('size', SIZES[SIZES.index(case['size']) - 1]))
    if sp['degree'] != 1:
        yield mk_(lambda d: d['spec'].__setitem__('degree', 1))
    for k in ('gc', 'skew', 'ids'):
        if k in case['cfg']:
            yield mk_(lambda d: d['cfg'].pop(k))

"""C19: linear systems, matrices and vectors of one session do not change each other"""
import copy
from checks import gen, C02
from dsim.check import Fail, must_be_ok
from progs import compare

SIZES = [1, 2, 3, 4, 5, 7]
RULE = ('a case is (mesh, degree, orientation, two or three linear systems on the same forms with different boundary conditions, a history of solving them (dofs pinned, other boundary values, times), '
        'taking mass matrices, customizing them and evaluating random expressions of local matrices and vectors, rank count, schedule); it counts when its event sequence is new')
ASSUMPTIONS = ['simulated MPI (dsim/fakempi.py)', 'parallel and serial solutions are compared with relative tolerance 1e-7']
SIDES2 = [[[-1, 0], [1, 0]], [[0, 1]], [[-1, 0], [0, -1], [1, 0]], [[1, 0]], [[0, -1]], [[-1, 0]]]
SIDES3 = [[[-1, 0, 0], [0, 1, 0]], [[0, 0, 1]], [[1, 0, 0]], [[0, -1, 0]]]


def op(rng, n, few=False):
    r = rng.random()
    if r < .55 or few:
        o = dict(i=rng.randrange(n), shift=rng.choice([0., .3, .7]), t=rng.choice([0, 0, 1]))
        if rng.random() < .4:
            o['pins'] = [[rng.choice([0, 1]), rng.randrange(1000), round(rng.uniform(-1, 1), 3)] for _ in range(rng.choice([1, 1, 2]))]
        return ['solve', o]
    if r < .7:
        return ['energy', {}]
    if r < .8:
        return ['custom', dict(which=rng.choice([0, 1]), rows=[[rng.choice(['identify', 'zero']), rng.randrange(1000)] for _ in range(rng.choice([1, 2, 4]))])]
    if r < .88:
        return ['local', dict(i=rng.randrange(n), shift=rng.choice([0., .3, .7]), t=rng.choice([0, 0, 1]), mul=rng.choice([0, 0, 1, 2]),
                              pins=[[rng.randrange(1000), round(rng.uniform(-1, 1), 3)] for _ in range(rng.choice([0, 1, 2, 4]))])]
    return ['algebra', dict(seed=rng.randrange(10 ** 6), steps=rng.choice([15, 25, 40]), shift=round(rng.random(), 3))]


def mk(rng, mesh=None, n=None):
    while True:
        b = C02.mk(rng, mesh, n)
        if b['variant'] != 'periodic' and b['mesh']['kind'] not in ('tqr', 'crazy_multi'):
            break
    S = SIDES2 if b['n'] == 2 else SIDES3
    k = rng.choice([2, 2, 2, 3])
    sides = rng.sample(S, k)
    if b['mesh']['kind'] == 'quad':
        sides = [S[1], S[0], S[1]][:k] if rng.random() < .5 else [S[0], S[1], S[0]][:k]
    ops = [op(rng, k) for _ in range(rng.choice([2, 3, 4, 6]))]
    if not any(o[0] == 'solve' for o in ops):
        ops.insert(rng.randrange(len(ops) + 1), op(rng, k, True))
    for i, o in enumerate(ops):
        o[1]['label'] = i
        if b['variant'] == 'outer':
            pass
        else:
            o[1].pop('pins', None)
    return dict(n=b['n'], degree=b['degree'], mesh=b['mesh'], orientation=b['variant'], sides=sides, ops=ops)


def cases(tier, rng):
    for n, ms in ((2, C02.MESHES2), (3, C02.MESHES3)):
        for m in ms:
            if not m.get('periodic') and m['kind'] not in ('tqr', 'crazy_multi'):
                s = mk(rng, m, n)
                s['ops'] = [['solve', dict(i=0, shift=.3)], ['solve', dict(i=1, shift=.3)], ['energy', {}], ['local', dict(i=1, shift=.3, mul=rng.choice([0, 1, 2]), pins=[[rng.randrange(1000), .5] for _ in range(rng.choice([0, 2]))])], ['algebra', dict(seed=rng.randrange(10 ** 6), steps=25)]]
                for i, o in enumerate(s['ops']):
                    o[1]['label'] = i
                yield dict(spec=s, size=rng.choice(SIZES), cfg=gen.sched(rng))
    k = 0
    while tier != 'quick' or k < 170:
        yield dict(spec=mk(rng), size=rng.choice(SIZES), cfg=gen.sched(rng))
        k += 1


def part(results, q):
    out = []
    for r in results:
        d = {p: {k: v for k, v in r[p].items() if k.startswith(f'{q}.')} for p in ('same', 'elem', 'root')}
        d['checks'] = [c for c in r['checks'] if c[0].startswith(f'{q}.')]
        out.append(d)
    return out


def run(R, case):
    spec = case['spec']
    refs, nb = [], None
    for o in spec['ops']:
        ref = R.ref('progs.algebra', 'main', (dict(spec, ops=[o]),))
        must_be_ok(ref, f'{o[0]} alone')
        nb = ref.results[0]['info']['nbase']
        refs.append(ref.results)
    size = gen.fit(case['size'], nb, SIZES)
    r = R.phase(size, 'progs.algebra', 'main', (spec,), cfg=case['cfg'])
    must_be_ok(r, f'session on {size} ranks')
    for o, ref in zip(spec['ops'], refs):
        q = o[1]['label']
        d = compare.against(part(r.results, q), part(ref, q), rtol=1e-7, atol=1e-7)
        if d:
            raise Fail(d[0].replace(f'{q}.', '', 1), f'operation {q} ({o[0]}) in a session on {size} ranks, against it alone: {d[1]}')


def simplify(case):
    def mk_(f):
        d = copy.deepcopy(case)
        f(d)
        return d
    n = len(case['spec']['ops'])
    for i in range(n):
        if n > 1:
            yield mk_(lambda d: d['spec']['ops'].pop(i))
    if case['size'] > 1:
        yield mk_(lambda d: d.__setitem__('size', case['size'] - 1))
    for i, o in enumerate(case['spec']['ops']):
        if o[1].get('pins'):
            yield mk_(lambda d: d['spec']['ops'][i][1].pop('pins'))
        if o[0] == 'algebra' and o[1]['steps'] > 3:
            yield mk_(lambda d: d['spec']['ops'][i][1].__setitem__('steps', o[1]['steps'] * 2 // 3))
    for k in ('gc', 'skew', 'ids'):
        if k in case['cfg']:
            yield mk_(lambda d: d['cfg'].pop(k))

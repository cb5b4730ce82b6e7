"""C20: boundary conditions hold on every section of the boundary, however it is split and described"""
import copy
from checks import gen
from dsim.check import Fail, must_be_ok
from progs import compare, sysjudge

SIZES = [1, 2, 3, 4, 5, 7, 11]
RULE = ('a case is (mixed Poisson problem, mesh, degree, split of the boundary into sections, how each section is described, its kind of condition and data, '
        'order of the conditions; rank count, schedule, MPI semantics); it counts when its event sequence is new')
ASSUMPTIONS = ['simulated MPI (dsim/fakempi.py)',
               'the reference is a serial run of the same problem with one section for the essential and one for the natural conditions, whose data is given piece by piece',
               'systems are compared with relative tolerance 1e-8 up to the renumbering of the unknowns']

MESHES = [dict(kind='rectangle', K=[4, 2]), dict(kind='rectangle', K=[2, 4], bounds=[[0, 2], [-1, .5]]), dict(kind='crazy', n=2, K=[2, 4], c=.1), dict(kind='quad', K=2),
          dict(kind='crazy', n=2, K=[3, 3], c=0.), dict(kind='rectangle', K=[1, 3]), dict(kind='quad', K=3), dict(kind='crazy', n=2, K=[4, 4], c=0., ts=1),
          dict(kind='rectangle', K=[2, 2], ts=1), dict(kind='quad', K=2, renumbering=True)]
MESHES3 = [dict(kind='crazy', n=3, K=[2, 2, 3], c=0.), dict(kind='crazy', n=3, K=[1, 3, 2], c=.1)]


def hows(mesh, full, horizontal):
    if mesh.get('n') == 3:
        return ['ounv']
    h = ['segments', 'segments', 'polygons']
    if full:
        h.append('lines')
        if mesh['kind'] != 'quad':
            h += ['ounv', 'ounv']
    if horizontal and mesh['kind'] != 'quad':
        h.append('curves')
    return h


def halves(mesh):
    """sides that can be cut in their middle"""
    K = mesh['K']
    K = K if isinstance(K, list) else [K, K]
    if mesh.get('ts'):
        return []
    return [i for i in range(4) if K[i % 2] % 2 == 0]


def draw(rng, mesh, upper=False):
    n = mesh.get('n', 2)
    units = [[2 * i, 2 * i + 1] for i in range(6 if n == 3 else 4)]
    if n == 2:
        for i in halves(mesh):
            if rng.random() < .35:
                units.remove([2 * i, 2 * i + 1])
                units += [[2 * i], [2 * i + 1]]
    rng.shuffle(units)
    parts = min(rng.choice([1, 2, 2, 3, 4] if upper else [2, 3, 3, 4, 4, 5]), len(units))
    groups = [units[i::parts] for i in range(parts)]
    kinds = list('en'[:parts]) + [rng.choice('een' if rng.random() < .5 else 'enn') for _ in groups[2:]]
    rng.shuffle(kinds)
    if upper:
        kinds = [rng.choice('enn').upper() for _ in kinds]
    secs = []
    for g, k in zip(groups, kinds):
        p = sorted(x for u in g for x in u)
        full = all(x ^ 1 in p for x in p)
        horizontal = all(x // 2 in (0, 2) for x in p)
        secs.append(dict(pieces=p, kind=k, how=rng.choice(hows(mesh, full, horizontal)), bare=rng.random() < .4, turn=rng.randrange(4), amp=round(rng.uniform(-2, 2), 2) if rng.random() < .7 else 0.,
                         word=rng.choice(['boundary_section', 'boundary-section', 'boundary section'])))
    # one of them may be described as what the others leave
    i = rng.randrange(len(secs))
    if rng.random() < .6 and parts > 1:
        p = [x for j, s in enumerate(secs) if j != i for x in s['pieces']]
        full = all(x ^ 1 in p for x in p)
        horizontal = all(x // 2 in (0, 2) for x in p)
        secs[i].update(rest=True, how=rng.choice(hows(mesh, full, horizontal)))
    return secs


def mk(rng, mesh=None, problem=None):
    mesh = copy.deepcopy(mesh or rng.choice(MESHES + MESHES + MESHES3))
    n = mesh.get('n', 2)
    problem = problem or rng.choice(['poisson', 'poisson', 'stokes'])
    secs = draw(rng, mesh)
    if problem == 'stokes':
        secs += draw(rng, mesh, True)
    order = list(range(len(secs)))
    rng.shuffle(order)
    ori = 'outer' if mesh.get('c') and n == 3 or problem == 'stokes' else rng.choice(['outer', 'outer', 'inner'])
    return dict(problem=problem, mesh=mesh, degree=gen.degree(rng, n, rng.choice([1, 2]) if n == 2 else 1, mesh, .2 if n == 2 else .7), orientation=ori, sections=secs, order=order,
                shift=round(rng.random(), 3), times=[round(rng.uniform(0, 1), 2) for _ in range(rng.choice([1, 1, 2]))])


def plain(spec):
    """the same problem with one section of either kind"""
    d = copy.deepcopy(spec)
    d['sections'] = []
    for k in 'enEN':
        mine = [s for s in spec['sections'] if s['kind'] == k]
        if not mine:
            continue
        amps = {str(p): s['amp'] for s in mine for p in s['pieces']}
        p = sorted(x for s in mine for x in s['pieces'])
        full = all(x ^ 1 in p for x in p)
        how = 'ounv' if full and spec['mesh']['kind'] != 'quad' else 'segments'
        d['sections'].append(dict(pieces=p, kind=k, how=how, amps=amps))
    d['order'] = list(range(len(d['sections'])))
    return d


def cases(tier, rng):
    for problem, m in [('poisson', m) for m in MESHES[:5] + MESHES3] + [('stokes', m) for m in MESHES[:4] + MESHES3]:
        yield dict(spec=mk(rng, m, problem), size=rng.choice(SIZES[1:]), cfg=gen.sched(rng))
    k = 0
    while tier != 'quick' or k < 170:
        yield dict(spec=mk(rng), size=rng.choice(SIZES), cfg=gen.sched(rng))
        k += 1


def cover(results, sections):
    """every face of the boundary is in exactly one section"""
    u, dup = compare.union(results)
    if dup:
        return 'ranks-share-a-face', dup[1]
    where = {}
    for name, e, f in u['faces']:
        where.setdefault((e, f), []).append(name)
    for face, names in sorted(where.items(), key=str):
        names = [int(x) for x in names if x != 'B']
        for upper in sorted({s['kind'].isupper() for s in sections}):
            mine = [x for x in names if sections[x]['kind'].isupper() == upper]
            if len(mine) != 1:
                return 'sections', f'face {face} of the boundary is in sections {sorted(mine)}'
    return None


def run(R, case):
    spec = case['spec']
    ref = R.ref('progs.sections', 'main', (plain(spec),))
    must_be_ok(ref, 'serial run')
    d = compare.oracles(ref.results) or cover(ref.results, plain(spec)['sections'])
    if d:
        raise Fail(d[0], 'serial run with two sections: ' + d[1])
    size = gen.fit(case['size'], ref.results[0]['info']['nbase'], SIZES)
    r = R.phase(size, 'progs.sections', 'main', (spec,), cfg=case['cfg'])
    must_be_ok(r, f'{size} ranks, {len(spec["sections"])} sections')
    d = compare.oracles(r.results) or cover(r.results, spec['sections'])
    if d:
        raise Fail(*d)
    d = compare.ranks_agree(r.results, 0, 0)
    if d:
        raise Fail('ranks-differ:' + d[0].split('.')[-1], d[1])
    a, b = [{k for k in compare.union(x)[0]['faces'] if k[0] == 'B'} for x in (r.results, ref.results)]
    if a != b:
        raise Fail('boundary', f'{size} ranks: {len(a)} boundary faces, serial {len(b)}')
    d = sysjudge.judge(r.results, ref.results)
    if d:
        raise Fail(d[0], f'{len(spec["sections"])} sections, compared with one section per kind: {d[1]}')


def simplify(case):
    def mk_(f):
        d = copy.deepcopy(case)
        f(d)
        return d
    if case['size'] > 1:
        yield mk_(lambda d: d.__setitem__('size', SIZES[SIZES.index(case['size']) - 1]))
    S = case['spec']['sections']
    if len(S) > 2 and not any(s.get('rest') for s in S):
        for i in range(len(S)):
            for j in range(i):
                if S[i]['kind'] == S[j]['kind'] and S[i]['how'] == S[j]['how'] and S[i]['amp'] == S[j]['amp']:
                    def merge(d, i=i, j=j):
                        T = d['spec']['sections']
                        T[j]['pieces'] = sorted(T[j]['pieces'] + T[i]['pieces'])
                        T.pop(i)
                        d['spec']['order'] = list(range(len(T)))
                    yield mk_(merge)
    for i, s in enumerate(S):
        if s.get('amp'):
            yield mk_(lambda d: d['spec']['sections'][i].__setitem__('amp', 0.))
        if s.get('rest'):
            yield mk_(lambda d: d['spec']['sections'][i].pop('rest'))
        if s['how'] != 'segments' and case['spec']['mesh'].get('n') != 3:
            yield mk_(lambda d: d['spec']['sections'][i].__setitem__('how', 'segments'))
    if len(case['spec']['times']) > 1:
        yield mk_(lambda d: d['spec']['times'].pop())
    if case['spec']['degree'] != 1:
        yield mk_(lambda d: d['spec'].__setitem__('degree', 1))
    for k in ('gc', 'skew', 'ids'):
        if k in case['cfg']:
            yield mk_(lambda d: d['cfg'].pop(k))

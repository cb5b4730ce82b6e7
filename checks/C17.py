"""C17: nonlinear terms of forms are the integrals they denote, as operators, matrices and vectors, on any number of ranks"""
import copy
from checks import gen
from checks.C13 import split
from dsim.check import Fail, must_be_ok
from progs import compare

SIZES = [1, 2, 3, 4, 5, 7]
RULE = ('a case is one to three sets of nonlinear terms (term, forms, times; mesh, degree) or time steps of weak formulations holding such terms, one after another in one session, rank count, schedule, moments of '
        'garbage collection; it counts when its event sequence is new and at least one simulated operation happened')
ASSUMPTIONS = ['simulated MPI (dsim/fakempi.py)', 'a serial session evaluating one set alone is the reference; integrals are those of reconstructed forms by Gauss quadrature: '
               'exact (1e-9) on affine elements, within 10 to 30 % on curved ones']

S2 = {1: [[0, 'outer'], [2, 'outer'], [0, 'inner'], [2, 'inner']], 2: [[1, 'outer'], [1, 'inner']]}


def draw(rng, n, d, m):
    """one set of terms, over forms that are not used twice within a term"""
    forms, terms = [], []

    def form(k):
        for i, f in enumerate(forms):
            if f == k and i not in used and rng.random() < .7:
                used.append(i)
                return i
        forms.append(list(k))
        used.append(len(forms) - 1)
        return len(forms) - 1
    for _ in range(rng.choice([2, 3, 4])):
        used = []
        t = rng.choice([0, .3, .5])
        times = [t, t, rng.choice([t, t, 1.])]
        if n == 3:
            k = rng.choice(['AxB.C', 'AxB|C', 'AxB.dC', 'log'])
            if k == 'log':
                terms.append(dict(term=k, forms=[form(rng.choice([[0, 'outer'], [3, 'outer']])) for _ in range(2)], times=times))
                continue
            ks = [rng.choice([[1, 'outer'], [2, 'outer']]) for _ in range(3)]
            if k == 'AxB.dC':
                ks[2] = [1, 'outer']
            terms.append(dict(term=k, forms=[form(x) for x in ks], times=times))
            continue
        k = rng.choice(['AxB.C', 'AxB.C', 'AxB|C', 'AxB.dC', 'AB.dC', 'AdB.dC', 'AdB.C', 'AB.C', 'AB.C', 'log'])
        s, v = lambda: rng.choice(S2[1]), lambda: rng.choice(S2[2])
        z, o = (lambda: rng.choice([[0, 'outer'], [0, 'inner']])), (lambda: rng.choice([[1, 'outer'], [1, 'inner']]))
        if k in ('AxB.C', 'AxB|C'):
            ks = rng.choice([lambda: [s(), v(), v()], lambda: [v(), v(), s()]])()
        elif k == 'AxB.dC':
            ks = rng.choice([lambda: [s(), v(), z()], lambda: [v(), v(), o()]])()
        elif k == 'AB.dC':
            ks = rng.choice([lambda: [s(), v(), z()], lambda: [s(), s(), o()]])()
        elif k == 'AdB.dC':
            ks = rng.choice([lambda: [s(), z(), z()], lambda: [s(), o(), o()]])()
        elif k == 'AdB.C':
            ks = rng.choice([lambda: [s(), z(), v()], lambda: [s(), o(), s()]])()
        elif k == 'AB.C':
            ks = rng.choice([lambda: [s(), v(), v()], lambda: [s(), s(), s()]])()
        else:
            ks = [s(), s()]
        terms.append(dict(term=k, forms=[form(x) for x in ks], times=times))
    exact = m['kind'] in ('rectangle', 'backward_step', 'slice') or (m['kind'] in ('crazy', 'crazy_multi') and not m.get('c'))
    return dict(n=n, degree=d, mesh=copy.deepcopy(m), forms=forms, terms=terms, exact=exact, variant=round(rng.random(), 3))


def mesh(rng):
    while True:
        n, d, m = gen.rand_mesh(rng)
        # triangles have none of these terms
        if m['kind'] in ('chaotic', 'meshpy', 'tqr', 'cylinder_channel') or 'ts' in m and rng.random() < .9:
            continue
        return n, d if isinstance(d, list) else min(d, 2), m


STEPS = ['wxu', 'wxc', 'uxv', 'log', 'advect', 'advect*']


def steps(rng):
    """a weak formulation stepped through time"""
    c = rng.choice([0., 0., .05])
    return dict(name=rng.choice(STEPS), n=2, degree=rng.choice([1, 2, 2, 3]), mesh=dict(kind='crazy', n=2, K=[rng.choice([3, 4]), rng.choice([3, 4, 5])], c=c, periodic=True),
                steps=rng.choice([1, 2, 3]), solver=['spsolve'], exact=not c, variant=round(rng.random(), 3))


def vary(rng, sp):
    sp = copy.deepcopy(sp)
    m = sp['mesh']
    if 'name' in sp:
        k = rng.choice(['name', 'K', 'degree', 'c', 'variant'])
        if k == 'c':
            m['c'] = .05 - m['c']
            sp['exact'] = not m['c']
        else:
            where = m if k == 'K' else sp
            where[k] = {'name': rng.choice(STEPS), 'K': m['K'][::-1], 'degree': 3 - min(2, sp['degree']), 'variant': round(rng.random(), 3)}[k]
        return sp
    r = rng.random()
    if r < .35 and m['kind'] in ('crazy', 'rectangle') and not m.get('periodic'):
        m['bounds'] = [[0, rng.choice([1.5, .5, 3.])]] + [[0, 1]] * (sp['n'] - 1)
    elif r < .5 and isinstance(m.get('K'), list) and not m.get('periodic'):
        m['K'] = m['K'][::-1]
    elif r < .65 and sp['n'] == 2:
        sp['degree'] = 2 if sp['degree'] == 1 else 1
    elif r < .8 and m['kind'] in ('crazy', 'crazy_multi') and 'ts' not in m:
        m['c'] = 0. if m['c'] else .05
        sp['exact'] = not m['c']
    else:
        for t in sp['terms']:
            t['forms'] = t['forms'][:1] + (t['forms'][2:] + t['forms'][1:2] if t['term'] in ('AxB.C', 'AxB|C', 'AB.C') and len({tuple(sp['forms'][i]) for i in t['forms'][1:]}) == 1
                                           else t['forms'][1:])
        sp['variant'] = round(rng.random(), 3)
    return sp


def cases(tier, rng):
    k = 0
    directed = [x for x in gen.DIRECTED if x[2]['kind'] not in ('chaotic', 'meshpy', 'cylinder_channel') and 'ts' not in x[2]]
    while tier != 'quick' or k < 110:
        n, d, m = directed[k] if k < len(directed) else mesh(rng)
        sets = [draw(rng, n, d if isinstance(d, list) else min(d, 2), m) if k % 3 or k < len(directed) else steps(rng)]
        for _ in range(rng.choice([0, 1, 1, 2])):
            sets.append(vary(rng, rng.choice(sets)) if rng.random() < .75 else steps(rng) if rng.random() < .3 else draw(rng, *mesh(rng)))
        jobs = [dict(prog='weak' if 'name' in s else 'terms', spec=s, clear=rng.random() < .5) for s in sets]
        c = gen.sched(rng)
        if rng.random() < .5:
            c['gc'] = rng.choice([.02, .2])
        yield dict(jobs=jobs, size=rng.choice(SIZES), cfg=c)
        k += 1


def run(R, case):
    refs, least = [], 10 ** 9
    for j in case['jobs']:
        ref = R.ref('progs.' + j['prog'], 'main', (j['spec'],))
        must_be_ok(ref, 'terms alone')
        d = compare.oracles(ref.results)
        if d:
            raise Fail(d[0], 'serial: ' + d[1])
        refs.append(ref.results)
        least = min(least, ref.results[0]['info']['nbase'])
    size = gen.fit(case['size'], least, SIZES)
    r = R.phase(size, 'progs.session', 'main', (dict(jobs=case['jobs']),), cfg=case['cfg'])
    must_be_ok(r, f'{size} ranks')
    for q, ref in enumerate(refs):
        res = split(r.results, q)
        d = compare.against(res, ref)
        if d:
            raise Fail(d[0].split(':')[0], f'set {q}: {d[1]}')


def simplify(case):
    def mk(f):
        d = copy.deepcopy(case)
        f(d)
        return d
    for i in range(len(case['jobs'])):
        if len(case['jobs']) > 1:
            yield mk(lambda d: d['jobs'].pop(i))
    if case['size'] > 1:
        yield mk(lambda d: d.__setitem__('size', SIZES[max(0, SIZES.index(case['size']) - 1)]))
    for i, j in enumerate(case['jobs']):
        for a in range(len(j['spec'].get('terms', ()))):
            if len(j['spec']['terms']) > 1:
                yield mk(lambda d: d['jobs'][i]['spec']['terms'].pop(a))
        if j['spec']['degree'] != 1:
            yield mk(lambda d: d['jobs'][i]['spec'].__setitem__('degree', 1))
        if j['spec'].get('steps', 1) > 1:
            yield mk(lambda d: d['jobs'][i]['spec'].__setitem__('steps', 1))
    for k in ('gc', 'skew', 'ids'):
        if k in case['cfg']:
            yield mk(lambda d: d['cfg'].pop(k))

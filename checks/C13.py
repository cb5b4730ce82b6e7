"""C13: what a program computes does not depend on what the session computed before"""
import copy
from checks import gen, C02, C05, C06
from dsim.check import Fail, must_be_ok
from progs import compare, sysjudge

SIZES = [1, 2, 3, 4, 5]
RULE = ('a case is a sequence of two to four programs run in one session (batteries of form quantities, Poisson and Stokes systems, Navier-Stokes steps; often the same '
        'program with one parameter changed), rank count, schedule, MPI semantics, moments of garbage collection; it counts when its event sequence is new')
ASSUMPTIONS = ['simulated MPI (dsim/fakempi.py)', 'a fresh serial session running one program alone is the reference; floats with relative tolerance 1e-8 (solutions 1e-6)']
OPS = [o for o in C05.OPS]


def battery(rng, ndm=None):
    ops = rng.sample(OPS, rng.randint(4, 8))
    return dict(prog='battery', spec=gen.spec_of(ndm or gen.rand_mesh(rng), ops, times=[rng.choice([0, .3]), .5], variant=round(rng.random(), 3)))


def vary(rng, job):
    """the same program with one thing changed"""
    j = copy.deepcopy(job)
    sp, m = j['spec'], j['spec']['mesh']
    if 'ts' in m or 'trf' in m:
        m.pop(rng.choice([x for x in ('ts', 'trf') if x in m and not (x == 'ts' and isinstance(m.get('trf'), list))]), None)
        return j
    what = rng.choice(['shape', 'shape', 'scale', 'K', 'degree', 'field', 'none'])
    if what == 'shape':
        if 'c' in m and m['kind'] not in ('slice', 'tqr'):
            m['c'] = 0. if m['c'] else .05
        elif m['kind'] == 'quad':
            m['kind'] = 'rectangle'
        elif m['kind'] == 'rectangle':
            m['bounds'] = [[0, 1.5], [0, 1]]
        elif m['kind'] == 'tqr':
            m['vertices'] = dict(copy.deepcopy(m['vertices']))
            k = sorted(m['vertices'])[1]
            m['vertices'][k] = [1.25, .1]
    elif what == 'scale' and m['kind'] in ('crazy', 'rectangle') and not m.get('periodic'):
        n = m.get('n', 2)
        m['bounds'] = [[0, rng.choice([1.5, .5, 1.000001])]] + [[0, 1]] * (n - 1)
    elif what == 'K':
        K = m.get('K')
        if isinstance(K, list) and not m.get('periodic'):
            m['K'] = K[::-1]
    elif what == 'degree':
        if sp.get('n', 2) == 2 and m['kind'] in ('crazy', 'rectangle', 'quad') and j['prog'] == 'battery':
            # the same order in each direction, other nodes
            own = sp['degree'] if isinstance(sp['degree'], list) else None
            sp['degree'] = rng.choice([3, 2, [[1, 3, 1], [2, 1, 2]], [[1, 1, 2], [1, 2, 1]], [[1, 2], [2, 1]], [[1, 3], [1, 1]]]) if own is None else \
                rng.choice([len(own[0]) if isinstance(own[0], list) else own[0], [[1 + .5 * q for q in range(len(x) if isinstance(x, list) else x)] for x in own]])
        else:
            sp['degree'] = 2 if sp['degree'] == 1 and sp.get('n', 2) == 2 else 1
    elif what == 'field' and 'variant' in sp and j['prog'] == 'battery':
        sp['variant'] = round(rng.random(), 3)
    return j


def job(rng):
    r = rng.random()
    if r < .5:
        return battery(rng)
    if r < .7:
        return dict(prog='poisson', spec=C02.mk(rng))
    if r < .9:
        return dict(prog='stokes', spec=C02.mk_stokes(rng))
    sp = C06.mk(rng)
    sp['solves'] = sp['solves'][:1]
    return dict(prog='meevc', spec=sp)


def ok(j):
    """C03 finding: too few periodic elements; C02: no inner curvilinear 3d"""
    m = j['spec']['mesh']
    if m.get('periodic') and m['kind'] in ('crazy', 'chaotic'):
        K = m['K']
        if isinstance(K, list) and 2 in K:
            return False
    if j['prog'] != 'battery' and j['spec'].get('n', 2) == 3 and m.get('c') and (j['prog'] == 'stokes' or j['spec'].get('variant') == 'inner'):
        return False
    return True


def session(rng, first=None):
    jobs = [first or job(rng)]
    for _ in range(rng.choice([1, 1, 2, 3])):
        r = rng.random()
        while True:
            j = vary(rng, rng.choice(jobs)) if r < .7 else copy.deepcopy(rng.choice(jobs)) if r < .8 else job(rng)
            if ok(j):
                break
        jobs.append(j)
    for j in jobs:
        j['clear'] = rng.random() < .6
    return jobs


def sched(rng):
    c = gen.sched(rng)
    if rng.random() < .6:
        c['gc'] = rng.choice([.02, .2])
    return c


def cases(tier, rng):
    n = 0
    for x in gen.DIRECTED:
        if not ok(dict(prog='battery', spec=dict(mesh=x[2]))):
            continue
        if n % 2 == rng.randrange(2) or tier != 'quick':
            yield dict(jobs=session(rng, battery(rng, x)), size=rng.choice(SIZES), cfg=sched(rng))
        n += 1
    for m in (dict(kind='rectangle', K=[2, 3]), dict(kind='quad', K=2), dict(kind='crazy', n=2, K=[2, 2], c=.1)):
        # default nodes and nodes placed by the user, of the same degree
        a = dict(prog='battery', spec=gen.spec_of((2, 3, m), rng.sample(OPS, 6) + ['errors'], times=[.5], variant=round(rng.random(), 3)))
        b = copy.deepcopy(a)
        b['spec']['degree'] = [[1, 3, 1], [2, 1, 2]]
        jobs = [a, b] if rng.random() < .5 else [b, a]
        for j in jobs:
            j['clear'] = rng.random() < .6
        yield dict(jobs=jobs, size=rng.choice(SIZES), cfg=sched(rng))
    n = 0
    while tier != 'quick' or n < 50:
        yield dict(jobs=session(rng), size=rng.choice(SIZES), cfg=sched(rng))
        n += 1


def split(results, q):
    p = f'{q}:'
    out = []
    for r in results:
        d = {part: {k[len(p):]: v for k, v in r[part].items() if k.startswith(p)} for part in ('same', 'elem', 'root')}
        d['checks'] = [(c[0][len(p):],) + tuple(c[1:]) for c in r['checks'] if c[0].startswith(p)]
        d['info'] = r['info'][str(q)]
        out.append(d)
    return out


def run(R, case):
    refs, least = [], 10 ** 9
    for j in case['jobs']:
        ref = R.ref('progs.' + j['prog'], 'main', (j['spec'],))
        must_be_ok(ref, f'{j["prog"]} alone')
        refs.append(ref.results)
        least = min(least, ref.results[0]['info']['nbase'])
    size = gen.fit(case['size'], least, SIZES)
    r = R.phase(size, 'progs.session', 'main', (dict(jobs=case['jobs']),), cfg=case['cfg'])
    must_be_ok(r, f'session on {size} ranks')
    for q, (j, ref) in enumerate(zip(case['jobs'], refs)):
        res = split(r.results, q)
        sp = j['spec']
        what = f'program {q} ({j["prog"]}): '
        try:
            d = compare.oracles(res)
            if not d:
                if j['prog'] == 'battery':
                    d = compare.against(res, ref, skip=('sig', 'gm', 'loc', 'own'), tol=dict(iface=(0, 1e9)))
                elif j['prog'] == 'meevc':
                    d = compare.ranks_agree(res, 0, 0)
                    if not d:
                        C06.judge(res, ref, sp)
                else:
                    d = compare.ranks_agree(res, 0, 0) or sysjudge.judge(res, ref)
        except Fail as f:
            raise Fail(f.cls, what + f.msg)
        if d:
            raise Fail(d[0], what + d[1])


def simplify(case):
    def mk(f):
        d = copy.deepcopy(case)
        f(d)
        return d
    for i in range(len(case['jobs'])):
        if len(case['jobs']) > 1:
            yield mk(lambda d: d['jobs'].pop(i))
    if case['size'] > 1:
        yield mk(lambda d: d.__setitem__('size', case['size'] - 1))
    for i, j in enumerate(case['jobs']):
        for name in ('ops', 'pins', 'forms'):
            x = j['spec'].get(name) or []
            if name == 'forms' and j['prog'] != 'battery':
                continue
            for a in range(len(x)):
                if len(x) > 1:
                    yield mk(lambda d: d['jobs'][i]['spec'][name].pop(a))
    for k in ('gc', 'skew', 'ids'):
        if k in case['cfg']:
            yield mk(lambda d: d['cfg'].pop(k))

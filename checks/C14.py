"""C14: cochains stored by time follow a plain dictionary model, on any number of ranks"""
import copy
from checks import gen, hist
from dsim.check import Fail, must_be_ok
from progs import compare

SIZES = [1, 2, 3, 4, 5, 7, 11]
RULE = ('a case is (mesh, degree, three forms, a history of storing, combining, interpolating, caching, cleaning and overwriting cochains at times that may '
        'coincide to eight decimals, rank count, schedule); it counts when its event sequence is new and at least one simulated operation happened')
ASSUMPTIONS = ['simulated MPI (dsim/fakempi.py)', 'the reduction of a field is taken as given; stored values are compared with relative tolerance 1e-11']


def mk(rng, x=None):
    n, d, m = x or hist.mesh(rng)
    ops, times = hist.history(rng, rng.choice([6, 10, 16, 24]))
    return dict(n=n, degree=d, mesh=copy.deepcopy(m), forms=hist.forms(rng, n), ops=ops, probe=times, norms=hist.norms(m))


def cases(tier, rng):
    for x in gen.DIRECTED:
        if x[2]['kind'] != 'cylinder_channel':
            yield dict(spec=mk(rng, x), size=rng.choice(SIZES[1:]), cfg=gen.sched(rng))
    k = 0
    while tier != 'quick' or k < 150:
        yield dict(spec=mk(rng), size=rng.choice(SIZES), cfg=gen.sched(rng))
        k += 1


def run(R, case):
    ref = R.ref('progs.store', 'main', (case['spec'],))
    must_be_ok(ref, 'serial run')
    size = gen.fit(case['size'], ref.results[0]['info']['nbase'], SIZES)
    r = R.phase(size, 'progs.store', 'main', (case['spec'],), cfg=case['cfg'])
    must_be_ok(r, f'{size} ranks')
    d = compare.against(r.results, ref.results)
    if d:
        raise Fail(d[0].split(':')[0] + ':' + d[0].split('.')[-1], d[1])


def simplify(case):
    def mk_(f):
        d = copy.deepcopy(case)
        f(d)
        return d
    if case['size'] > 1:
        yield mk_(lambda d: d.__setitem__('size', SIZES[SIZES.index(case['size']) - 1]))
    n = len(case['spec']['ops'])
    for a in range(0, n, max(1, n // 4)):
        if n > 4:
            yield mk_(lambda d: d['spec']['ops'].__delitem__(slice(a, a + n // 4)))
    for i in range(n):
        if n > 1:
            yield mk_(lambda d: d['spec']['ops'].pop(i))
    if case['spec']['degree'] != 1:
        yield mk_(lambda d: d['spec'].__setitem__('degree', 1))
    for k in ('gc', 'skew', 'ids'):
        if k in case['cfg']:
            yield mk_(lambda d: d['cfg'].pop(k))

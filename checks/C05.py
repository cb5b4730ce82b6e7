"""C05: global quantities of forms do not depend on the number of ranks or the schedule"""
from checks import gen
from dsim.check import Fail, must_be_ok
from progs import compare

SIZES = [1, 2, 3, 4, 5, 7, 11]
OPS = ['errors', 'norms', 'mass', 'inner', 'flux', 'compute', 'value', 'iface', 'nodes', 'lookup', 'gvec', 'merge', 'rws', 'gitp', 'interp', 'dform', 'cochain', 'oracle']
RULE = ('a case is (mesh, degree, all form spaces, times, rank count, schedule policy, MPI buffering/early-exit/reduction-order choices); '
        'a case counts when its event sequence is new and at least one simulated operation happened')
ASSUMPTIONS = ['the simulated MPI implements the MPI standard (dsim/fakempi.py); quantities phyem does not implement for a mesh are skipped',
               'parallel and serial values are compared with relative tolerance 1e-8 (sums are reassociated)']


def cases(tier, rng):
    dirs = [gen.spec_of(x, OPS) for x in gen.DIRECTED]
    n = 0
    for sp in dirs:
        for size in rng.sample(SIZES[1:], 3):
            yield dict(spec=sp, size=size, cfg=gen.sched(rng))
    for x in gen.SMALL:
        yield dict(spec=gen.spec_of(x, ['norms', 'mass', 'errors', 'inner', 'cochain'], times=[.3]), size=rng.choice(SIZES[1:]), cfg=gen.sched(rng))
    while tier != 'quick' or n < 40:
        sp = gen.spec_of(gen.rand_mesh(rng), OPS, times=[rng.choice([0, .3]), 0.5], variant=rng.random())
        for size in rng.sample(SIZES[1:], 2):
            yield dict(spec=sp, size=size, cfg=gen.sched(rng))
        n += 1


def run(R, case):
    ref = R.ref('progs.battery', 'main', (case['spec'],))
    must_be_ok(ref, 'serial run')
    size = gen.fit(case['size'], ref.results[0]['info']['nbase'], SIZES)
    r = R.phase(size, 'progs.battery', 'main', (case['spec'],), cfg=case['cfg'])
    must_be_ok(r, f'{size} ranks')
    d = compare.against(r.results, ref.results, skip=('sig', 'gm', 'loc', 'own'), tol=dict(iface=(0, 1e9)))
    if d:
        raise Fail(*d)


simplify = gen.simplify_battery

"""C04: linear solvers on several ranks"""
import copy
from checks import gen, C02
from checks.C02 import MESHES2, MESHES3, SIDES2, SIDES3
from dsim.check import Fail, must_be_ok
from progs import compare, sysjudge

SIZES = [1, 2, 3, 4, 5, 7]
RULE = ('a case is (mixed Poisson variant, mesh, degree, sequence of solves: scheme, restart, tolerance, iteration budget, initial guess, pinned '
        'dofs, preconditioner; rank count, schedule, MPI semantics); it counts when its event sequence is new and something was simulated')
ASSUMPTIONS = ['simulated MPI (dsim/fakempi.py)', 'residuals are evaluated on the gathered dense system in double precision; the cycles of '
               'GMRES are compared with an independent serial GMRES (relative 1e-3) while the residual is above 1e-6 of the first one']


def solve(rng, v, big):
    s = rng.choice(['gmres', 'gmres', 'gmres', 'lgmres', 'lgmres', 'spsolve', 'ppsp'])
    a = dict(scheme=s)
    if s == 'gmres':
        a['kw'] = dict(atol=rng.choice([1e-3, 1e-5, 1e-6]), restart=rng.choice([1, 2, 3, 5, 8, 12, 20]), maxiter=rng.choice([1, 2, 5, 20, 60]))
    if s == 'lgmres':
        a['kw'] = dict(atol=rng.choice([1e-3, 1e-5, 1e-6]), inner_m=rng.choice([2, 3, 5, 8, 12]), outer_k=rng.choice([0, 1, 2, 4, 5]),
                       maxiter=rng.choice([1, 2, 5, 20, 40]))
    if s in ('gmres', 'lgmres'):
        a['x0'] = rng.choice([0, 'forms', 'forms'])
        a['safe'] = rng.choice([0, 0, 1])
    elif rng.random() < .5:
        a['x0'] = rng.choice([0, 'forms'])
    if rng.random() < .3:
        a['twice'] = True
    if rng.random() < .3 or v == 'periodic':
        a['pins'] = [[1 if v == 'periodic' else rng.choice([0, 1]), rng.randrange(1000), round(rng.uniform(-1, 1), 3)]]
        a['by'] = rng.choice(['local', 'global'])
    if rng.random() < .3 and v != 'periodic':
        a['preconditioner'] = 'Jacobian'
    return ['solve', a]


def mk(rng, mesh=None, n=None):
    d = C02.mk(rng, mesh, n)
    d['ops'] = [solve(rng, d['variant'], 0) for _ in range(rng.choice([2, 3, 4]))]
    if not any(o[1]['scheme'] == 'spsolve' for o in d['ops']) and rng.random() < .5:
        d['ops'].insert(0, ['solve', dict(scheme='spsolve')])
    return d


def cases(tier, rng):
    for n, ms in ((2, MESHES2), (3, MESHES3)):
        for m in ms:
            yield dict(spec=mk(rng, m, n), size=rng.choice(SIZES[1:]), cfg=gen.sched(rng))
    k = 0
    while tier != 'quick' or k < 80:
        yield dict(spec=mk(rng), size=rng.choice(SIZES[1:]), cfg=gen.sched(rng))
        k += 1


run = C02.run
simplify = C02.simplify

"""Marching programs driven by ph.iterator, with and without a cache file."""
import numpy as np

from progs import lib
from progs.lib import Obs

P = 1000003


class Tally:
    """a distributed integer state with the three things a cacheable object needs"""
    def __init__(self, COMM, name, n):
        self.COMM, self.name, self.n = COMM, name, n
        self.rank, self.size = COMM.Get_rank(), COMM.Get_size()
        self.x = {i: (7 * i + 3) % P for i in range(self.rank, n, self.size)}

    def step(self, key):
        key = int(round(key * 1000))
        for i in self.x:
            self.x[i] = (self.x[i] * 31 + key * 7 + i) % P

    def whole(self):
        d = {}
        for p in self.COMM.allgather(self.x):
            d.update(p)
        return [d[i] for i in sorted(d)]

    def _make_cache_data(self, t=None):
        g = self.COMM.gather(self.x, root=0)
        if self.rank == 0:
            d = {}
            for p in g:
                d.update(p)
            return d
        return None

    def _read_cache_data(self, data):
        assert (data is None) == (self.rank != 0)
        data = self.COMM.bcast(data, root=0)
        self.x = {i: data[i] for i in range(self.rank, self.n, self.size)}


class Base:
    initials = (0., 0.)

    def observe(self):
        self.ctx.observe('exec')


class Count(Base):
    """two integer states, coupled"""
    names = ['total', 'mix']

    def __init__(self, ph, ctx, spec):
        self.COMM = ctx.mod('phyem.src.config').COMM
        self.a, self.b = Tally(self.COMM, 'a', spec.get('cells', 9)), Tally(self.COMM, 'b', 5)
        self.objs = [self.a, self.b]

    def step(self, key, other=0):
        self.a.step(key)
        self.b.step(key + self.a.whole()[0] % 10 + other)
        s = self.COMM.allreduce(sum(self.a.x.values()))
        return [float(s), float(self.COMM.allreduce(sum(self.b.x.values())) % 101)]

    def state(self, O):
        O.same['state'] = [self.a.whole(), self.b.whole()]


class Forms(Base):
    """explicit marching of the cochains of forms; only local arithmetic"""
    names = ['norm', 'time']

    def __init__(self, ph, ctx, spec):
        self.COMM = ctx.mod('phyem.src.config').COMM
        self.j = lib.setup(ph, spec, spec.get('scheme', 'msehtt-s'))
        self.dt = spec.get('dt', .125)
        for f in self.j.forms:
            f[0].reduce()
        self.objs = self.j.forms
        self.t = 0.

    def step(self, key, other=0):
        t = self.j.forms[0].cochain.newest
        for f in self.j.forms:
            c = f.cochain[f.cochain.newest]
            f[t + self.dt].cochain = {e: .9 * np.array(c[e]) + .1 * np.sin(3 * np.array(c[e]) + key) for e in f.cochain.gathering_matrix}
        return [float(sum(f[None].norm() for f in self.j.forms)), float(self.j.forms[0].cochain.newest)]

    def state(self, O):
        for i, f in enumerate(self.j.forms):
            O.same[f'{i}.t'] = float(f.cochain.newest)
            O.same[f'{i}.norm'] = float(f[None].norm())
            c = f.cochain[f.cochain.newest]
            for e in f.cochain.gathering_matrix:
                O.elem.setdefault(f'{i}', {})[e] = np.array(c[e])


class Flow(Base):
    """Navier-Stokes, a Newton solve per step"""
    names = ['energy', 'vorticity']

    def __init__(self, ph, ctx, spec):
        from progs import meevc
        self.COMM = ctx.mod('phyem.src.config').COMM
        self.m = meevc
        self.F = meevc.Flow(ph, dict(spec, steps=20))
        self.objs = [self.F.u, self.F.w, self.F.P]

    def step(self, key, other=0):
        F = self.F
        O = Obs()
        self.m.one_step(self.COMM, F, O, int(key), dict(scheme='Newton-Raphson', atol=1e-9, maxiter=8, where=3))
        return [float(F.u[None].norm()), float(F.w[None].norm())]

    def state(self, O):
        self.m.cochains(O, 'end', self.F)


KINDS = dict(count=Count, forms=Forms, flow=Flow)


def solver_of(ctx, spec, prob, time):
    stop = spec.get('stop')
    cost = spec.get('cost', 1.)

    def advance(k):
        r"""One step.

        Parameters
        ----------
        k :
            The step.

        Returns
        -------
        exit_code :
            0 or 1.
        message :
            Something to read.
        t :
            The step.
        A :
            A result.
        B :
            Another one.

        """
        if ctx.rank == 0:
            ctx.observe('exec', k, ctx.now())
        r = prob.step(k)
        time.sleep(cost)
        code = 1 if stop is not None and k == stop else 0
        if ctx.rank == 0:
            ctx.observe('done', k, ctx.now())
        return [code, ['step %r' % (k,), 'fine'], float(k), r[0], r[1]]
    return advance


def inputs_of(spec):
    i = spec['inputs']
    if i['kind'] == 'range':
        return [range(*i['args'])]
    if i['kind'] == 'list':
        return [list(i['args'])]
    raise ValueError(i)


def main(ph, ctx, spec, cached=True):
    import time
    O = Obs()
    prob = KINDS[spec['kind']](ph, ctx, spec)
    if 'j' in prob.__dict__:
        O.info['nbase'] = prob.j.nbase
    if 'F' in prob.__dict__:
        O.info['nbase'] = prob.F.nbase
    if not spec.get('draw'):
        mon = ctx.mod('phyem.tools.iterator.monitor').IteratorMonitor

        def _graphic_report(self, over):
            try:
                with open(self.name + '.png', 'wb') as f:
                    f.write(b'picture')
            except OSError:
                pass
        mon._graphic_report = _graphic_report
    elif spec['draw'] == 'sketch':
        import matplotlib.pyplot as plt

        def savefig(name, *a, **k):
            with open(name, 'wb') as f:
                f.write(b'picture')
        plt.savefig = savefig
    solver = solver_of(ctx, spec, prob, time)
    it = ph.iterator(solver, [0., 0., 0.], monitoring_factor=spec.get('factor', .6), name=spec.get('name', 'marching'))
    if cached:
        it.cache(*prob.objs, time=spec.get('cache_time', 8.), num=spec.get('num'),
                 **({'cache_filename': spec['file']} if spec.get('file') else {}))
    if ctx.rank == 0:
        ctx.observe('start', 0, ctx.now())
    for part in spec.get('parts') or [None]:
        inp = inputs_of(spec)
        if part is not None:
            inp = [x[part[0]:part[1]] for x in inp]
        it.run(*inp, pbar=bool(spec.get('pbar')))
    if ctx.rank == 0:
        ctx.observe('end', 0, ctx.now())
        O.root['RDF'] = {k: [float(v) for v in it.RDF[k]] for k in it.RDF}
        O.root['index'] = [int(i) for i in it.RDF.index]
    else:
        O.root['RDF'] = O.root['index'] = None
    O.same['exit'] = it.exit_code
    prob.state(O)
    return O.d()


def read_cache(ph, ctx, name):
    """what the cache file holds, through the package's own reader"""
    import os
    if not os.path.isfile(name + '.phc'):
        return None
    c = ctx.mod('phyem.tools.iterator.cache_reader').cache_reader(name)
    ks = []
    for r in c['computed inputs'][0]:
        ks += list(r)
    ks += c['computed inputs'][1] + c['computed inputs'][2]
    return dict(keys=ks, res={k: list(v) for k, v in c['RES'].items()}, log=c.get('log', ''), has=c['cache data'] is not None)

"""Parameter studies with ph.run (the matrix runner), resumable through its text file."""
import math

from progs.lib import Obs

STRINGS = ('ITC', 'TTC', 'ERT')


def solver_of(ctx, spec, COMM, time):
    def study(a, b, c, q=0, scale=1.):
        r"""A study.

        Parameters
        ----------
        a :
            One.
        b :
            Two.
        c :
            Three.

        Returns
        -------
        d :
            Result.
        e :
            Another.
        f :
            And one that may be nan.

        """
        if ctx.rank == 0:
            ctx.observe('exec', [a, b, c])
        s = COMM.allreduce(ctx.rank + 1)
        s -= ctx.size * (ctx.size + 1) // 2
        time.sleep(spec.get('cost', 1.))
        x = math.sin(a * 1.7 + b * .3) * math.exp(-.1 * abs(c)) / 3 + q + s
        return x * scale, a * b, (math.nan if spec.get('nan') and a == b else 10. ** (-(a % 5)) * (c + 1))
    return study


def rows(R):
    ks = [k for k in R.keys() if k not in STRINGS]
    return [[float(R[k][i]) for k in ks] for i in R.index], list(R.keys()), [int(i) for i in R.index]


def main(ph, ctx, spec, tofile=True):
    import time
    O = Obs()
    COMM = ctx.mod('phyem.src.config').COMM
    run = ph.run(solver_of(ctx, spec, COMM, time))
    if ctx.rank == 0:
        ctx.observe('start')
    kw = dict(spec.get('kw') or {})
    run.iterate(spec['I'][0], spec['I'][1], spec['I'][2], writeto=spec.get('file', 'study.txt') if tofile else None, **kw)
    if ctx.rank == 0:
        ctx.observe('end')
    O.same['rows'], O.same['cols'], O.same['index'] = rows(run.results)
    return O.d()


def read(ph, ctx, spec):
    O = Obs()
    d = ph.rdr(spec.get('file', 'study.txt'))
    O.same['rows'], O.same['cols'], O.same['index'] = rows(d.results)
    try:
        d.iterate([[1]], [[1]], [1])
        O.same['locked'] = False
    except Exception as e:
        O.same['locked'] = 'locked' in str(e)
    return O.d()

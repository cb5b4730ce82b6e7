"""Several programs one after another in one session (a parameter study does that): each as if it were alone."""
import importlib
import random

import numpy as np

from progs.lib import Obs


def main(ph, ctx, spec):
    O = Obs()
    O.info['nbase'] = 10 ** 9
    for q, job in enumerate(spec['jobs']):
        # random numbers as at the start of a run (dsim/world.py)
        random.seed(f'0/{ctx.rank}')
        np.random.seed(17 * ctx.rank)
        m = importlib.import_module('progs.' + job['prog'])
        r = m.main(ph, ctx, dict(job['spec'], label=f'{q}:'))
        for part in ('same', 'elem', 'root'):
            for k, v in r[part].items():
                getattr(O, part)[f'{q}:{k}'] = v
        for c in r['checks']:
            O.checks.append((f'{q}:{c[0]}',) + tuple(c[1:]))
        O.info['nbase'] = min(O.info['nbase'], r['info'].get('nbase', 10 ** 9))
        O.info[f'{q}'] = r['info']
        if job.get('clear', True):
            ph.clear_forms()
    return O.d()

"""C09: what an iterator records on disk, and that trouble with the records never touches the results"""
import copy
import io
import os
from checks import gen
from dsim.check import Fail, must_be_ok
from dsim.engine import observed
from progs import compare

SIZES = [1, 2, 3, 4]
RULE = ('a case is (inputs, cost per step, monitoring factor, rank count, schedule, faults on the csv and png files: refused, failing, full disk, short and torn writes, '
        'repeated up to for ever; kill; clock jump); it counts when its event sequence is new')
ASSUMPTIONS = ['simulated MPI (dsim/fakempi.py)', 'in most cases the picture itself is not drawn, only its file is written']


def cases(tier, rng):
    for d in range(4 if tier == 'quick' else 12):
        yield dict(spec=spec_(rng, draw=True), size=rng.choice([1, 2]), cfg=dict(faults=faults(rng, draw=True)))
    for d in range(24 if tier == 'quick' else 100):
        s = spec_(rng, draw='sketch')
        yield dict(spec=s, size=rng.choice([1, 2, 3]), cfg=dict(gen.sched(rng), faults=[dict(
            on='io', kind=rng.choice(['eacces', 'eio', 'enospc']), op=['open-w', 'write'], path='.png', nth=rng.randint(1, 3), times=rng.choice([1, 10000]))]))
    for kind in ('eacces', 'eio', 'enospc'):
        for times in (1, 3, 9, 10000):
            for nth in (1, 3):
                yield dict(spec=spec_(rng), size=rng.choice(SIZES),
                           cfg=dict(gen.sched(rng), faults=[dict(on='io', kind=kind, op=['open-w', 'write'], path='.csv', times=times, nth=nth)]))
    k = 0
    while tier != 'quick' or k < 160:
        yield dict(spec=spec_(rng), size=rng.choice(SIZES), cfg=dict(gen.sched(rng), faults=faults(rng)))
        k += 1


def spec_(rng, draw=False):
    n = rng.choice([1, 2, 6, 15, 40]) if not draw else rng.choice([1, 5, 12])
    s = dict(kind='count', inputs=dict(kind='range', args=[0, n]) if rng.random() < .7 else dict(kind='list', args=[.1 * i for i in range(n)]),
             cost=rng.choice([0., .01, 3., 100., 5000.]), factor=rng.choice([0., .3, .6, .9, 1.] if not draw else [0., .6]), name=rng.choice(['marching', 'a b']))
    if rng.random() < .2:
        v = s['inputs']['args'] if s['inputs']['kind'] == 'list' else list(range(n))
        s['stop'] = rng.choice(v)
    if draw:
        s['draw'] = draw
    return s


def faults(rng, draw=False):
    out = []
    r = rng.random()
    if r < .3 and not draw:
        out.append(dict(on='step', kind='crash', at=int(10 ** rng.uniform(1, 3.2))))
    elif r < .45 and not draw:
        out.append(dict(on='io', kind='crash', op=['open-w', 'write'], path=rng.choice(['.csv', '.csv', '.png']), nth=rng.randint(1, 9), frac=rng.choice([0, .4, 1])))
    elif r < .8:
        out.append(dict(on='io', kind=rng.choice(['eacces', 'eio', 'enospc']), op=['open-w', 'write'], path=rng.choice(['.csv', '.png']), nth=rng.randint(1, 6),
                        times=rng.choice([1, 1, 2, 9, 10000]), frac=rng.choice([0, .5])))
    elif r < .85:
        out.append(dict(on='io', kind='short', op=['write'], path='.csv', nth=rng.randint(1, 6), frac=.5))
    if rng.random() < .2:
        out.append(dict(on='step', kind='clock', at=rng.randint(5, 200), dt=rng.choice([-1e5, -100., 100., 1e5])))
    if rng.random() < .2:
        out.append(dict(on='step', kind='stall', at=rng.randint(5, 200), rank=rng.randrange(4), dt=rng.choice([10., 1e4])))
    return out


def run(R, case):
    spec = case['spec']
    ref = R.ref('progs.iterate', 'main', (dict(spec, draw=False), False))
    must_be_ok(ref, 'serial run')
    rdf = ref.results[0]['root']['RDF']
    root = R.dir()
    size = case['size']
    fs = case['cfg'].get('faults') or []
    r = R.phase(size, 'progs.iterate', 'main', (spec, False), cfg=case['cfg'], root=root)
    killed = r.status == 'crashed' and any(f['kind'] == 'crash' for f in fs)
    if not killed:
        must_be_ok(r, f'{size} ranks with {fs}')
        d = compare.against(r.results, ref.results, 0, 0)
        if d:
            raise Fail(d[0], f'{size} ranks with {fs}: {d[1]}')
        R.tag('completed')
    rows = table(os.path.join(root, 'w', spec['name'] + '.csv'))
    hurt = [f for f in fs if f['on'] == 'io' and f.get('path') == '.csv' and f['kind'] != 'short']
    forever = any(f.get('times', 1) > 20 for f in hurt)
    torn = any(f['kind'] == 'crash' or forever for f in hurt)
    cols = list(rdf)
    if rows is not None:
        bad = []
        for i, row in enumerate(rows):
            if i == 0:
                want = [''] + cols
            else:
                want = [str(i - 1)] + [repr(float(rdf[c][i - 1])) if i - 1 < len(rdf[c]) else None for c in cols]
            if row != want and not same(row, want):
                bad.append((i, row, want))
        if bad and not (forever and any(f.get('frac') for f in hurt)) and not (torn and bad[0][0] == len(rows) - 1):
            raise Fail('record', f'{size} ranks with {fs}: line {bad[0][0]} of the csv file reads {bad[0][1]}, computed {bad[0][2]}')
    have = 0 if rows is None else max(len(rows) - 1, 0)
    if not killed and not forever and have != len(rdf['t']):
        raise Fail('record-end', f'{size} ranks with {fs}: {have} rows in the csv file at the end, {len(rdf["t"])} computed')
    if not killed:
        pic = os.path.join(root, 'w', spec['name'] + '.png')
        if not any(f.get('path') == '.png' for f in fs) and not (os.path.exists(pic) and os.path.getsize(pic) > 0):
            raise Fail('picture', f'{size} ranks with {fs}: no picture at the end')
    # saved often enough
    if killed and not hurt and not any(f['kind'] == 'clock' for f in fs):
        ev = observed(root)
        t1 = max(e[2] for e in ev)
        ts = sorted(e[2] for e in ev)
        gap = max([b - a for a, b in zip(ts, ts[1:])] or [0])
        ast = 600 * (1 - spec['factor'])
        due = len([e for e in ev if e[0] == 'done' and t1 - e[2] > ast + 2 * gap + 5])
        if have < due + (1 if due else 0):
            raise Fail('record-late', f'{size} ranks with {fs}: {due} steps were done more than {ast:.0f} s before the job was killed, {have} rows were saved')
        if due:
            R.tag('autosaved')


def table(p):
    if not os.path.exists(p):
        return None
    import csv
    with open(p, newline='') as f:
        return list(csv.reader(f))


def same(row, want):
    try:
        return len(row) == len(want) and all(abs(float(a) - float(b)) <= 1e-12 * max(1, abs(float(b))) for a, b in zip(row, want))
    except (TypeError, ValueError):
        return False


def simplify(case):
    def mk(f):
        d = copy.deepcopy(case)
        f(d)
        return d
    if case['size'] > 1:
        yield mk(lambda d: d.__setitem__('size', case['size'] - 1))
    for k in ('stop', 'draw'):
        if case['spec'].get(k):
            yield mk(lambda d: d['spec'].pop(k))
    for k in ('gc', 'skew', 'ids'):
        if k in case['cfg']:
            yield mk(lambda d: d['cfg'].pop(k))

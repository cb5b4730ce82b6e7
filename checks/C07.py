"""C07: a form saved by one job is what another job, on other ranks, reads; and nothing else is ever read"""
import copy
import os
from checks import gen, hist
from dsim.check import Fail, must_be_ok
from dsim.engine import observed
from progs import compare

SIZES = [1, 2, 3, 4, 5, 7, 11]
RULE = ('a case is (mesh, degree, three forms; per life of the job: operations on the forms that store, combine, save and read files, rank count, schedule, fault: kill at a '
        'scheduler step or file operation, disk error, full disk, torn write); it counts when its event sequences are new')
ASSUMPTIONS = ['simulated MPI (dsim/fakempi.py)', 'a killed process loses its unflushed buffers; what was handed to the system survives',
               'a file left by an interrupted save may be refused, or hold the old or the new content']
FILES = {0: ['a.mse', 'b'], 1: ['a.mse', 'b'], 2: ['d c.phc']}


def life(rng, files, fault=None, read_first=False):
    """operations of a life; -> life, files afterwards"""
    times = rng.sample(hist.TIMES, 3)
    ops, have = [], dict(files)
    if read_first:
        f = rng.choice(sorted(have)) if read_first is True else read_first
        ops.append(['read', have[f], f])
    for _ in range(rng.choice([1, 2, 3, 5])):
        r = rng.random()
        i = rng.choice([0, 0, 1, 2])
        if r < .35 or not ops:
            ops.append(['set', i, rng.choice(times), round(rng.random(), 3)])
        elif r < .45:
            ops.append(rng.choice([['diff', i] + [rng.choice(times) for _ in range(3)], ['auto', rng.choice([False, 2, 4])],
                                   ['clean', i, rng.choice([None, 'all', -2])], ['interp', i, rng.choice(times), rng.choice(times)]]))
        elif r < .8 or not have:
            f = rng.choice(FILES[i])
            ops.append(['set', i, rng.choice(times), round(rng.random(), 3)])
            ops.append(['save', i, f, rng.choice([None, None, None, 1, 2])])
            have[f] = i
        else:
            f = rng.choice(sorted(have))
            j = have[f]
            ops.append(['read', 1 - j if j < 2 and rng.random() < .4 else j, f])
    if fault:
        f = rng.choice(FILES[0])
        ops.append(['set', 0, times[0], round(rng.random(), 3)])
        ops.append(['save', 0, f, None])
        have[f] = 0
    d = dict(size=rng.choice(SIZES), cfg=gen.sched(rng), ops=ops)
    if fault:
        d['cfg'].pop('gc', None)
        d['cfg']['faults'] = [fault]
    return d, have


def fault(rng):
    r = rng.random()
    if r < .25:
        return dict(on='step', kind='crash', at=int(10 ** rng.uniform(1.5, 3.6)))
    if r < .65:
        return dict(on='io', kind='crash', op=['open-w', 'write'], nth=int(10 ** rng.uniform(0, 1)), frac=rng.choice([0, .2, .5, .9, .99, 1.]))
    if r < .9:
        return dict(on='io', kind=rng.choice(['eio', 'enospc', 'eacces']), op=rng.choice([['write', 'open-w'], ['open-w', 'write', 'open-r', 'read']]), nth=rng.randint(1, 6),
                    frac=rng.choice([0, .5, .9]))
    return dict(on='io', kind='short', op=['write'], nth=rng.randint(1, 4), frac=.5)


def mk(rng, x, faulty):
    n, d, m = x
    out, have = [], {}
    for k in range(rng.choice([2, 2, 3, 4])):
        f = fault(rng) if faulty and rng.random() < .6 else None
        first = bool(have) and (k > 0)
        l, have = life(rng, have, f, first)
        out.append(l)
    for f in sorted(have):
        l = dict(size=rng.choice(SIZES), cfg=gen.sched(rng), ops=[['read', have[f], f]])
        out.append(l)
    return dict(n=n, degree=d, mesh=copy.deepcopy(m), forms=hist.forms(rng, n), norms=hist.norms(m), lives=out)


def other(rng, n, d, m):
    """another mesh, or another degree, whose forms cannot take the file"""
    m = copy.deepcopy(m)
    if rng.random() < .5:
        return d % 3 + 1 if isinstance(d, int) else 1, m
    if m['kind'] in ('crazy', 'rectangle') and not m.get('periodic'):
        b = m.get('bounds', [[0, 1]] * n)
        i = rng.randrange(n)
        m['bounds'] = [[x[0], x[1] + (rng.choice([1, .1, .002]) if q == i else 0)] for q, x in enumerate(b)]
        return d, m
    return d % 3 + 1 if isinstance(d, int) else 1, m


def cases(tier, rng):
    for x in gen.DIRECTED:
        if x[2]['kind'] != 'cylinder_channel':
            yield mk(rng, x, False)
    # two jobs on two rank counts, small and large domains
    for s in (1e-5, 1e-4, 1e-2, 20.):
        for n, d, m in ((2, 1, dict(kind='crazy', n=2, K=3, c=.1)), (2, 2, dict(kind='rectangle', K=3)), (3, 1, dict(kind='crazy', n=3, K=2, c=.1)),
                        (2, 1, dict(kind='rectangle', K=[3, 4], renumbering=True)), (2, 1, dict(kind='crazy', n=2, K=2, c=0., trf=1))):
            yield mk(rng, (n, d, dict(m, bounds=[[0, s], [-s, s], [s, 2 * s]][:n])), False)
    for _ in range(14 if tier == 'quick' else 60):
        n, d, m = hist.mesh(rng)
        c = mk(rng, (n, d, m), False)
        c['lives'] = c['lives'][:1]
        c['lives'][0]['ops'] += [['set', 0, .5, .3], ['save', 0, 'x', None]]
        d2, m2 = other(rng, n, d, m)
        c['lives'].append(dict(size=rng.choice(SIZES), cfg=gen.sched(rng), ops=[['foreign', 0, 'x']], degree=d2, mesh=m2))
        yield c
    k = 0
    while tier != 'quick' or k < 90:
        yield mk(rng, hist.mesh(rng), k % 3 > 0)
        k += 1


def run(R, case):
    base = {k: v for k, v in case.items() if k != 'lives'}
    root = R.dir()
    past, torn, files, seen = [], {}, set(), 0
    for i, l in enumerate(case['lives']):
        todo, new = [], set(files)
        for op in l['ops']:           # what was never saved cannot be read
            if op[0] == 'save':
                new.add(op[2])
            if op[0] not in ('read', 'foreign') or op[2] in new:
                todo.append(op)
        spec = dict(base, ops=todo, past=past)
        for k in ('degree', 'mesh'):
            if k in l:
                spec[k] = l[k]
        if any(op[0] == 'foreign' for op in l['ops']):
            spec['past'] = []
        nb = R.ref('progs.store', 'count', (dict(spec, ops=[], past=[]),))
        must_be_ok(nb, 'mesh on one rank')
        size = gen.fit(l['size'], nb.results[0]['info']['nbase'], SIZES)
        faults = l['cfg'].get('faults') or []
        r = R.phase(size, 'progs.store', 'main', (spec,), cfg=l['cfg'], root=root)
        what = f'life {i} on {size} ranks'
        ev = observed(root)
        ev, seen = ev[seen:], len(ev)
        left = {str(e[1]): e[2] for e in ev if e[0] == 'end' and len(e) > 2}
        ended = {e[1] for e in ev if e[0] == 'end'}
        begun = [e[1] for e in ev if e[0] == 'begin' and e[1] not in ended]
        reads = {str(e[1]): e[2] for e in ev if e[0] == 'read'}
        ops = [op for k, op in enumerate(todo) if k in ended]
        cut = None
        if begun:
            op = todo[begun[0]]
            if op[0] == 'save':
                cut = op
        now = None if not begun else todo[begun[0]]
        if r.status == 'ok':
            d = [x for x in [compare.ranks_agree(r.results), compare.oracles(r.results)] if x]
            if d:
                raise Fail(d[0][0].split('.')[-1], f'{what}: {d[0][1]}')
            if any(op[0] == 'foreign' for op in l['ops']):
                raise Fail('foreign', f'{what}: a form of another mesh or degree took the file')
        elif r.status == 'exception' and '(injected)' in r.msg and faults:
            R.tag('died of a disk error')
        elif r.status == 'crashed' and faults:
            R.tag('killed')
        elif r.status == 'exception' and now and now[0] == 'read' and now[2] in torn:
            R.tag('torn file refused')
        elif r.status == 'exception' and now and now[0] == 'foreign':
            R.tag('foreign file refused')
        else:
            must_be_ok(r, what)
        # what the next lives find
        for op in ops:
            if op[0] == 'save':
                torn.pop(op[2], None)
                files.add(op[2])
        if cut:
            torn[cut[2]] = True
            files.add(cut[2])
            ops = ops + [cut]
        if not any(op[0] == 'foreign' for op in l['ops']):
            past = past + [dict(ops=ops, cut=bool(cut), reads=reads, left=left)]


def simplify(case):
    def mk_(f):
        d = copy.deepcopy(case)
        f(d)
        return d
    for i in range(len(case['lives'])):
        if len(case['lives']) > 1:
            yield mk_(lambda d: d['lives'].pop(i))
    for i, l in enumerate(case['lives']):
        if l['size'] > 1:
            yield mk_(lambda d: d['lives'][i].__setitem__('size', SIZES[SIZES.index(l['size']) - 1]))
        for k in range(len(l['ops'])):
            if len(l['ops']) > 1:
                yield mk_(lambda d: d['lives'][i]['ops'].pop(k))
        if l['cfg'].get('faults'):
            yield mk_(lambda d: d['lives'][i]['cfg'].pop('faults'))
    if case['degree'] != 1:
        yield mk_(lambda d: d.__setitem__('degree', 1))

"""C11: exported and pickled files hold what was exported, and are read back by any later job, whatever was interrupted"""
import copy
import os
import numpy as np
from checks import gen, hist
from dsim.check import Fail, must_be_ok
from dsim.engine import observed
from progs import compare, export

SIZES = [1, 2, 3, 4, 5, 7]
RULE = ('a case is (mesh, degree, forms; per life of the job: exports of forms and objects to files, reads of files, rank count, schedule, fault: kill, disk error, full disk, '
        'torn or short write); it counts when its event sequences are new')
ASSUMPTIONS = ['simulated MPI (dsim/fakempi.py)', 'a killed process loses its unflushed buffers; what was handed to the system survives',
               'a file whose writing was interrupted may be refused, or hold the old or the new content', 'vtk files are parsed by progs/export.py']
VTK = {'crazy', 'rectangle', 'quad', 'backward_step'}
EXT = dict(rws='.dds', group='.grp', named='.ngr', tsf='.tsf', vtk='.vtu', xvtk='.vtu', pk='.pkl')


def mesh(rng):
    while True:
        n, d, m = gen.rand_mesh(rng)
        if m['kind'] not in ('cylinder_channel', 'meshpy') and not (n == 3 and m.get('c')):
            return n, d if isinstance(d, list) else min(d, 2), m


def can_vtk(m):
    return m['kind'] in VTK and 'trf' not in m and 'ts' not in m and not (m['kind'] == 'crazy' and m.get('n') == 3 and m.get('c'))


def write(rng, c):
    n, m = c['n'], c['mesh']
    kinds = ['rws', 'rws', 'group', 'named', 'pk', 'pk']
    if n == 3:
        kinds += ['tsf'] * 3
    if can_vtk(m):
        kinds += ['vtk', 'vtk', 'xvtk']
    o = rng.choice(kinds)
    name = rng.choice(['a', 'b', 'long name'][:2 if o in ('vtk', 'xvtk') else 3]) + EXT[o]
    if o == 'pk':
        return ['pk', rng.randrange(1000), name]
    i = rng.sample([0, 1, 2], rng.choice([1, 2, 3])) if o in ('group', 'named', 'vtk') else rng.randrange(3)
    return [o, i, name, rng.choice([0, .5, 2, 1 / 3]), round(rng.random(), 3), rng.choice([.01, .03] if n == 3 or o != 'rws' else [.01, .05, .2])]


def kind_of(op):
    return op[0] if op[0] in ('pk', 'tsf') else 'rws' if op[0] in ('rws', 'group', 'named') else 'vtk'


def fault(rng):
    r = rng.random()
    if r < .25:
        return dict(on='step', kind='crash', at=int(10 ** rng.uniform(1., 3.)))
    if r < .65:
        return dict(on='io', kind='crash', op=['open-w', 'write'], nth=int(10 ** rng.uniform(0, 1.2)), frac=rng.choice([0, .2, .5, .9, .99, 1.]))
    if r < .9:
        return dict(on='io', kind=rng.choice(['eio', 'enospc', 'eacces']), op=rng.choice([['write', 'open-w'], ['open-w', 'write', 'open-r', 'read']]), nth=rng.randint(1, 6),
                    frac=rng.choice([0, .5, .9]))
    return dict(on='io', kind='short', op=['write'], nth=rng.randint(1, 6), frac=.5)


def mk(rng, x, faulty):
    n, d, m = x
    c = dict(n=n, degree=d, mesh=copy.deepcopy(m), forms=rng.sample(gen.F2 if n == 2 else gen.F3, 3), writes=[], lives=[])
    have = {}
    for k in range(rng.choice([1, 2, 2, 3])):
        ops = []
        if have and rng.random() < .5:
            f = rng.choice(sorted(have))
            ops.append(['read', have[f], f])
        for _ in range(rng.choice([1, 2, 3])):
            if have and rng.random() < .4:
                f = rng.choice(sorted(have))
                ops.append(['read', 'pkm' if have[f] == 'pk' and rng.random() < .4 else have[f], f])
            else:
                w = write(rng, c)
                c['writes'].append(w)
                ops.append(['write', len(c['writes']) - 1])
                if kind_of(w) != 'vtk':
                    have[w[2]] = kind_of(w)
        l = dict(size=rng.choice(SIZES), cfg=gen.sched(rng), ops=ops)
        if faulty and rng.random() < .7:
            l['cfg'].pop('gc', None)
            l['cfg']['faults'] = [fault(rng)]
        c['lives'].append(l)
    for f in sorted(have):
        c['lives'].append(dict(size=rng.choice(SIZES), cfg=gen.sched(rng), ops=[['read', have[f], f]]))
    return c


def cases(tier, rng):
    for x in gen.DIRECTED:
        if x[2]['kind'] not in ('cylinder_channel', 'meshpy') and not (x[0] == 3 and x[2].get('c')):
            yield mk(rng, x, False)
    k = 0
    while tier != 'quick' or k < 130:
        yield mk(rng, mesh(rng), k % 3 > 0)
        k += 1


def same(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all((np.abs(a - b) <= tol + tol * np.abs(b)) | (a == b) | np.isnan(a) & np.isnan(b)))


def differs(kind, op, got, want):
    if kind in ('pk', 'pkm'):
        return None if got == want else f'read {str(got)[:150]}, saved {str(want)[:150]}'
    if kind == 'tsf':
        pts, vals = want
        for p, v, g in zip(pts, vals, got):
            if not same(g, v, 1e-8):
                return f'at {p} read {g}, exported {v}'
        return None
    rows = got['rows']
    if sorted(rows) != sorted(want):
        return f'regions {sorted(rows)[:9]}, exported {sorted(want)[:9]}'
    for e in rows:
        if len(rows[e]) != len(want[e]):
            return f'{len(rows[e]) - 1} variables, exported {len(want[e]) - 1}'
        for q, (a, b) in enumerate(zip(rows[e], want[e])):
            if len(a) != len(b) or not all(same(x, y) for x, y in zip(a, b)):
                return f'{"coordinates" if q == 0 else "variable %d" % (q - 1)} in region {e} differ'
    if op[0] == 'group' and got['names'] != [str(q) for q in range(len(got['names']))] or op[0] == 'named' and got['names'] != [f'v{q}' for q in range(len(got['names']))]:
        return f'variables are named {got["names"]}'
    for q in range(1, len(next(iter(want.values())))):
        mx = [max(float(np.max(np.abs(want[e][q][c]))) for e in want) for c in range(len(got['mx'][q - 1]))]
        if not same(got['mx'][q - 1], mx):
            return f'maximum {got["mx"][q - 1]}, exported {mx}'
    return None


def run(R, case):
    base = {k: v for k, v in case.items() if k != 'lives'}
    ref = R.ref('progs.export', 'expect', (base,))
    must_be_ok(ref, 'serial run')
    want = ref.results[0]['root']['want']
    root = R.dir()
    may, seen = {}, 0          # file -> the writes it may come from, None: it may be refused
    for i, l in enumerate(case['lives']):
        todo, known = [], dict(may)
        points = {}
        for op in l['ops']:
            if op[0] == 'write':
                known[case['writes'][op[1]][2]] = [op[1]]
            elif op[2] not in known:
                continue
            elif op[1] == 'tsf':
                w = [x for x in known[op[2]] if x is not None]
                points[str(len(todo))] = want[w[0]][0]
            todo.append(op)
        size = gen.fit(l['size'], ref.results[0]['info']['nbase'], SIZES)
        faults = l['cfg'].get('faults') or []
        r = R.phase(size, 'progs.export', 'main', (dict(base, ops=todo, points=points),), cfg=l['cfg'], root=root)
        what = f'life {i} on {size} ranks with {faults}'
        ev = observed(root)
        ev, seen = ev[seen:], len(ev)
        ended = {e[1] for e in ev if e[0] == 'end'}
        begun = [e[1] for e in ev if e[0] == 'begin' and e[1] not in ended]
        now = todo[begun[0]] if begun else None
        if r.status == 'ok':
            d = [x for x in [compare.ranks_agree(r.results), compare.oracles(r.results)] if x]
            if d:
                raise Fail(d[0][0].split('.')[-1], f'{what}: {d[0][1]}')
        elif r.status == 'exception' and '(injected)' in r.msg and faults:
            R.tag('died of a disk error')
        elif r.status == 'crashed' and faults:
            R.tag('killed')
        elif r.status == 'exception' and now and now[0] == 'read' and None in may.get(now[2], []):
            R.tag('torn file refused')
        else:
            must_be_ok(r, what)
        for k, op in enumerate(todo):
            if op[0] == 'write':
                w = case['writes'][op[1]]
                if k in ended:
                    may[w[2]] = [op[1]]
                elif begun and k == begun[0]:
                    may[w[2]] = may.get(w[2], []) + [op[1], None]
            elif k in ended and r.status == 'ok':
                kind, name = op[1], op[2]
                got = r.results[0]['same'].get(str(k), r.results[0]['root'].get(str(k)))
                ds = [differs(kind, case['writes'][w], got, want[w]) for w in may[name] if w is not None]
                if kind == 'tsf' and len(ds) > 1:
                    continue           # the points were of one of the candidates
                if all(ds):
                    raise Fail('content', f'{what}, {op}: {ds[0]}')
        if r.status == 'ok' or not faults:
            for k, op in enumerate(todo):
                if op[0] == 'write' and k in ended and case['writes'][op[1]][0] in ('vtk', 'xvtk') and may[case['writes'][op[1]][2]] == [op[1]]:
                    w = case['writes'][op[1]]
                    try:
                        d = export.vtu_differs(os.path.join(root, 'w', w[2]), want[op[1]])
                    except (OSError, ValueError, KeyError, IndexError) as e:
                        d = f'{type(e).__name__}: {e}'
                    R.tag('vtk')
                    if d:
                        raise Fail('vtk', f'{what}: {w}: {d}')


def simplify(case):
    def mk_(f):
        d = copy.deepcopy(case)
        f(d)
        return d
    for i in range(len(case['lives'])):
        if len(case['lives']) > 1:
            yield mk_(lambda d: d['lives'].pop(i))
    for i, l in enumerate(case['lives']):
        if l['size'] > 1:
            yield mk_(lambda d: d['lives'][i].__setitem__('size', SIZES[SIZES.index(l['size']) - 1]))
        for k in range(len(l['ops'])):
            if len(l['ops']) > 1:
                yield mk_(lambda d: d['lives'][i]['ops'].pop(k))
        if l['cfg'].get('faults'):
            yield mk_(lambda d: d['lives'][i]['cfg'].pop('faults'))
    if case['degree'] != 1:
        yield mk_(lambda d: d.__setitem__('degree', 1))

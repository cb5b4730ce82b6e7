"""C21: pictures show what a serial run shows, on any number of ranks, and drawing changes nothing; the picture album survives"""
import copy
import os
import numpy as np
from checks import gen
from dsim.check import Fail, must_be_ok
from dsim.engine import observed
from progs import compare

SIZES = [1, 2, 3, 4, 5, 7]
RULE = ('a case is (mesh, degree, boundary split, list of pictures: great mesh, elements, refinement hierarchy, boundary sections, fields, quick views, degrees of freedom, '
        'functions, data sets, with options; rank count, schedule, MPI semantics) or a history of sessions that draw into the picture cache (clock, listing order, kill at a '
        'file operation, disk error per session); it counts when its event sequence is new')
ASSUMPTIONS = ['simulated MPI (dsim/fakempi.py)', 'matplotlib runs up to the rendering: lines, points, arrows, contour data, titles and file names are what is compared; '
               'colours and pixels are not', 'numbers with relative tolerance 1e-7']
FORMS = [[0, 'outer'], [0, 'inner'], [1, 'outer'], [1, 'inner'], [2, 'outer'], [2, 'inner']]
ORTHO = ('rectangle',)


def rand_op(rng, i, mesh, n):
    o = dict(label=i, save=rng.random() < .75)
    flat = mesh['kind'] == 'rectangle' and 'trf' not in mesh
    names = ['mesh', 'elements', 'boundary', 'boundary', 'field', 'field', 'data', 'data', 'quick', 'function']
    if n == 3:
        names = ['mesh', 'elements', 'boundary', 'boundary']
    if mesh.get('periodic'):
        names = [x for x in names if x != 'boundary']
    if mesh.get('ts') == 1 and n == 2:
        names += ['ts', 'ts']
    if n == 2 and (flat or mesh['kind'] == 'crazy' and not mesh['c'] and 'trf' not in mesh):
        names += ['dofs', 'dofs']
    name = rng.choice(names)
    kw = {}
    outline = flat or mesh['kind'] in ('quad', 'tqr') and 'trf' not in mesh
    if name in ('mesh', 'elements', 'ts', 'dofs'):
        if n == 2:
            kw['usetex'] = False
        if rng.random() < .4:
            kw['ddf'] = rng.choice([.3, 2, .05, 5])
        if rng.random() < .3:
            kw['title'] = rng.choice([False, 'a title'])
        if name == 'mesh' and n == 2:
            r = rng.random()
            if r < .25:
                kw['rank_wise_colored'] = True
            elif r < .45 and flat:
                kw['internal_grid'] = rng.choice([1, 2, 3, True])
            elif r < .65 and mesh['kind'] in ('tqr',):
                kw['quality'] = True
    elif name == 'boundary':
        o['which'] = rng.randrange(3)
        if rng.random() < .3:
            kw['title'] = rng.choice([False, 'a title'])
        if rng.random() < .4:
            kw['ddf'] = rng.choice([.3, 2, .05, 5])
    else:
        k = rng.choice([0, 1, 2])
        o.update(t=rng.choice([0, .5]), ddf=rng.choice([.3, .5, 1]))
        if name == 'quick':
            o['ddf'] = .1
            o['which'] = rng.choice([i for i, f in enumerate(FORMS) if f[0] == k])
            if k == 1:
                o['two'], o['save'] = True, False
        else:
            if name == 'function':
                o.update(k=k, shift=round(rng.random(), 2), factor=rng.choice([.3, .5, 1]))
            else:
                o['which'] = rng.choice([i for i, f in enumerate(FORMS) if f[0] == k])
            kw['plot_type'] = rng.choice(['contour', 'contourf', 'contourf'])
            if rng.random() < .4:
                kw['magnitude'] = True
            if rng.random() < .4:
                kw['level_range'] = [-.2, round(rng.uniform(.1, .6), 2)]
            if rng.random() < .4:
                kw['num_levels'] = rng.choice([5, 12])
            if rng.random() < .3:
                kw['title'] = 'a title'
            if name == 'field' and outline and rng.random() < .4:
                o['outline'] = True
            if k == 1:
                if rng.random() < .4:
                    kw['norm'] = True
                else:
                    o['two'] = True
    o['kw'] = kw
    return [name, o]


def mk(rng, x=None):
    n, d, m = copy.deepcopy(x) if x else gen.draw_mesh(rng)
    if not x:
        while m['kind'] == 'crazy' and n == 3 and rng.random() < .7:
            n, d, m = gen.draw_mesh(rng)
    forms = FORMS if n == 2 else gen.F3[:1]
    return dict(n=n, degree=min(d, 2) if n == 2 else 1, forms=forms, mesh=m, sides=[[-1, 0], [0, 1]] if n == 2 else [[-1, 0, 0], [0, 1, 0]],
                ops=[rand_op(rng, i, m, n) for i in range(rng.randint(3, 6))], variant=round(rng.random(), 3))


def album(rng):
    """sessions that draw into the picture cache"""
    lives, t = [], 1000000
    for i in range(rng.randint(3, 11)):
        t += rng.choice([3, 5, 7, 1000])
        cfg = gen.sched(rng)
        cfg['dirorder'] = rng.choice(['sorted', 'reversed', 'shuffled'])
        cfg['t0'] = t
        cfg.pop('skew', None)
        if rng.random() < .3:
            r = rng.random()
            f = dict(on='io', op=['open-w', 'write', 'mkdir', 'remove', 'rmdir'], path='', nth=rng.randint(1, 12))
            if r < .7:
                f.update(kind='crash', frac=rng.choice([0, .5, 1.]))
            else:
                f.update(kind=rng.choice(['eio', 'enospc', 'eacces']))
            cfg['faults'] = [f]
        lives.append(dict(size=rng.choice([1, 1, 2, 3]), cfg=cfg, ops=[rng.choice(['draw', 'draw', 'draw', 'new']) for _ in range(rng.randint(1, 5))]))
    return dict(lives=lives)


def cases(tier, rng):
    n = 0
    for x in gen.DIRECTED:
        if n % 2 == rng.randrange(2) or tier != 'quick':
            yield dict(spec=mk(rng, x), size=rng.choice(SIZES[1:]), cfg=gen.sched(rng))
        n += 1
    n = 0
    while tier != 'quick' or n < 90:
        yield dict(album=album(rng)) if n % 6 == 5 else dict(spec=mk(rng), size=rng.choice(SIZES[1:]), cfg=gen.sched(rng))
        n += 1


def archive(root):
    """folder -> {picture: (life, session, number) or what else is in it}"""
    top = os.path.join(root, 'w', '__phcache__')
    out = {}
    for d in sorted(os.listdir(top)) if os.path.isdir(top) else []:
        out[d] = {}
        for x in os.listdir(os.path.join(top, d)):
            b = open(os.path.join(top, d, x), 'rb').read()
            try:
                out[d][x] = tuple(int(y) for y in b.decode().split('.'))
            except ValueError:
                out[d][x] = b
    return out


def run_album(R, case):
    root, seen = R.dir(), 0
    spec = dict(n=2, degree=1, forms=[], mesh=dict(kind='rectangle', K=[2, 2]))
    drawn, failed, order, sec = {}, 0, [], {}
    for i, l in enumerate(case['lives']):
        r = R.phase(l['size'], 'progs.pictures', 'album', (spec, i, l['ops']), cfg=l['cfg'], root=root)
        ev = observed(root)
        ev, seen = ev[seen:], len(ev)
        clean = not l['cfg'].get('faults') or r.status == 'ok' and not r.fired
        if clean:
            must_be_ok(r, f'session {i}')
        elif r.status not in ('ok', 'crashed', 'exception', 'killed'):
            raise Fail('faulty-session', f'session {i} ends {r.status}')
        done = r.status == 'ok'
        failed += not done
        for e in ev:
            if e[0] == 'drawn':
                k = (e[1], e[2])
                if k not in drawn:
                    order.append(k)
                drawn[k] = e[3]
        A = archive(root)
        cur = A.pop('Pr_current', {})
        where = {}
        for d, x in A.items():
            own = {v[:2] for v in x.values() if isinstance(v, tuple) and len(v) == 3}
            if len(own) > 1:
                raise Fail('album-mixed', f'{d} holds pictures of {sorted(own)}')
            for name, v in x.items():
                if isinstance(v, tuple) and len(v) == 3 and name != f'{v[2]}_msehtt_elements.png':
                    raise Fail('album-name', f'{d}: picture {v} is named {name}')
                if done and v[:2] in drawn and v[:2][0] == i and (not isinstance(v, tuple) or len(v) != 3):
                    raise Fail('album-torn', f'{d}/{name} is {v!r}')
            for k in own:
                where[k], sec[k] = x, int(d.split('_')[1])
        # the oldest go first; what is not being removed is complete
        mine = [k for k in order if k[0] == i]
        for k in mine:
            sec.setdefault(k, int(l['cfg']['t0']))
        part = {k: [n for n in range(drawn.get(k, 0)) if k + (n,) not in where[k].values()] for k in where}
        whole = [k for k in where if not part[k]]
        for k in order:
            if k not in where and any(sec[q] < sec[k] for q in whole):
                raise Fail('album-lost', f'after life {i} the pictures of session {k} are gone, those of an older one are there: {sorted(where)}')
            if part.get(k) and (not failed or any(sec[q] < sec[k] for q in whole)):
                raise Fail('album-lost', f'after life {i}, pictures {part[k]} of session {k} are gone')
        if len(where) < min(2, len(order)) - failed:
            raise Fail('album-lost', f'after life {i}, of {len(order)} sessions only {sorted(where)} are kept')
        if len(A) > 6 + failed:
            raise Fail('album-grows', f'{len(A)} folders after life {i}, {failed} lives failed')
        if done and mine:
            k = mine[-1]
            want = {f'{n}_msehtt_elements.png': k + (n,) for n in range(drawn[k])}
            if cur != want:
                raise Fail('album-current', f'after life {i} the current folder holds {cur}, drawn {want}')
            R.tag('album:current')


def stack(pics):
    out = {}
    for kind, v, label in pics:
        out.setdefault((kind, label, len(v)), []).append(np.nan_to_num(np.asarray(v, float), nan=777.))
    for k, v in out.items():
        v = np.array(v)
        if v.shape[1]:
            w = np.cos(np.arange(v.shape[1]) * 1.7 + .3)
            v = v[np.argsort(np.round(v, 7) @ w, kind='stable')]
        out[k] = v
    return out


def same_picture(a, b):
    A, B = stack(a), stack(b)
    if set(A) != set(B):
        return f'{sorted(set(A) ^ set(B))[:4]} only in one'
    for k in A:
        if A[k].shape != B[k].shape:
            return f'{len(A[k])} {k}, serial run {len(B[k])}'
        d = compare.close(A[k], B[k], 1e-6, 1e-8)
        if d:
            return f'{k}: {d}'


def run(R, case):
    if 'album' in case:
        return run_album(R, case['album'])
    spec = case['spec']
    ref = R.ref('progs.pictures', 'main', (spec,))
    must_be_ok(ref, 'serial run')
    d = compare.oracles(ref.results)
    if d:
        raise Fail(d[0], 'serial run: ' + d[1])
    size = gen.fit(case['size'], ref.results[0]['info']['nbase'], SIZES)
    r = R.phase(size, 'progs.pictures', 'main', (spec,), cfg=case['cfg'])
    must_be_ok(r, f'run on {size} ranks')
    d = compare.oracles(r.results) or compare.ranks_agree(r.results)
    if d:
        raise Fail(d[0], f'run on {size} ranks: ' + d[1])
    got, want = r.results[0]['root'], ref.results[0]['root']
    by = {f'{o[1]["label"]}.pictures': o for o in spec['ops']}
    for k in want:
        R.tag('picture:' + by[k][0])
        if [a for a, _ in got[k]] != [a for a, _ in want[k]]:
            raise Fail('picture', f'{k}: saved {[a for a, _ in got[k]]}, serial run {[a for a, _ in want[k]]}')
        alone = by[k][1].get('kw', {}).get('rank_wise_colored')
        for (name, a), (_, b) in zip(got[k], want[k]):
            if alone:  # it tells the ranks apart
                a, b = [[x for x in p if x[0] == 'line' and x[2][0] == '0'] for p in (a, b)]
            d = same_picture(a, b)
            if d:
                raise Fail('picture', f'{k} ({by[k]}) on {size} ranks: {d}')


def simplify(case):
    def mk(f):
        d = copy.deepcopy(case)
        f(d)
        return d
    if 'album' in case:
        L = case['album']['lives']
        for i in range(len(L)):
            if len(L) > 1:
                yield mk(lambda d: d['album']['lives'].pop(i))
        for i in range(len(L)):
            for a in range(len(L[i]['ops'])):
                if len(L[i]['ops']) > 1:
                    yield mk(lambda d: d['album']['lives'][i]['ops'].pop(a))
        return
    for i in range(len(case['spec']['ops'])):
        if len(case['spec']['ops']) > 1:
            yield mk(lambda d: d['spec']['ops'].pop(i))
    if case['size'] > 2:
        yield mk(lambda d: d.__setitem__('size', case['size'] - 1))
    for i, o in enumerate(case['spec']['ops']):
        for k in o[1].get('kw', {}):
            if k != 'usetex':
                yield mk(lambda d: d['spec']['ops'][i][1]['kw'].pop(k))

"""C10: the matrix runner: killed anywhere and resumed, every input is computed, and none whose row was complete is computed again"""
import copy
import os
from checks import gen
from dsim.check import Fail, must_be_ok
from dsim.engine import observed
from progs import compare

SIZES = [1, 2, 3, 4]
RULE = ('a case is (three input matrices, solver arguments; per life of the job: rank count, schedule, fault: kill at a scheduler step, kill, torn write or '
        'disk error at a file operation); it counts when its event sequences are new')
ASSUMPTIONS = ['simulated MPI (dsim/fakempi.py)', 'a killed process loses its unflushed buffers; what was handed to the system survives']
NUM = [0, 1, 2, 3, 5, 7, 12, -3, .5, .1, 1 / 3, 2 ** .5, 3.141592653589793, 1e-3, 1e-17, 123456.789, -2.5, 40, 1e6]


def spec_(rng):
    n = rng.choice([1, 1, 2, 3])
    I0, I1 = [], []
    for _ in range(n):
        m = rng.choice([1, 2, 3, 4])
        I0.append([rng.choice(NUM) for _ in range(m)])
        I1.append([rng.choice(NUM) for _ in range(m)])
    I2 = rng.sample(NUM, rng.choice([1, 2, 3]))
    s = dict(I=[I0, I1, I2], cost=rng.choice([0., 1., 4000., 90000.]), nan=rng.random() < .2, file=rng.choice(['study.txt', 'a.txt']))
    if rng.random() < .4:
        s['kw'] = dict(q=rng.choice([0, 2, -1.5]), scale=rng.choice([1., 1e-8, 1e12]))
    return s


def life(rng, faulty=True):
    d = dict(size=rng.choice(SIZES), cfg=gen.sched(rng))
    d['cfg'].pop('gc', None)
    if not faulty:
        return d
    r = rng.random()
    if r < .35:
        f = dict(on='step', kind='crash', at=int(10 ** rng.uniform(.6, 2.8)))
    elif r < .8:
        f = dict(on='io', kind='crash', op=['open-w', 'open-r', 'write', 'rename', 'read'], nth=int(10 ** rng.uniform(0, 1.5)),
                 frac=rng.choice([0, .1, .5, .8, .9, .95, .97, .99, 1.]))
    elif r < .93:
        f = dict(on='io', kind=rng.choice(['eio', 'enospc']), op=['write', 'open-w', 'rename'], nth=rng.randint(1, 12), frac=rng.choice([0, .5, .9, .96]))
    else:
        f = dict(on='io', kind='short', op=['write'], nth=rng.randint(1, 12), frac=.5)
    d['cfg']['faults'] = [f]
    return d


def cases(tier, rng):
    base = dict(I=[[[1, 2], [3, .5]], [[4, 5], [6, .25]], [0, 1.5]], cost=1.)
    n = 0
    # every write of a row, torn at every tenth and close to its end
    for nth in range(1, 10):
        for frac in ((.1, .4, .7, .9, .93, .96, .98, .99) if tier != 'quick' else (.3, .9, .95, .97, .99)):
            n += 1
            k = ('crash', 'enospc')[n % 2]
            yield dict(spec=base, lives=[dict(size=SIZES[n % 3], cfg=dict(faults=[dict(on='io', kind=k, op=['write'], path='study.txt', nth=nth, frac=frac)])),
                                         dict(size=1, cfg=dict(faults=[dict(on='io', kind='crash', op=['write', 'rename', 'open-w'], nth=1 + n % 4, frac=0)])),
                                         dict(size=SIZES[(n + 1) % 3], cfg={})])
    k = 0
    while tier != 'quick' or k < 330:
        yield dict(spec=spec_(rng), lives=[life(rng) for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))] + [life(rng, False) for _ in range(rng.choice([1, 2]))])
        k += 1


def wanted(spec):
    """the inputs in the order of computation, without repetitions"""
    I0, I1, I2 = spec['I']
    out = []
    for c in I2:
        for i in range(len(I0)):
            for j in range(len(I0[i])):
                t = [I0[i][j], I1[i][j], c]
                if t not in out:
                    out.append(t)
    return out


def complete(path):
    """the inputs of the complete rows in the file, read as text"""
    try:
        with open(path) as f:
            lines = f.read().split('\n')
    except FileNotFoundError:
        return None
    out = []
    if '<RESULTS> : ' not in lines:
        return out
    for ln in lines[lines.index('<RESULTS> : ') + 3:-1]:       # the last piece has no line end
        w = ln.split()
        if len(w) != 11:
            break
        out.append([float(x) for x in w[1:4]])
    return out


def run(R, case):
    spec = case['spec']
    todo = wanted(spec)
    ref = R.ref('progs.runner', 'main', (spec, False))
    must_be_ok(ref, 'uninterrupted run')
    want = ref.results[0]['same']
    if [r[:3] for r in want['rows']] != [[float(x) for x in t] for t in todo]:
        raise Fail('inputs', f'computed {want["rows"]}, asked for {todo}')
    root = R.dir()
    p = os.path.join(root, 'w', spec.get('file', 'study.txt'))
    seen = 0
    for i, l in enumerate(case['lives']):
        before = complete(p) or []
        size = l['size']
        r = R.phase(size, 'progs.runner', 'main', (spec,), cfg=l['cfg'], root=root)
        what = f'life {i} on {size} ranks'
        faults = l['cfg'].get('faults') or []
        ev = observed(root)
        ev, seen = ev[seen:], len(ev)
        ex = [[float(x) for x in e[1]] for e in ev if e[0] == 'exec']
        if r.status == 'exception' and '(injected)' in r.msg:
            R.tag('died of a disk error')
        elif r.status == 'crashed' and faults:
            R.tag('killed')
        else:
            must_be_ok(r, what + f' after {len(before)} complete rows')
            R.tag('completed')
            d = compare.ranks_agree(r.results, 0, 0)
            if d:
                raise Fail('ranks-differ', f'{what}: {d[1]}')
            same_rows(r.results[0]['same'], want, what)
            if len(ex) != len(todo) - len(before):
                raise Fail('recomputed', f'{what}: {len(before)} of {len(todo)} rows were complete, {len(ex)} inputs were computed')
        for t in ex:
            if t in before:
                raise Fail('recomputed', f'{what}: the row of {t} was complete, yet it was computed again')
        if ex != [[float(x) for x in t] for t in todo if [float(x) for x in t] not in before][:len(ex)]:
            raise Fail('order', f'{what}: computed {ex}, asked for {todo}, had {before}')
        after = complete(p)
        if before and (after is None or after[:len(before)] != before):
            raise Fail('rows-lost', f'{what} ({r.status}): the complete rows {before} became {after}')
        if after and any(t not in before and t not in ex for t in after):
            raise Fail('rows-invented', f'{what}: rows {after}, had {before}, computed {ex}')
        done = ex[:-1] if r.status != 'ok' else ex
        if r.status in ('ok', 'crashed') and not any(t in (after or []) for t in done[:-1]) and len(done) > 1:
            raise Fail('not-written', f'{what}: computed {ex}, rows {after}')
        if r.status == 'ok':
            rd = R.phase(size, 'progs.runner', 'read', (spec,), cfg={k: v for k, v in l['cfg'].items() if k != 'faults'}, root=root)
            must_be_ok(rd, f'reader on {size} ranks after {what}')
            d = compare.ranks_agree(rd.results, 0, 0)
            if d:
                raise Fail('ranks-differ', f'reader after {what}: {d[1]}')
            same_rows(rd.results[0]['same'], want, f'reader after {what}')
            if rd.results[0]['same']['locked'] is not True:
                raise Fail('not-locked', 'a runner without solver can be iterated')


def same_rows(got, want, what):
    if got['cols'] != want['cols']:
        raise Fail('columns', f'{what}: columns {got["cols"]}, expected {want["cols"]}')
    if got['index'] != want['index']:
        raise Fail('index', f'{what}: rows are numbered {got["index"]}')
    if len(got['rows']) != len(want['rows']):
        raise Fail('rows', f'{what}: {len(got["rows"])} rows, expected {len(want["rows"])}: {got["rows"]}')
    for a, b in zip(got['rows'], want['rows']):
        if repr([x + 0. for x in a]) != repr([x + 0. for x in b]):        # -0. + 0. is 0.
            raise Fail('rows', f'{what}: row {a}, expected {b}')


def simplify(case):
    def mk(f):
        d = copy.deepcopy(case)
        f(d)
        return d
    if len(case['lives']) > 1:
        for i in range(len(case['lives'])):
            yield mk(lambda d: d['lives'].pop(i))
    for i, l in enumerate(case['lives']):
        if l['size'] > 1:
            yield mk(lambda d: d['lives'][i].__setitem__('size', l['size'] - 1))
        if l['cfg'].get('faults'):
            yield mk(lambda d: d['lives'][i]['cfg'].pop('faults'))
        for k, v in (('policy', 'inorder'), ('early', 0), ('eager', 1)):
            if l['cfg'].get(k, v) != v:
                yield mk(lambda d: d['lives'][i]['cfg'].__setitem__(k, v))
    I = case['spec']['I']
    if len(I[2]) > 1:
        yield mk(lambda d: d['spec']['I'][2].pop())
    if len(I[0]) > 1:
        yield mk(lambda d: (d['spec']['I'][0].pop(), d['spec']['I'][1].pop()))

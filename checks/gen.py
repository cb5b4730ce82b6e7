"""Generators shared by the checks: meshes, forms, schedules."""
F2 = [[0, 'outer'], [1, 'outer'], [2, 'outer'], [0, 'inner'], [1, 'inner'], [2, 'inner']]
F3 = [[0, 'outer'], [1, 'outer'], [2, 'outer'], [3, 'outer']]
TQR = dict(kind='tqr', types={0: 5, 1: 9}, vertices={0: [0, 0], 1: [1, 0], 2: [0, 1], 3: [-1, 0], 4: [-1, 1]},
           map={0: [0, 1, 2], 1: [3, 0, 2, 4]}, K=2)
SQUARE = [[0, 0], [1, 0], [1, 1], [0, 1]]

DIRECTED = [
    (2, 2, dict(kind='crazy', n=2, K=[3, 2], c=.1)),
    (2, 1, dict(kind='crazy', n=2, K=[2, 4], c=0.)),
    (2, 2, dict(kind='crazy', n=2, K=3, c=.1, periodic=True)),
    (2, 2, dict(kind='crazy', n=2, K=[1, 3], c=.1, periodic=True)),
    (2, 2, dict(kind='crazy', n=2, K=2, c=.0, ts=1)),
    (2, 2, dict(kind='crazy', n=2, K=2, c=.1, trf=1)),
    (2, 1, dict(kind='crazy_multi', n=2, K=1, c=.1)),
    (2, 2, dict(kind='backward_step', K=2)),
    (2, 1, dict(kind='cylinder_channel', K=1)),
    (2, 2, dict(kind='chaotic', K=2, c=.1)),
    (2, 1, dict(kind='chaotic', K=2, c=.1, periodic=True)),
    (2, 3, dict(kind='rectangle', K=[3, 3])),
    (2, 2, dict(kind='rectangle', K=[2, 3], ts=1)),
    (2, 2, dict(kind='quad', K=3)),
    (2, 2, dict(kind='quad', K=2, ts=1)),
    (2, 2, dict(kind='quad', K=2, trf=1)),
    (2, 2, dict(kind='meshpy', points=SQUARE, max_volume=0.1)),
    (2, 2, TQR),
    (2, 2, dict(kind='rectangle', K=3, renumbering=True)),
    (2, 2, dict(kind='quad', K=2, renumbering=True)),
    (2, 2, dict(kind='quad', K=3, ts=1, trf=[1, 1, [1.5, 3]])),
    (2, 1, dict(kind='rectangle', K=[3, 3], ts=1, trf=[0, 0, [1.5]])),
    (2, 1, dict(kind='rectangle', K=[3, 2], ts=1, renumbering=True)),
    (3, 1, dict(kind='crazy', n=3, K=2, c=.1)),
    (3, 1, dict(kind='crazy', n=3, K=3, c=.05, periodic=True)),
    (3, 1, dict(kind='crazy', n=3, K=[2, 3, 2], c=0.)),
    (3, 1, dict(kind='slice', K=3, thickness=1., levels=3, periodic=True)),
    (3, 2, dict(kind='slice', K=3, thickness=1., levels=1, periodic=True)),
]

# elements much smaller than one, of similar but different sizes
SMALL = [
    (2, 2, dict(kind='rectangle', K=[[1, 2, 3], [1, 1.5]], bounds=[[0, 1e-5], [0, 1e-5]])),
    (2, 1, dict(kind='crazy', n=2, K=[[1, 1.2], [1, 2, 1]], c=0., bounds=[[0, 1e-6], [0, 1e-3]])),
    (2, 1, dict(kind='quad', K=12)),
    (2, 1, dict(kind='meshpy', points=[[0, 0], [.0001, 0], [.00008, .0001], [0, .00012]], max_volume=1e-9)),
    (3, 1, dict(kind='crazy', n=3, K=[[1, 2], [1, 3], [1, 1.5]], c=0., bounds=[[0, 1e-5]] * 3)),
]


def forms(n):
    return F2 if n == 2 else F3


# (some elements are triangles, those have no mass matrices)
LOCAL = [(2, 1, dict(kind='rectangle', K=[3, 3], trf=[0, 0, [1.5]])), (2, 1, dict(kind='quad', K=3, trf=[1, .2, [1.5, 3]]))]


def degree(rng, n, d, m, p=.25):
    """now and then another degree in each direction, or nodes placed at will (not where neighbouring elements have different axes)"""
    if rng.random() > p or m['kind'] not in ('crazy', 'rectangle', 'quad') or 'ts' in m or 'trf' in m:
        return d
    if n == 3:
        return rng.choice([[1, 1, 2], [2, 1, 1], [1, 2, 1]] + ([] if m.get('c') else [[[1, 2], [1], [1]], [[1], [1], [2, 1]]]))
    return rng.choice([[2, 1], [1, 2], [1, 3], [3, 1], [[1, 2], [1, 2, 1]], [[1.5, 1, 2], [1]], [[2, 1], [1, 1]]])


def rand_mesh(rng):
    """-> (n, degree, mesh spec)"""
    n, d, m = draw_mesh(rng)
    return n, degree(rng, n, d, m), m


def draw_mesh(rng):
    k = rng.choice(['crazy2', 'crazy2', 'crazy2p', 'ts', 'trf', 'multi', 'step', 'chaotic', 'rect', 'rect', 'quad', 'quadts', 'meshpy',
                    'tqr', 'crazy3', 'crazy3', 'slice', 'loc', 'loc'])
    d = rng.choice([1, 2, 2, 3])
    K = [rng.randint(2, 4), rng.randint(2, 4)]
    c = rng.choice([0., 0.05, .1, .15])
    b = [[0, rng.choice([1, 2])], [rng.choice([-1, 0]), 1]]
    if k == 'crazy2':
        return 2, d, dict(kind='crazy', n=2, K=K, c=c, bounds=b)
    if k == 'crazy2p':
        return 2, d, dict(kind='crazy', n=2, K=rng.choice([[1, 3], [3, 1], [3, 3], [3, 4], [4, 3], [4, 4]]), c=c, periodic=True)
    if k == 'ts':
        return 2, min(d, 2), dict(kind='crazy', n=2, K=K[0], c=0., ts=1)
    if k == 'trf':
        return 2, min(d, 2), dict(kind='crazy', n=2, K=2, c=c, trf=rng.choice([1, 1, 2]))
    if k == 'multi':
        return 2, min(d, 2), dict(kind='crazy_multi', n=2, K=rng.choice([1, 2]), c=c)
    if k == 'step':
        return 2, d, dict(kind='backward_step', K=rng.choice([2, 3]))
    if k == 'chaotic':
        return 2, 1, dict(kind='chaotic', K=rng.choice([1, 2]), c=c, periodic=False)
    if k == 'rect':
        return 2, d, dict(kind='rectangle', K=K, bounds=b)
    if k == 'quad':
        return 2, d, dict(kind='quad', K=K[0])
    if k == 'quadts':
        return 2, min(d, 2), dict(kind='quad', K=K[0], ts=1)
    if k == 'loc':          # refined around a point
        m = dict(kind=rng.choice(['quad', 'rectangle']), K=rng.randint(2, 3), ts=1, renumbering=rng.choice([False, False, True]),
                 trf=[round(rng.uniform(-.2, 1.2), 2), round(rng.uniform(-.2, 1.2), 2), rng.choice([[1.5], [1.5, 3], [1.2, 2, 4], [4, 5]])])
        return 2, min(d, 2), {k: v for k, v in m.items() if v or k == 'K'}
    if k == 'meshpy':
        return 2, min(d, 2), dict(kind='meshpy', points=rng.choice([SQUARE, [[0, 0], [2, 0], [1.5, 1], [.2, 1.2]], [[0, 0], [1, 0], [.3, 1]]]),
                                  max_volume=rng.choice([.3, .1, .05]))
    if k == 'tqr':
        return 2, min(d, 2), dict(TQR, K=rng.choice([1, 2, 3]))
    if k == 'crazy3':
        return 3, 1, dict(kind='crazy', n=3, K=[rng.randint(1, 3) for _ in range(3)], c=c)
    return 3, 1, dict(kind='slice', K=[3, rng.choice([3, 4])], thickness=1., levels=rng.choice([1, 3]), periodic=True)


def spec_of(ndm, ops, times=(0, 0.5), **kw):
    n, d, m = ndm
    return dict(n=n, degree=d, forms=forms(n), mesh=m, ops=list(ops), times=list(times), **kw)


def fit(size, nbase, sizes):
    """phyem refuses more ranks than elements"""
    return max(x for x in sizes if x <= max(1, min(size, nbase)))


def modest(mesh, degree):
    """few enough elements for dense algebra with the assembled system"""
    if isinstance(mesh.get('trf'), list):
        mesh['trf'] = mesh['trf'][:2] + [mesh['trf'][2][:1]]
        mesh['K'] = [min(x, 2) for x in mesh['K']] if isinstance(mesh['K'], list) else min(mesh['K'], 2)
        return 1
    return degree


def sched(rng, faults=False):
    """a schedule policy and message semantics"""
    c = dict(policy=rng.choice(['uniform', 'uniform', 'sticky', 'rr', 'priority', 'starve', 'inorder']),
             early=rng.choice([0., .2, .6, .95]), eager=rng.choice([0., .5, 1.]), redorder=rng.random() < .6)
    if c['policy'] == 'starve':
        c['victim'] = rng.randrange(8)
    if rng.random() < .3:
        c['gc'] = rng.choice([.02, .2])
    if rng.random() < .3:
        c['skew'] = [rng.uniform(-5, 5) for _ in range(8)]
    if rng.random() < .25:
        c['ids'] = rng.choice([.5, 1.])              # addresses of objects that are gone are reused
    return c


def simplify_battery(case):
    """smaller cases for the battery programs"""
    import copy
    def mk(f):
        d = copy.deepcopy(case)
        f(d)
        return d
    if case['size'] > 2:
        yield mk(lambda d: d.__setitem__('size', d['size'] - 1))
    sp = case['spec']
    for i in range(len(sp['ops'])):
        if len(sp['ops']) > 1:
            yield mk(lambda d: d['spec']['ops'].pop(i))
    if len(sp['ops']) > 3:
        yield mk(lambda d: d['spec'].__setitem__('ops', sp['ops'][:len(sp['ops']) // 2]))
        yield mk(lambda d: d['spec'].__setitem__('ops', sp['ops'][len(sp['ops']) // 2:]))
    for i in range(len(sp['forms'])):
        if len(sp['forms']) > 1:
            yield mk(lambda d: d['spec']['forms'].pop(i))
    if sp['degree'] != 1:
        yield mk(lambda d: d['spec'].__setitem__('degree', 1))
    if len(sp['times']) > 1:
        yield mk(lambda d: d['spec'].__setitem__('times', sp['times'][:1]))
    for key in ('c',):
        if sp['mesh'].get(key):
            yield mk(lambda d: d['spec']['mesh'].__setitem__(key, 0.))
    for key in ('gc', 'skew', 'ids'):
        if key in case['cfg']:
            yield mk(lambda d: d['cfg'].pop(key))

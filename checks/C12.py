"""C12: distribution of the elements of a great mesh over the ranks; boundary, sections, files"""
import copy
from checks import gen
from dsim.check import Fail, must_be_ok
from progs import compare, meshes

SIZES = [1, 2, 3, 4, 5, 7, 9, 12]
RULE = ('a case is (mesh family and parameters, splitting, refining, renumbering, boundary sections, rank counts of writer and reader of a .phm '
        'file or deal of vtu cells, schedule, MPI semantics); it counts when its event sequence is new and it took at least one simulated operation')
ASSUMPTIONS = ['simulated MPI (dsim/fakempi.py)', 'boundary faces and sections are recomputed from face geometry on non-periodic meshes']
SECS2 = [['ounv', [[-1, 0], [1, 0]]], ['ounv', [[0, 1]]], ['ounv', [[0, -1], [1, 0], [-1, 0]]], ['on straight lines', [[[0, 0], [0, 1]]]],
         ['on straight lines', [[[0, 0], [1, 0]], [[1, 0], [1, 1]]]], ['on straight segments', [[[0, 0], [0, 1]]]],
         ['on straight segments', [[[0, 0], [.5, 0]], [[1, 0], [1, 1]]]], ['in polygons', [[[-2.013, -2.017], [.507, 2.019]]]],
         ['in polygons', [[[-2.013, -2.017], [.013, 3.019]], [[.411, .777], [5.021, 5.033]]]]]
SECS3 = [['ounv', [[-1, 0, 0], [0, 1, 0]]], ['ounv', [[0, 0, 1]]]]


def mk(x, rng, save=True):
    n, d, m = x
    sp = dict(n=n, mesh=m)
    m = copy.deepcopy(m)
    sp['mesh'] = m
    if not m.get('periodic') and m['kind'] != 'slice':
        if m['kind'] in ('crazy', 'rectangle', 'quad', 'backward_step', 'tqr') and 'trf' not in m and not m.get('ts'):
            sp['sections'] = rng.sample(SECS2 if n == 2 else SECS3, 2)
        elif n == 2 and m['kind'] in ('cylinder_channel', 'chaotic', 'crazy_multi') and 'trf' not in m and not m.get('ts'):
            sp['sections'] = rng.sample(SECS2[:3], 2)
        if sp.get('sections'):
            if m.get('c'):
                sp['sections'] = [s for s in sp['sections'] if s[0] == 'ounv'] or [SECS2[0] if n == 2 else SECS3[0]]
    if n == 2 and (m['kind'] in ('rectangle', 'quad', 'meshpy', 'tqr', 'vtu') or (m['kind'] == 'crazy' and m.get('c') == 0. and 'trf' not in m)):
        sp['save'] = 'mesh.phm'
    return sp


def vtu(rng):
    return (2, 1, dict(kind='vtu', K=[rng.randint(2, 4), rng.randint(2, 4)], shape=rng.randrange(99), deal=rng.randrange(99),
                       triangles=rng.choice([0, 0, 1, 2]), overlap=rng.choice([0, 0, .3]), redistribute=rng.choice([None, None, True])))


def cases(tier, rng):
    for x in gen.DIRECTED + gen.LOCAL:
        for _ in range(2):
            yield dict(spec=mk(x, rng), size=rng.choice(SIZES[1:]), size2=rng.choice(SIZES), cfg=gen.sched(rng), cfg2=gen.sched(rng))
    n = 0
    while tier != 'quick' or n < 220:
        x = vtu(rng) if n % 4 == 0 else gen.rand_mesh(rng)
        if rng.random() < .05:
            x = (2, 1, dict(kind='cylinder_channel', K=rng.choice([1, 2])))
        if x[2]['kind'] in ('rectangle', 'quad', 'crazy', 'tqr') and rng.random() < .3 and 'trf' not in x[2]:
            x[2]['renumbering'] = True
        if x[2]['kind'] in ('crazy', 'crazy_multi') and x[0] == 2 and rng.random() < .5 and 'ts' not in x[2] and 'trf' not in x[2]:
            K = rng.randint(4, 7)
            x[2]['K'] = [K, rng.randint(4, 7)] if x[2]['kind'] == 'crazy' else 2
        yield dict(spec=mk(x, rng), size=rng.choice(SIZES[1:]), size2=rng.choice(SIZES), cfg=gen.sched(rng), cfg2=gen.sched(rng))
        n += 1


def run(R, case):
    spec = case['spec']
    m = spec['mesh']
    ref = R.ref('progs.meshes', 'main', (spec,))
    must_be_ok(ref, 'serial run')
    d = meshes.judge(ref.results, spec)
    if d:
        raise Fail(*d)
    size = gen.fit(case['size'], ref.results[0]['info']['nbase'], SIZES)
    root = R.dir()
    r = R.phase(size, 'progs.meshes', 'main', (spec,), cfg=case['cfg'], root=root)
    must_be_ok(r, f'{size} ranks')
    for x in compare.ranks_agree(r.results), meshes.judge(r.results, spec):
        if x:
            raise Fail(*x)
    vs_serial(r.results, ref.results, m, f'{size} ranks')
    if spec.get('save'):
        # the file, read by another number of ranks, is the same mesh
        s2 = gen.fit(case['size2'], ref.results[0]['info']['nbase'], SIZES)
        spec2 = dict(n=spec['n'], mesh=dict(kind='phm', file='mesh.phm', periodic=m.get('periodic', m['kind'] == 'slice')))
        r2 = R.phase(s2, 'progs.meshes', 'main', (spec2,), cfg=case['cfg2'], root=root)
        must_be_ok(r2, f'{s2} ranks reading the .phm file of {size} ranks')
        for x in compare.ranks_agree(r2.results), meshes.judge(r2.results, spec2):
            if x:
                raise Fail(*x)
        u, v = meshes._union(r2.results, 'map'), meshes._union(r.results, 'map')
        x = compare.close(u, v, 1e-10, 1e-12)
        if x:
            raise Fail('file', f'mesh read from the .phm file: {x}')
        x = compare.renaming(meshes._union(r2.results, 'emap'), meshes._union(r.results, 'emap'), 'emap')
        if x:
            raise Fail('file', x[1])
        R.tag('phm')


def vs_serial(res, ref, m, what):
    for name in ('etype', 'esig', 'map', 'jm', 'faces', 'normals', 'bfaces', *(f'{a}{s}' for a in ('in', 'out') for s in range(3))):
        x = compare.close(meshes._union(res, name), meshes._union(ref, name), 1e-9, 1e-11)
        if x:
            raise Fail('serial-differs:' + name, f'{name}, {what}: {x}')
    x = compare.renaming(meshes._union(res, 'emap'), meshes._union(ref, 'emap'), 'element nodes')
    if x:
        raise Fail('serial-differs:emap', f'{what}: {x[1]}')
    x = compare.close(res[0]['same'], ref[0]['same'], 1e-9, 1e-11)
    if x:
        raise Fail('serial-differs:same', f'{what}: {x}')


def simplify(case):
    def mk(f):
        d = copy.deepcopy(case)
        f(d)
        return d
    if case['size'] > 2:
        yield mk(lambda d: d.__setitem__('size', SIZES[SIZES.index(case['size']) - 1]))
    if case['size2'] > 1:
        yield mk(lambda d: d.__setitem__('size2', 1))
    for key in ('save', 'sections'):
        if case['spec'].get(key):
            yield mk(lambda d: d['spec'].pop(key))
    K = case['spec']['mesh'].get('K')
    if isinstance(K, list):
        for i in range(len(K)):
            if isinstance(K[i], int) and K[i] > 1:
                yield mk(lambda d: d['spec']['mesh']['K'].__setitem__(i, K[i] - 1))
    for k in ('gc', 'skew', 'ids'):
        for c in ('cfg', 'cfg2'):
            if k in case[c]:
                yield mk(lambda d: d[c].pop(k))

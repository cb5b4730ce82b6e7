"""Histories of operations on the cochains of forms."""
from checks import gen

TIMES = [0, .25, .5, .75, 1, 1.5, 2, .1 + .2, .3, 1 + 3e-10, -1, 100.123456789]
KINDS2 = [[0, 'outer'], [1, 'outer'], [2, 'outer'], [0, 'inner'], [1, 'inner'], [2, 'inner']]
KINDS3 = [[0, 'outer'], [1, 'outer'], [2, 'outer'], [3, 'outer']]


def forms(rng, n):
    ks = KINDS2 if n == 2 else KINDS3
    a, b = rng.sample(ks, 2)
    return [a, list(a), b]


def history(rng, length, times=None):
    times = times or rng.sample(TIMES, rng.choice([3, 4, 6]))
    ops = []
    if rng.random() < .5:
        ops.append(['auto', rng.choice([False, False, 2, 4, True])])
    for _ in range(length):
        i = rng.choice([0, 0, 1, 2])
        t, a, b = [rng.choice(times) for _ in range(3)]
        o = rng.choice(['set', 'set', 'set', 'over', 'diff', 'sum', 'scale', 'gather', 'share', 'iadd', 'iaddg', 'interp', 'clean', 'cleant', 'cache', 'auto', 'look'])
        v = round(rng.random(), 3)
        if o in ('set', 'over'):
            ops.append([o, i, t, v])
        elif o in ('diff', 'sum'):
            ops.append([o, i, t, a, b])
        elif o == 'scale':
            ops.append([o, i, t, a, [rng.choice([2., -1, .5, 0])]])
        elif o in ('gather', 'iadd', 'iaddg', 'interp'):
            ops.append([o, i, t, a])
        elif o == 'share':
            ops.append([o, i, t, a])
            if rng.random() < .7:
                ops.append([rng.choice(['iadd', 'iaddg']), i, rng.choice([t, a]), b])
        elif o == 'look':
            # often twice at one time, with a change in between
            how = rng.choice(['plain', 'parts', 'tsp', 'energy', 'global'])
            ops.append([o, i, rng.choice([t, None]), how])
            if rng.random() < .6:
                t2 = ops[-1][2]
                ops.append(['over', i, t if t2 is None else t2, v])
                ops.append([o, i, t2, how])
        elif o == 'clean':
            if rng.random() < .6:
                ops.append([o, i, rng.choice([None, 'all', -1, -2, -3])])
        elif o == 'cleant':
            ops.append([o, i, t])
        elif o == 'cache':
            ops.append([o, i, 1 - i] if i < 2 else ['set', i, t, v])
        elif rng.random() < .3:
            ops.append(['auto', rng.choice([False, 2, 3, 5, True])])
    return ops, times


def mesh(rng):
    n, d, m = gen.rand_mesh(rng)
    while m['kind'] == 'cylinder_channel':
        n, d, m = gen.rand_mesh(rng)
    return n, d if isinstance(d, list) else min(d, 2), m


def norms(m):
    """there are elements without mass matrices"""
    return m['kind'] not in ('chaotic', 'meshpy') and 'trf' not in m

"""Forms exported to files (rws, grouped rws, vtk, time-space functions) and objects pickled; read back by this or another job."""
import numpy as np

from progs.lib import Obs, setup, field


def thing(seed):
    """an object to be pickled"""
    r = np.random.RandomState(seed)
    k = seed % 5
    if k == 0:
        return r.rand(3, 4)
    if k == 1:
        return dict(a=r.rand(5), b=[1, 'zwei', (3., None)], c={2: r.rand(2)})
    if k == 2:
        return [r.rand(200, 20), 'x' * 30]
    if k == 3:
        return None
    return {'1': r.randint(0, 9, 4), 't': float(r.rand())}


def plain(o):
    if isinstance(o, np.ndarray):
        return [str(o.dtype), list(o.shape), o.ravel().tolist()]
    if isinstance(o, dict):
        return sorted(([repr(k), plain(v)] for k, v in o.items()), key=lambda x: x[0])
    if isinstance(o, (list, tuple)):
        return [type(o).__name__] + [plain(v) for v in o]
    return repr(o)


def forms_of(op):
    return op[1] if isinstance(op[1], list) else [op[1]]


def store(ph, j, op):
    """give the forms of an operation the values they are to be saved with"""
    t, v = op[3], op[4]
    for q, i in enumerate(forms_of(op)):
        f = j.forms[i]
        f.cf = field(ph, j.n, j.kinds[i][0], v + q, j.spec['mesh'].get('periodic', False), j.spec['mesh'])
        f[t].reduce()


def density(f, ddf):
    d = int((30001 * ddf / f.tpm.composition.num_global_elements) ** (1 / f.space.n) + 1)
    return min(max(d, 5), 39)


def prep(ph, ctx, spec):
    j = setup(ph, dict(spec, boundary=False))
    j.spec = spec
    return j


def grid(x, m, n):
    """values of an element as a flat list, whatever the shape"""
    return np.asarray(x).ravel()


# ---- what the files should hold, from reconstruction by one rank --------------------------------------
def expect(ph, ctx, spec):
    j = prep(ph, ctx, spec)
    O = Obs()
    O.info['nbase'] = j.nbase
    out = []
    for op in spec['writes']:
        if op[0] == 'pk':
            out.append(plain(thing(op[1])))
            continue
        store(ph, j, op)
        t, ddf = op[3], op[5]
        fs = [j.forms[i] for i in forms_of(op)]
        if op[0] in ('rws', 'group', 'named'):
            ls = [np.linspace(-1, 1, density(fs[0], ddf))] * j.n
            rows = {}
            for q, f in enumerate(fs):
                xyz, val = f[t].reconstruct(*ls, ravel=False)
                for e in xyz[0]:
                    rows.setdefault(str(e), [[grid(x[e], 0, 0) for x in xyz]]).append([grid(v[e], 0, 0) for v in val])
            out.append(rows)
        elif op[0] == 'tsf':
            d = density(fs[0], ddf)
            ls = np.linspace(-1, 1, d + 1)
            ls = [(ls[1:] + ls[:-1]) / 2] * j.n
            xyz, val = fs[0][t].reconstruct(*ls, ravel=True)
            pts, vals = [], []
            for k, e in enumerate(xyz[0]):
                m = len(xyz[0][e])
                for q in {(7 * k + 3) % m, m // 2, m - 1}:
                    pts.append([float(x[e][q]) for x in xyz])
                    vals.append([float(v[e][q]) for v in val])
            out.append([pts, vals])
        else:
            m = min(max(int(5 * ddf), 3), 50)
            ls = [np.linspace(-1, 1, m)] * j.n
            cand, cells, names = {}, [], []
            for q, f in enumerate(fs):
                xyz, val = f[t].reconstruct(*ls, ravel=False)
                names.append((f if f._is_base() else f._base).abstract._pure_lin_repr)
                for e in xyz[0]:
                    shape = (m,) * j.n
                    X = [np.asarray(x[e]).reshape(shape) for x in xyz]
                    V = [np.asarray(v[e]).reshape(shape) for v in val]
                    for idx in np.ndindex(*shape):
                        cand.setdefault(key([x[idx] for x in X]), [[] for _ in fs])[q].append([float(v[idx]) for v in V])
                    if q == 0:
                        for idx in np.ndindex(*[m - 1] * j.n):
                            cells.append(sorted(key([x[tuple(np.add(idx, c))] for x in X]) for c in np.ndindex(*[2] * j.n)))
            out.append(dict(cand=cand, cells=sorted(cells), names=names))
    O.root['want'] = out
    return O.d()


def key(x):
    return tuple(round(float(c), 6) + 0. for c in x) + (0.,) * (3 - len(x))


# ---- the job ------------------------------------------------------------------------------------------
def main(ph, ctx, spec):
    j = prep(ph, ctx, spec)
    O = Obs()
    O.info['nbase'] = j.nbase
    W = spec['writes']
    for k, o in enumerate(spec['ops']):
        if ctx.rank == 0:
            ctx.observe('begin', k)
        if o[0] == 'write':
            op = W[o[1]]
            name = op[2]
            if op[0] == 'pk':
                ph.pk.ms(name, thing(op[1]) if ctx.rank == 0 else 'not this')
            else:
                store(ph, j, op)
                t, ddf = op[3], op[5]
                fs = [j.forms[i][t] for i in forms_of(op)]
                if op[0] == 'rws':
                    fs[0].export.rws(name, ddf=ddf)
                elif op[0] == 'group':
                    ph.rws(name, *fs, ddf=ddf)
                elif op[0] == 'named':
                    d = [f.numeric.rws(ddf=ddf, data_only=True) for f in fs]
                    if ctx.rank == 0:
                        G = ctx.mod('phyem.tools.dds.region_wise_structured_group').DDS_RegionWiseStructured_Group
                        G(d[0][0], {f'v{q}': x[1] for q, x in enumerate(d)}).saveto(name)
                elif op[0] == 'tsf':
                    fs[0].export.tsf(name, ddf=ddf)
                elif op[0] == 'xvtk':
                    fs[0].export.vtk(name[:-4], ddf=ddf)
                elif op[0] == 'vtk':
                    ph.vtk(name, *fs, ddf=ddf)
        elif o[0] == 'read':
            kind, name = o[1], o[2]
            if kind == 'pk':
                O.same[f'{k}'] = plain(ph.pk.r(name))
            elif kind == 'pkm':
                x = ph.pk.mr(name)
                if ctx.rank == 0:
                    O.root[f'{k}'] = plain(x)
                else:
                    O.check(f'{k}.mr', x is None, True)
            elif kind == 'tsf':
                f = ph.read_tsf(name)
                O.same[f'{k}'] = [[float(np.ravel(c)[0]) for c in vec(f(.7, *[np.array([c]) for c in p]))] for p in spec['points'][str(k)]]
            else:
                x = ph.read(name)
                if ctx.rank == 0:
                    O.root[f'{k}'] = content(x)
                else:
                    O.check(f'{k}.read', x is None, True)
        if ctx.rank == 0:
            ctx.observe('end', k)
    return O.d()


def vec(v):
    return v if isinstance(v, (list, tuple)) else [v]


def content(x):
    one = x.__class__.__name__ == 'DDSRegionWiseStructured'
    xs = [x] if one else [x[q] for q in range(len(x))]
    rows = {}
    for q, d in enumerate(xs):
        for e in d._coo_dict_list[0]:
            if q == 0:
                rows[str(e)] = [[grid(c[e], 0, 0) for c in d._coo_dict_list]]
            rows[str(e)].append([grid(v[e], 0, 0) for v in d._val_dict_list])
    return dict(rows=rows, names=None if one else list(x._value_names), dtypes=[d.classification for d in xs if (d.ndim, d.dtype) != (2, 'tensor')],
                mx=[[float(m) for m in d.maximum()] for d in xs])


# ---- vtk files, read without phyem --------------------------------------------------------------------
def vtu(path):
    """-> points, cells, {name: values}"""
    import re
    with open(path, 'rb') as f:
        b = f.read()
    head, _, rest = b.partition(b'<AppendedData encoding="raw">\n_')
    if not rest:
        raise ValueError('no data')
    head = head.decode()
    ar = {}
    for a in re.findall(r'<DataArray ([^>]*)/>', head):
        d = dict(re.findall(r'(\w+)="([^"]*)"', a))
        o = int(d['offset'])
        n = int(np.frombuffer(rest[o:o + 8], '<u8')[0])
        raw = rest[o + 8:o + 8 + n]
        if len(raw) != n:
            raise ValueError('cut')
        typ = d['type']
        dt = '<' + typ[0].lower().replace('u', 'u') + str(int(re.sub(r'\D', '', typ)) // 8)
        v = np.frombuffer(raw, dt)
        c = int(d['NumberOfComponents'])
        ar[d['Name']] = v.reshape(-1, c) if c > 1 else v
    pts = ar.pop('points')
    con, off, typ = ar.pop('connectivity'), ar.pop('offsets'), ar.pop('types')
    cells, a = [], 0
    for o in off:
        cells.append(sorted(key(pts[q]) for q in con[a:o]))
        a = o
    return pts, sorted(cells), typ, ar


def vtu_differs(path, want, tol=1e-9):
    pts, cells, typ, ar = vtu(path)
    names = want['names']
    if sorted(set(names)) != sorted(ar):
        return f'arrays {sorted(ar)}, wanted {names}'
    ks = [key(p) for p in pts]
    if sorted(set(ks)) != sorted(want['cand']):
        return f'{len(set(ks))} points, wanted {len(want["cand"])}'
    if cells != want['cells']:
        return f'cells differ ({len(cells)}, wanted {len(want["cells"])})'
    for q, name in enumerate(names):
        if names.index(name) != len(names) - 1 - names[::-1].index(name):
            continue
        v = ar[name]
        for p, k in enumerate(ks):
            got = np.atleast_1d(v[p])
            for c in want['cand'][k][q]:
                w = np.zeros(len(got))
                w[:len(c)] = c
                if np.all(np.abs(got - w) <= tol + tol * np.abs(w)):
                    break
            else:
                return f'{name} at {k} is {got}, reconstructed {want["cand"][k][q]}'
    return None

"""Great meshes: distribution of the elements, geometry, boundary, sections of it, files, vtu interface."""
import numpy as np

from progs.lib import Obs, setup, mesh_args, base_count

PTS = [np.array([.31, -.52, .77]), np.array([-.66, .14, .25]), np.array([.05, .48, -.83])]


def grid_cells(spec):
    """a mesh of quads and/or triangles on a perturbed grid: nodes, cells, types (deterministic)"""
    nx, ny = spec['K']
    r = np.random.RandomState(spec.get('shape', 0))
    X = np.linspace(0, 1, nx + 1)
    Y = np.linspace(0, 1, ny + 1)
    nid = lambda a, b: a + b * (nx + 1)
    coo = {}
    for b in range(ny + 1):
        for a in range(nx + 1):
            dx, dy = (r.rand(2) - .5) * .3
            x = X[a] + (dx / nx if 0 < a < nx else 0)
            y = Y[b] + (dy / ny if 0 < b < ny else 0)
            coo[nid(a, b)] = (float(x), float(y))
    con, typ = {}, {}
    k = 0
    for b in range(ny):
        for a in range(nx):
            q = [nid(a, b), nid(a + 1, b), nid(a + 1, b + 1), nid(a, b + 1)]
            if spec.get('triangles') and (a + b) % spec['triangles'] == 0:
                con[k], typ[k] = [q[0], q[1], q[2]], 5
                con[k + 1], typ[k + 1] = [q[0], q[2], q[3]], 5
                k += 2
            else:
                con[k], typ[k] = q, 9
                k += 1
    return coo, con, typ


def vtu_share(ctx, spec, size):
    coo, con, typ = grid_cells(spec)
    r = np.random.RandomState(spec.get('deal', 0))
    cells = list(con)
    owner = {c: int(r.randint(size)) for c in cells}
    for k in range(size):           # everybody has one
        owner[cells[int(r.permutation(len(cells))[0])]] = owner[cells[0]]
    for k in range(min(size, len(cells))):
        owner[cells[k]] = k
    extra = {c: [int(r.randint(size))] for c in cells if r.rand() < spec.get('overlap', 0)}
    mine = [c for c in cells if owner[c] == ctx.rank or ctx.rank in extra.get(c, ())]
    nodes = {n for c in mine for n in con[c]}
    return {n: coo[n] for n in nodes}, {c: con[c] for c in mine}, {c: typ[c] for c in mine}


def face_points(el, fid, n):
    ct = el.faces[fid].ct
    if n == 2:
        return np.array([np.ravel(np.asarray(x, dtype=float)) for x in ct.mapping(np.array([-1., -.3, 0., .4, 1.]))]).T
    a = np.array([-1., 0., 1., -1., 0., 1., -1., 0., 1.])
    b = np.array([-1., -1., -1., 0., 0., 0., 1., 1., 1.])
    xi = [a, b]
    xi.insert(fid // 2, np.ones(9) * (1 if fid % 2 else -1))
    return np.array([np.ravel(np.asarray(x, dtype=float)) for x in el.ct.mapping(*xi)]).T


def describe(ph, ctx, spec, tgm, O, n, faces=True):
    els = tgm.elements
    O.same['stat'] = els.statistics
    O.same['mn'] = els.mn
    O.elem['etype'] = {e: str(els[e].etype) for e in els}
    O.elem['etype-c'] = {e: type(e).__name__ for e in els}
    O.elem['emap'] = {e: [str(x) for x in els[e].map_] for e in els}
    O.elem['esig'] = {e: els[e].signature for e in els}
    O.elem['map'] = {e: np.array(els[e].ct.mapping(*PTS[:n])) for e in els}
    O.elem['jm'] = {e: np.array([np.broadcast_to(np.asarray(y, float), (3,)) for x in els[e].ct.Jacobian_matrix(*PTS[:n]) for y in x]) for e in els}
    O.elem['own'] = {e: ctx.rank for e in els}
    dist = getattr(tgm, '_element_distribution', None)
    if ctx.rank == 0:
        O.info['distribution'] = {r: [str(e) for e in dist[r]] for r in dist}
        O.root['global_map'] = {e: [str(x) for x in els.global_map[e]] for e in els.global_map}
        O.root['global_etype'] = {e: str(els.global_etype[e]) for e in els.global_etype}
    if faces:
        fc = {}
        for e in els:
            fs = {}
            for fid in els[e].face_setting():
                try:
                    fs[fid] = face_points(els[e], fid, n)
                except NotImplementedError:
                    fs = None
                    break
            fc[e] = fs
        O.elem['faces'] = fc
        nv = {}
        for e in els:
            fs = {}
            for fid in els[e].face_setting():
                try:
                    xi = [np.array([-.8, 0., .5])] * (1 if n == 2 else 3)
                    fs[fid] = np.array([np.broadcast_to(np.asarray(x, float), (3,)) for x in els[e].faces[fid].ct.outward_unit_normal_vector(*xi)]).T
                except NotImplementedError:
                    fs[fid] = None
            nv[e] = fs
        O.elem['normals'] = nv


def sections(ph, ctx, j, spec, O, base):
    """pairs of complementary boundary sections, all on one boundary"""
    for s, (nm1, nm2) in enumerate(j.secnames):
        kind, arg = spec['sections'][s]
        m1, m2 = [_by_gamma(base['meshes'], x) for x in (nm1, nm2)]
        for m, key in ((m1, kind), (m2, 'except ' + kind)):
            j.msehtt.config(m)(j.tgm, {'type': 'boundary_section', 'partial elements': j.M, key: conv(ph, kind, arg)})
        O.elem[f'in{s}'] = {k: 1 for k in m1.composition}
        O.elem[f'out{s}'] = {k: 1 for k in m2.composition}
        O.same[f'nsec{s}'] = (int(m1.composition._num_global_faces), int(m2.composition._num_global_faces))
        if spec['n'] == 2 and m1.composition._num_global_faces > 0:
            O.same[f'secmn{s}'] = m1.composition.mn


def _by_gamma(meshes, name):
    hits = [k for k in meshes if name in k]
    assert len(hits) == 1, (name, list(meshes))
    return meshes[hits[0]]


def conv(ph, kind, arg):
    if kind == 'ounv':
        return tuple(tuple(v) for v in arg)
    if kind in ('on straight lines', 'on straight segments'):
        return tuple([tuple(p) for p in l] for l in arg)
    if kind == 'in polygons':
        import importlib
        m = importlib.import_module('phyem.tools.miscellaneous.geometries.m2n2')
        return [m.Polygon2(*[m.Point2(*p) for p in ((x0, y0), (x1, y0), (x1, y1), (x0, y1))]) for (x0, y0), (x1, y1) in arg]
    return arg


def main(ph, ctx, spec):
    O = Obs()
    n = spec['n']
    m = spec['mesh']
    if m['kind'] == 'vtu':
        V = ctx.mod('phyem.msehtt.static.mesh.great.config.vtu').MseHttVtuInterface
        ph.config.set_embedding_space_dim(2)
        man = ph.manifold(2)
        mesh = ph.mesh(man)
        L = ph.space.new('Lambda', 0, orientation='outer')
        L.make_form('a', 'a')
        ph.space.finite(1)
        msehtt, obj = ph.fem.apply('msehtt-s', dict())
        coo, con, typ = vtu_share(ctx, m, ctx.size)
        kw = {}
        if m.get('redistribute') is not None:
            kw['redistribute'] = m['redistribute']
        vif = V(coo, con, typ, **kw)
        msehtt.config('tgm')(vif, **{k: m[k] for k in ('ts', 'renumbering') if k in m})
        tgm = msehtt.base['the_great_mesh']
        O.info['nbase'] = base_count(tgm)
        describe(ph, ctx, spec, tgm, O, n)
        if spec.get('save'):
            tgm.saveto(spec['save'])
        return O.d()
    j = setup(ph, dict(spec, forms=[[0, 'outer']], degree=1))
    O.info['nbase'] = j.nbase
    describe(ph, ctx, spec, j.tgm, O, n)
    O.same['nge'] = j.M.composition.num_global_elements
    if j.B is not None:
        O.elem['bfaces'] = {x: 1 for x in j.B.composition}
        O.same['nbf'] = int(j.B.composition._num_global_faces)
        O.same['B.mn'] = j.B.composition.mn
    if spec.get('sections'):
        sections(ph, ctx, j, spec, O, j.msehtt.base)
    if spec.get('save'):
        j.tgm.saveto(spec['save'])
    return O.d()


# ---- judge ------------------------------------------------------------------------------------
def _union(results, name):
    out = {}
    for r in results:
        out.update(r['elem'].get(name, {}))
    return out


def _k(p, sc):
    return tuple(np.floor(np.asarray(p) / sc * 771234.567 + .3141).astype(np.int64).tolist())


def judge(results, spec):
    size = len(results)
    own = _union(results, 'own')
    tot = sum(len(r['elem']['own']) for r in results)
    if tot != len(own):
        seen = {}
        for r, o in enumerate(results):
            for e in o['elem']['own']:
                if e in seen:
                    return 'element-twice', f'element {e} is on rank {seen[e]} and on rank {r}'
                seen[e] = r
    for r, o in enumerate(results):
        if not o['elem']['own']:
            return 'empty-rank', f'rank {r} of {size} has no element'
    gm = results[0]['root']['global_map']
    if set(map(str, gm)) != set(map(str, own)):
        return 'element-lost', f'global map has {len(gm)} elements, the ranks hold {len(own)}'
    dist = results[0]['info']['distribution']
    for r, o in enumerate(results):
        if sorted(map(str, o['elem']['own'])) != sorted(dist[r]):
            return 'distribution', f'rank {r} holds {sorted(map(str, o["elem"]["own"]))[:9]}, the distribution says {sorted(dist[r])[:9]}'
    em, et = _union(results, 'emap'), _union(results, 'etype')
    ge = results[0]['root']['global_etype']
    sg, se = {str(k): v for k, v in gm.items()}, {str(k): v for k, v in ge.items()}
    for e in em:
        if sg[str(e)] != em[e] or se[str(e)] != et[e]:
            return 'global-map', f'element {e}: {et[e]} {em[e]}, the master says {se[str(e)]} {sg[str(e)]}'
    n = spec['n']
    fc = _union(results, 'faces')
    periodic = spec['mesh'].get('periodic', False) or spec['mesh']['kind'] == 'slice'
    if periodic or any(v is None for v in fc.values()):
        return None
    allp = np.concatenate([f for e in fc for f in fc[e].values()])
    sc = float(np.max(allp.max(0) - allp.min(0)))
    mid = 2 if n == 2 else 4
    cnt = {}
    for e in fc:
        for fid, p in fc[e].items():
            L = np.max(p.max(0) - p.min(0))
            if L < 1e-9 * sc:
                continue
            cnt.setdefault(_k(p[mid], sc), []).append((e, fid))
    if any(len(v) > 2 for v in cnt.values()):
        return None
    want = {v[0] for v in cnt.values() if len(v) == 1}
    if 'bfaces' in results[0]['elem']:
        got = set(_union(results, 'bfaces'))
        if got != want:
            return 'boundary', f'boundary faces {sorted(map(str, got - want))[:6]} too many, {sorted(map(str, want - got))[:6]} missing'
        if results[0]['same']['nbf'] != len(want):
            return 'boundary', f'{results[0]["same"]["nbf"]} boundary faces reported, {len(want)} exist'
    nv = _union(results, 'normals')
    for s, (kind, arg) in enumerate(spec.get('sections', [])):
        i, o = set(_union(results, f'in{s}')), set(_union(results, f'out{s}'))
        if i & o or (i | o) != want:
            return 'sections', f'{kind} {arg}: {len(i)} + {len(o)} faces, {len(i & o)} in both, boundary has {len(want)}'
        w = set()
        for e, fid in want:
            p = fc[e][fid]
            if kind == 'ounv':
                v = nv[e][fid]
                if v is None:
                    w = None
                    break
                if any(np.max(np.abs(v - np.asarray(a))) < 1e-5 for a in arg):
                    w.add((e, fid))
            elif kind in ('on straight lines', 'on straight segments'):
                for (x0, y0), (x1, y1) in arg:
                    d = np.array([x1 - x0, y1 - y0])
                    q = p - np.array([x0, y0])
                    off = np.abs(q[:, 0] * d[1] - q[:, 1] * d[0]) / np.hypot(*d)
                    t = q @ d / (d @ d)
                    if np.all(off < 1e-7 * sc) and (kind.endswith('lines') or np.all((t > -1e-7) & (t < 1 + 1e-7))):
                        w.add((e, fid))
            elif kind == 'in polygons':
                for (x0, y0), (x1, y1) in arg:
                    if np.all((p[:, 0] > x0) & (p[:, 0] < x1) & (p[:, 1] > y0) & (p[:, 1] < y1)):
                        w.add((e, fid))
        if w is not None and w != i:
            return 'sections', f'{kind} {arg}: faces {sorted(map(str, i - w))[:5]} too many, {sorted(map(str, w - i))[:5]} missing'
        ns = results[0]['same'][f'nsec{s}']
        if tuple(ns) != (len(i), len(o)):
            return 'sections', f'{kind}: {ns} faces counted, {len(i), len(o)} exist'
    return None

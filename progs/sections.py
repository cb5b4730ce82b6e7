"""A mixed Poisson problem whose boundary is split into any number of sections, described in any of the ways the library offers."""
import numpy as np

from progs.lib import Obs, mesh_args, base_count, fields
from progs.poisson import note_system


# ---- the boundary as pieces: straight segments, each side cut into two halves -------------------
def corners(mesh):
    if mesh['kind'] == 'quad':
        return [(0., 0.), (1., .1), (1.1, 1.), (-.1, .9)]
    (a, b), (c, d) = mesh.get('bounds', [[0, 1]] * 2)
    return [(a, c), (b, c), (b, d), (a, d)]


def pieces(mesh):
    """piece 2i, 2i+1 = the halves of side i"""
    if mesh.get('n') == 3:
        return [None] * 12
    P, out = corners(mesh), []
    for i in range(4):
        p, q = np.array(P[i], float), np.array(P[(i + 1) % 4], float)
        m = (p + q) / 2
        out += [(tuple(p.tolist()), tuple(m.tolist())), (tuple(m.tolist()), tuple(q.tolist()))]
    return out


NORMALS = [(0, -1), (1, 0), (0, 1), (-1, 0)]
NORMALS3 = [(-1, 0, 0), (1, 0, 0), (0, -1, 0), (0, 1, 0), (0, 0, -1), (0, 0, 1)]


def which_piece(mesh, *x):
    """the piece every point of the boundary belongs to"""
    X = np.array(np.broadcast_arrays(*x), float)
    if mesh.get('n') == 3:
        d = [abs(X[i] - v) for i, (a, b) in enumerate(mesh.get('bounds', [[0, 1]] * 3)) for v in (a, b)]
        return 2 * np.argmin(d, axis=0)
    best, where = None, None
    for i, (p, q) in enumerate(pieces(mesh)):
        p, q = np.array(p), np.array(q)
        w = q - p
        s = np.clip(((X[0] - p[0]) * w[0] + (X[1] - p[1]) * w[1]) / (w @ w), 0, 1)
        d = np.hypot(X[0] - p[0] - s * w[0], X[1] - p[1] - s * w[1])
        if best is None:
            best, where = d, np.zeros(d.shape, int)
        else:
            where = np.where(d < best, i, where)
            best = np.minimum(d, best)
    return where


def bump(mesh, *x):
    """a function on the boundary that vanishes at the ends of all pieces"""
    X = np.array(np.broadcast_arrays(*x), float)
    if mesh.get('n') == 3:
        g = np.ones(X[0].shape)
        for i, (a, b) in enumerate(mesh.get('bounds', [[0, 1]] * 3)):
            s = np.sin(np.pi * (X[i] - a) / (b - a)) ** 2
            g = np.where(s > 1e-20, g * s, g)           # on the two faces of this direction: the product over the others
        edge = sum((np.minimum(abs(X[i] - a), abs(X[i] - b)) < 1e-8).astype(int) for i, (a, b) in enumerate(mesh.get('bounds', [[0, 1]] * 3)))
        return np.where(edge > 1, 0., g)
    g = np.zeros(X[0].shape)
    where = which_piece(mesh, *x)
    for i, (p, q) in enumerate(pieces(mesh)):
        p, q = np.array(p), np.array(q)
        w = q - p
        s = ((X[0] - p[0]) * w[0] + (X[1] - p[1]) * w[1]) / (w @ w)
        g = np.where(where == i, np.sin(np.pi * s) ** 2, g)
    return g


def joined(P, mine):
    """the segments, halves of one side joined (a face may lie across its middle)"""
    out = []
    for i in sorted(mine):
        if i ^ 1 in mine:
            if i % 2 == 0:
                out.append((P[i][0], P[i + 1][1]))
        else:
            out.append(P[i])
    return out


def describe(ph, mesh, section, complement):
    """the argument that describes a section (or, if complement, everything but `section`)"""
    from phyem.tools.miscellaneous.geometries import m2n2 as G
    P, how, mine = pieces(mesh), section['how'], section['pieces']
    pre = 'except ' if complement else ''
    if how == 'ounv':
        N = NORMALS3 if mesh.get('n') == 3 else NORMALS
        v = tuple(N[i] for i in sorted({p // 2 for p in mine}))
        if len(v) == 1 and section.get('bare'):
            v = v[0]
        return {pre + 'ounv': v}
    if how == 'lines':
        L = [(P[2 * i][0], P[2 * i + 1][1]) for i in sorted({p // 2 for p in mine})]
        if section.get('bare'):
            L = [G.StraightLine2(G.Point2(*a), G.Point2(*b)) for a, b in L]
        return {pre + 'on straight lines': tuple(L)}
    if how == 'segments':
        L = joined(P, mine)
        if section.get('bare'):
            L = [G.StraightSegment2(G.Point2(*a), G.Point2(*b)) for a, b in L]
        return {pre + 'on straight segments': tuple(L)}
    if how == 'polygons':
        L = []
        for (x0, y0), (x1, y1) in joined(P, mine):
            w = np.array([-(y1 - y0), x1 - x0])
            w = w * .01
            V = [(x0, y0), (x1, y1), (x1 + w[0], y1 + w[1]), (x0 + w[0], y0 + w[1])]
            k = section.get('turn', 0)
            L.append(G.Polygon2(*[G.Point2(*q) for q in V[k:] + V[:k]]))
        return {pre + 'in polygons': tuple(L)}
    if how == 'curves':
        L = []
        for (x0, y0), (x1, y1) in joined(P, mine):
            L.append(G.Curve2(lambda t, a=x0, b=x1: a + t * (b - a), lambda t, a=y0, b=y1: a + t * (b - a), [0, 1]))
        return {pre + 'on curves': tuple(L)}
    raise ValueError(how)


def data_of(ph, spec, n):
    """(scalar, vector) as functions of the amplitudes given to the pieces"""
    s, v = fields(n, spec.get('shift', 0.), False)
    mesh = spec['mesh']

    def vary(f, amp):
        if not any(amp):
            return f
        A = np.array(amp)

        def of(t, X):
            return f(t, *X) + np.cos(t) * A[which_piece(mesh, *X)] * bump(mesh, *X)
        return (lambda t, x, y: of(t, (x, y))) if n == 2 else lambda t, x, y, z: of(t, (x, y, z))
    return (lambda amp: ph.vc.scalar(vary(s, amp))), lambda amp: ph.vc.vector(*[vary(f, amp) for f in v])


def layer(section):
    """0: conditions of the first kind of unknown, 1: those of the vorticity"""
    return int(section['kind'].isupper())


def split(pde, names, secs, conditions):
    for k in (0, 1):
        mine = [(nm, s) for nm, s in zip(names, secs) if layer(s) == k]
        if len(mine) == 1:          # on all of the boundary
            pde.bc.define_bc({pde.bc._boundary._sym_repr: conditions[mine[0][1]['kind']]})
        elif mine:
            pde.bc.partition(*[nm for nm, _ in mine])
            pde.bc.define_bc({nm: conditions[s['kind']] for nm, s in mine})


def poisson(ph, n, ori, names, secs):
    inner = ori == 'inner'
    ph.config.set_embedding_space_dim(n)
    manifold = ph.manifold(n, periodic=False)
    mesh = ph.mesh(manifold)
    if inner:
        Lu, Lp = ph.space.new('Lambda', 1, orientation=ori), ph.space.new('Lambda', 0, orientation=ori)
    else:
        Lu, Lp = ph.space.new('Lambda', n - 1, orientation=ori), ph.space.new('Lambda', n, orientation=ori)
    phi = Lp.make_form(r'\varphi', 'potential')
    u = Lu.make_form(r'u', 'velocity')
    f = Lp.make_form(r'f', 'source')
    if inner:
        d_phi, ds_u = phi.exterior_derivative(), u.codifferential()
        pde = ph.pde(['u = d_phi', 'f = ds_u'], locals())
        tr = {'e': ph.trace(phi), 'n': ph.trace(ph.Hodge(u))}
    else:
        d_u, ds_phi = u.exterior_derivative(), phi.codifferential()
        pde = ph.pde(['u = - ds_phi', 'f = - d_u'], locals())
        tr = {'e': ph.trace(u), 'n': ph.trace(ph.Hodge(phi))}
    pde._indi_dict = None
    pde.unknowns = [u, phi]
    split(pde, names, secs, tr)
    wf = pde.test_with([Lu, Lp], sym_repr=['v', 'q'])
    wf = wf.derive.integration_by_parts('1-1' if inner else '0-1')
    wf = wf.derive.rearrange({0: '0, 1 = ', 1: '1 = 0, 2'} if inner else {0: '0, 1 = 2', 1: '1 = 0'})
    return wf, (dict(e='potential', n='velocity') if inner else dict(e='velocity', n='potential')), 'source'


def stokes(ph, n, ori, names, secs):
    """two conditions at every point of the boundary: normal velocity or pressure, and vorticity or tangential velocity"""
    ph.config.set_embedding_space_dim(n)
    manifold = ph.manifold(n, periodic=False)
    mesh = ph.mesh(manifold)
    Lw, Lu, Lp = [ph.space.new('Lambda', k, orientation='outer') for k in (n - 2, n - 1, n)]
    w = Lw.make_form(r'\omega', 'vorticity')
    u = Lu.make_form(r'u', 'velocity')
    f = Lu.make_form(r'f', 'force')
    P = Lp.make_form(r'P', 'pressure')
    d_w, cd_P, cd_u, d_u = w.exterior_derivative(), P.codifferential(), u.codifferential(), u.exterior_derivative()
    pde = ph.pde(['u + d_w - cd_P = f', 'w - cd_u = 0', 'd_u = 0'], locals())
    pde._indi_dict = None
    pde.unknowns = [u, w, P]
    split(pde, names, secs, dict(e=ph.trace(u), n=ph.trace(ph.Hodge(P)), E=ph.trace(w), N=ph.trace(ph.Hodge(u))))
    wf = pde.test_with([Lu, Lw, Lp], sym_repr=['v', 'z', 'q'])
    wf = wf.derive.integration_by_parts('0-2')
    wf = wf.derive.integration_by_parts('1-1')
    if not any(s['kind'] == 'N' for s in secs):
        wf = wf.derive.delete('1-2')
        wf = wf.derive.rearrange({0: '0, 1, 2 = 4, 3', 1: '0, 1 = ', 2: None})
    else:
        wf = wf.derive.rearrange({0: '0, 1, 2 = 4, 3', 1: '0, 1 = 2', 2: None})
    return wf, dict(e='velocity', n='pressure', E='vorticity', N='velocity'), 'force'


def main(ph, ctx, spec):
    O = Obs()
    mesh_spec = spec['mesh']
    n = mesh_spec.get('n', 2)
    secs = spec['sections']
    names = [r'\Gamma_{%s}' % 'abcdefghijkl'[i] for i in range(len(secs))]
    build = stokes if spec.get('problem') == 'stokes' else poisson
    wf, roots, src_name = build(ph, n, spec['orientation'], names, secs)
    ph.space.finite(spec['degree'])
    msehtt, obj = ph.fem.apply('msehtt-s', {'ls': wf.mp().ls()})
    base = msehtt.base
    a, kw = mesh_args(mesh_spec)
    msehtt.config('tgm')(*a, **kw)
    tgm = base['the_great_mesh']
    O.info['nbase'] = base_count(tgm)
    m, F = base['meshes'], base['forms']
    M = m[r'\mathfrak{M}']
    msehtt.config(M)(tgm, 'all')
    src = F[src_name]
    B = m[r'\eth\mathfrak{M}']
    msehtt.config(B)(tgm, M)
    S = []
    for nm, s in zip(names, secs):
        if sum(layer(o) == layer(s) for o in secs) == 1:
            S.append(B)
            continue
        sec = [m[k] for k in m if nm in k][0]
        if s.get('rest'):
            others = dict(how=s['how'], bare=s.get('bare'), turn=s.get('turn', 0), pieces=[p for o in secs if o is not s and layer(o) == layer(s) for p in o['pieces']])
            what = describe(ph, mesh_spec, others, True)
        else:
            what = describe(ph, mesh_spec, s, False)
        msehtt.config(sec)(tgm, dict({'type': s.get('word', 'boundary_section'), 'partial elements': M}, **what))
        S.append(sec)
    # ---- the sections cover the boundary, each face once, each face where it should be
    note_faces(ctx, O, B, S, secs, mesh_spec, n)
    # ---- the system
    scalar, vector = data_of(ph, spec, n)
    by = {True: scalar, False: vector}
    is_scalar = lambda f: f.space.abstract.k in (0, n)
    src.cf = by[is_scalar(src)]([])
    ls = obj['ls'].apply()
    for i in spec.get('order', range(len(secs))):
        s, sec = secs[i], S[i]
        what = 'essential bc' if s['kind'] in 'eE' else 'natural bc'
        root = F[roots[s['kind']]]
        if s.get('amps'):
            A = [0.] * 12
            for p in s['pieces']:
                A[p] = s['amps'][str(p)]
        else:
            A = [s.get('amp', 0.)] * 12
        ls.config([what, 1], sec, by[is_scalar(root)](A), root_form=root)
    for i, s in enumerate(secs):
        if s['kind'] in 'nN':
            natural(ph, ctx, O, F[partner(spec, s['kind'])], S[i], is_scalar(F[roots[s['kind']]]), n, spec)
    for step, t in enumerate(spec.get('times', [0])):
        src[t].reduce()
        lls = ls(t)
        als = lls.assemble()
        note_system(ctx, O, f'sys{step}', lls, als)
        x, msg, info = als.solve('spsolve')
        O.same[f'sys{step}.x'] = np.array(x)
    return O.d()


def note_faces(ctx, O, B, S, secs, mesh_spec, n):
    for name, sec in [('B', B)] + [(str(i), s) for i, s in enumerate(S)]:
        for key in sec.composition:
            face = sec.composition[key]
            X = face.ct.mapping(*[np.array([.0])] * (1 if n == 2 else 3))
            O.elem.setdefault('faces', {})[(name,) + tuple(key)] = np.array([float(np.ravel(x)[0]) for x in X])
            if name != 'B':
                p = int(np.ravel(which_piece(mesh_spec, *[np.array([float(np.ravel(x)[0])]) for x in X]))[0])
                mine = secs[int(name)]['pieces']
                ok = p in mine or n == 3 and p // 2 in [q // 2 for q in mine]
                O.check('wrong-section', ok, True)
        O.elem.setdefault('count', {})[(name, ctx.rank)] = len(list(sec.composition))


def partner(spec, kind):
    """the unknown whose test functions a natural condition is paired with"""
    if spec.get('problem') == 'stokes':
        return 'velocity' if kind == 'n' else 'vorticity'
    return 'potential' if spec['orientation'] == 'inner' else 'velocity'


def natural(ph, ctx, O, f, sec, scalar, n, spec):
    """the boundary term of one section with data that the library's quadrature integrates exactly, contracted with a known cochain"""
    t = .3
    s, v = fields(n, .7, False)
    is_scalar = f.space.abstract.k in (0, n)
    f.cf = ph.vc.scalar(s) if is_scalar else ph.vc.vector(*v)
    C = [[1., .5, -.3, .2], [-.4, .3, .6, -.7], [.8, -.2, .1, .5]]
    lin = [(lambda c: (lambda t, x, y: c[0] + t + c[1] * x + c[2] * y) if n == 2 else lambda t, x, y, z: c[0] + t + c[1] * x + c[2] * y + c[3] * z)(c) for c in C]
    data = ph.vc.scalar(lin[0]) if scalar else ph.vc.vector(*lin[:n])
    f[t].reduce()
    got = f.bi.with_vc_over_boundary_section(t, data, sec)
    x, w = np.polynomial.legendre.leggauss(7)
    total, rough = {}, {}
    for e, face_id in sec.composition:
        et = f.tgm.elements[e].etype
        if et not in ('orthogonal rectangle', 9, 'orthogonal hexahedron'):
            if n == 2 or spec['mesh']['kind'] != 'crazy':
                total[e] = None
                continue
            rough.setdefault(e, 0.)  # a curved element, the sides on the boundary of the box are rectangles
        axis, side = face_id // 2, 2 * (face_id % 2) - 1
        grid = [np.array([float(side)]) if i == axis else x for i in range(n)]
        if e in rough:
            X = [np.ravel(a) for a in f.tgm.elements[e].ct.mapping(*[g.ravel('F') for g in np.meshgrid(*grid, indexing='ij')])]
            V = [g(t, *X) for g in ([s] if is_scalar else v)]
        else:
            X, V = f[t].reconstruct(*grid, ravel=True, element_range=[e])
            X, V = [np.ravel(a[e]) for a in X], [np.ravel(a[e]) for a in V]
        if n == 2:
            a = np.array([(c[-1] - c[0]) / (x[-1] - x[0]) for c in X])
            area, W = np.linalg.norm(a), w
            N = np.array([a[1], -a[0]]) / area
        else:
            G = [c.reshape([len(g) for g in grid], order='F').squeeze() for c in X]
            a, b = [np.array([(g[i] - g[0, 0]) / (x[-1] - x[0]) for g in G]) for i in ((-1, 0), (0, -1))]
            N = np.cross(a, b)
            area = np.linalg.norm(N)
            N, W = N / area, np.kron(w, w)
        centre = [np.ravel(c) for c in f.tgm.elements[e].ct.mapping(*[np.array([0.])] * n)]
        if sum((X[i][0] - centre[i][0]) * N[i] for i in range(n)) < 0:
            N = -N
        D = [g(t, *X) for g in lin]
        if scalar:                  # data * normal component
            val = D[0] * sum(V[i] * N[i] for i in range(n))
        elif is_scalar:
            if f.space.abstract.orientation == 'inner':
                val = V[0] * sum(D[i] * N[i] for i in range(n))
            else:
                val = V[0] * (D[0] * N[1] - D[1] * N[0])
        else:                       # (data x normal) . w
            val = (D[1] * N[2] - D[2] * N[1]) * V[0] + (D[2] * N[0] - D[0] * N[2]) * V[1] + (D[0] * N[1] - D[1] * N[0]) * V[2]
        if total.get(e, 0.) is not None:
            total[e] = total.get(e, 0.) + float(np.sum(W * val) * area)
            if e in rough:
                rough[e] += float(np.sum(W * np.abs(val)) * area)
    O.check('natural-elements', sorted(map(str, got)), sorted(map(str, total)))
    for e, want in total.items():
        if want is not None and e in got:
            O.check('natural', float(np.dot(got[e], f.cochain[t][e])), want, 1e-8 if e not in rough else 0., 1e-9 + .4 * rough.get(e, 0.))
    f.cochain.clean('all')

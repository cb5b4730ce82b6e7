"""Nonlinear terms of three (or two) forms: as operators, matrices, vectors; against integrals of reconstructed forms."""
import itertools

import numpy as np

from progs.lib import Obs, setup

# term -> (module, class, is B derived, is C derived, what the integrand is)
TERMS = {
    'AxB.C': ('trilinear_AxB_ip_C', 'AxB_ip_C', 0, 0, 'cross'),
    'AxB|C': ('trilinear_AxB_dp_C', 'AxB_dp_C', 0, 0, 'cross'),
    'AxB.dC': ('trilinear_AxB_ip_dC', 'AxB_ip_dC', 0, 1, 'cross'),
    'AB.dC': ('trilinear_AB_ip_dC', 'AB_ip_dC', 0, 1, 'mult'),
    'AdB.dC': ('trilinear_AdB_ip_dC', 'AdB_ip_dC', 1, 1, 'mult'),
    'AdB.C': ('trilinear_AdB_ip_C', 'AdB_ip_C', 1, 0, 'mult'),
    'AB.C': ('trilinear_ABC', 'T_ABC', 0, 0, 'mult'),
}


def cross(a, b, c):
    na, nb, nc = len(a), len(b), len(c)
    if (na, nb, nc) == (1, 2, 2):
        return a[0] * (b[0] * c[1] - b[1] * c[0])
    if (na, nb, nc) == (2, 2, 1):
        return (a[0] * b[1] - a[1] * b[0]) * c[0]
    if (na, nb, nc) == (2, 1, 2):
        return b[0] * (a[1] * c[0] - a[0] * c[1])
    return ((a[1] * b[2] - a[2] * b[1]) * c[0] + (a[2] * b[0] - a[0] * b[2]) * c[1] + (a[0] * b[1] - a[1] * b[0]) * c[2])


def mult(a, b, c):
    if len(b) == len(c):
        return a[0] * sum(x * y for x, y in zip(b, c))
    return b[0] * sum(x * y for x, y in zip(a, c))


def top(d):
    return d if isinstance(d, int) else max(x if isinstance(x, int) else len(x) for x in d)


def near(spec):
    """the terms are integrated with few points"""
    return .1 if spec['mesh'].get('c', .05) <= .05 else .3


def main(ph, ctx, spec):
    j = setup(ph, dict(spec, boundary=False))
    COMM = ctx.mod('phyem.src.config').COMM
    base = 'phyem.msehtt.static.form.addons.nop_data_computer.'
    O = Obs()
    O.info['nbase'] = j.nbase
    els = j.tgm.elements
    for q, job in enumerate(spec['terms']):
        kind, ids, ts = job['term'], job['forms'], job['times']
        F = [j.forms[i] for i in ids]
        for f, t in zip(F, ts):
            f[t].reduce()
        if kind == 'log':
            log_term(ph, ctx, spec, j, O, q, F, ts, base)
            continue
        mod, cls, db, dc, how = TERMS[kind]
        T = getattr(ctx.mod(base + mod), cls)
        try:
            noc = T(*F)
            noc._make_3d_data()
        except NotImplementedError as e:
            noc, why = None, str(e)
        if any(COMM.allgather(noc is None)):
            O.info.setdefault('missing', []).append((kind, spec['mesh']['kind'], [j.kinds[i] for i in ids]))
            continue
        key = f'{q}.{kind}'
        coch = [{e: np.array(f[t].cochain[e]) for e in els if e in j.M.composition} for f, t in zip(F, ts)]
        mine = {}
        # -- by vectors, for each choice of the test form
        for w in range(3):
            if len({id(f) for f in F}) < 3:
                break
            vec, _ = noc(1, F[w])
            others = [i for i in range(3) if i != w]
            if ts[others[0]] != ts[others[1]]:
                F[others[1]][ts[others[0]]].reduce()
            t = ts[others[0]]
            cc = [{e: np.array(F[i][t].cochain[e]) for e in coch[0]} for i in others]
            s = vec(t)
            loc = {e: np.array(s[e]) for e in coch[0]}
            O.elem[f'{key}.vec{w}'] = loc
            mine[('vec', w)] = (w, t, sum(float(loc[e] @ coch[w][e]) for e in loc))
            tot = COMM.allreduce(mine[('vec', w)][2])
            g = s.assemble()
            x = F[w][ts[w]].cochain.gathered_global_vector.V
            O.check(f'{key}.assembled{w}', COMM.allreduce(float(np.dot(g.V, x))), tot, 1e-9, 1e-10)
            # -- by matrices
            for row, col in [(w, others[0]), (w, others[1])]:
                giv = others[1] if col == others[0] else others[0]
                m = noc(2, F[row], F[col])
                s2 = m(t)
                loc2 = {e: np.asarray(s2[e].todense() if hasattr(s2[e], 'todense') else s2[e]) for e in coch[0]}
                O.elem[f'{key}.mat{row}{col}'] = loc2
                for e in loc2:
                    O.check(f'{key}.matrix', loc2[e] @ F[col][t].cochain[e], loc[e], 1e-9, 1e-11)
                A = s2.assemble()
                y = A.M @ F[col][t].cochain.gathered_global_vector.V
                O.check(f'{key}.assembled{row}{col}', COMM.allreduce(float(np.dot(y, x))), tot, 1e-9, 1e-10)
        # -- by quadrature of what the forms are
        p = top(spec['degree']) + 4 + (1 if spec['mesh'].get('c') else 0)
        nodes, weights = np.polynomial.legendre.leggauss(p)
        ws = np.array([np.prod(x) for x in itertools.product(weights, repeat=j.n)])
        W = np.array([np.prod([weights[i] for i in ix]) for ix in np.ndindex(*([p] * j.n))]).reshape([p] * j.n)
        coo = np.meshgrid(*[nodes] * j.n, indexing='ij')

        def values(i, t):
            f = F[i]
            if (i == 1 and db) or (i == 2 and dc):
                f = f.d()
            try:
                v = f[t].reconstruct(*[nodes] * j.n, ravel=False)[1]
            except NotImplementedError:
                return None
            return v
        for (what, w), (_, t, val) in mine.items():
            tt = [t, t, t]
            tt[w] = ts[w]
            vals = [values(i, x) for i, x in zip(range(3), tt)]
            if any(COMM.allgather(any(v is None for v in vals))):
                O.info.setdefault('no reconstruction', []).append(kind)
                break
            total = size = 0.
            for e in coch[0]:
                abc = [[np.asarray(c[e]).reshape([p] * j.n) for c in v] for v in vals]
                detJ = els[e].ct.Jacobian(*[c.ravel('F') for c in coo])
                detJ = np.asarray(detJ) * np.ones(p ** j.n)
                detJ = detJ.reshape([p] * j.n, order='F')
                f = (cross if how == 'cross' else mult)(*abc)
                total += float(np.sum(W * detJ * f))
                size += float(np.sum(W * abs(detJ) * np.prod([np.sqrt(sum(c ** 2 for c in x)) for x in abc], axis=0)))
            total, size, val = COMM.allreduce(total), COMM.allreduce(size), COMM.allreduce(val)
            O.same[f'{key}.{what}{w}'] = val
            O.check(f'{key}.integral', val, total, 0, (1e-9 if spec['exact'] else near(spec)) * size + 1e-12)
    return O.d()


def log_term(ph, ctx, spec, j, O, q, F, ts, base):
    COMM = ctx.mod('phyem.src.config').COMM
    LogAB = ctx.mod(base + 'log_A_ip_B').LogAB
    t = ts[0]
    A, B = F[:2]
    s = ph.vc.scalar((lambda t, x, y: 2 + .5 * np.sin(2 * np.pi * (x + y) + t)) if j.n == 2 else lambda t, x, y, z: 2 + .5 * np.sin(2 * np.pi * (x - z) + t))
    A.cf = s
    A[t].reduce()
    O.same[f'{q}.log.posed'] = True
    v = None
    try:
        v = LogAB(A, B).vector(B)(t)
        loc = {e: np.array(v[e]) for e in j.M.composition}
    except NotImplementedError:
        v = None
    if any(COMM.allgather(v is None)):
        return
    O.elem[f'{q}.log'] = loc
    B[ts[1]].reduce()
    tot = COMM.allreduce(sum(float(loc[e] @ B[ts[1]].cochain[e]) for e in loc))
    O.same[f'{q}.log.total'] = tot
    p = 9
    nodes, weights = np.polynomial.legendre.leggauss(p)
    W = np.array([np.prod([weights[i] for i in ix]) for ix in np.ndindex(*([p] * j.n))]).reshape([p] * j.n)
    coo = np.meshgrid(*[nodes] * j.n, indexing='ij')
    try:
        a, b = [f[x].reconstruct(*[nodes] * j.n, ravel=False)[1][0] for f, x in ((A, t), (B, ts[1]))]
    except NotImplementedError:
        a = None
    if any(COMM.allgather(a is None)):
        return
    total = size = 0.
    # (a coarse interpolation of a positive field may be negative somewhere)
    if any(COMM.allgather(any(np.min(a[e]) < .5 for e in loc))):
        return
    for e in loc:
        detJ = np.asarray(j.tgm.elements[e].ct.Jacobian(*[c.ravel('F') for c in coo])) * np.ones(p ** j.n)
        detJ = detJ.reshape([p] * j.n, order='F')
        x, y = np.asarray(a[e]).reshape([p] * j.n), np.asarray(b[e]).reshape([p] * j.n)
        total += float(np.sum(W * detJ * np.log(x) * y))
        size += float(np.sum(W * abs(detJ) * abs(np.log(x) * y)))
    total, size = COMM.allreduce(total), COMM.allreduce(size)
    O.check(f'{q}.log.integral', tot, total, 0, (1e-5 if spec['exact'] else near(spec)) * size + 1e-12)

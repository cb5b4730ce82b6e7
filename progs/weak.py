"""Time steps of  dc/dt + N = 0  on periodic meshes, N a nonlinear term of known (old) forms and perhaps the unknown; judged by integrals."""
import numpy as np

from progs.lib import Obs, mesh_args, base_count, field


def equation(ph, name, degree):
    ph.config.set_embedding_space_dim(2)
    manifold = ph.manifold(2, periodic=True)
    mesh = ph.mesh(manifold)
    S = {(k, o): ph.space.new('Lambda', k, orientation=o) for k in range(3) for o in ('outer', 'inner')}
    o0, o1, o2, i1 = S[0, 'outer'], S[1, 'outer'], S[2, 'outer'], S[1, 'inner']
    w = o0.make_form(r'\omega', 'w')
    u = o1.make_form(r'u', 'u')
    v = o1.make_form(r'v', 'v')
    s = o2.make_form(r's', 's')
    c1 = o1.make_form(r'c_1', 'c1')
    c0 = o0.make_form(r'c_0', 'c0')
    c2 = o2.make_form(r'c_2', 'c2')
    un, space, expr, known, side = {
        'wxu': lambda: (c1, o1, w.cross_product(u), [w, u], 'right'),
        'wxc': lambda: (c1, o1, w.cross_product(c1), [w], 'left'),
        'uxv': lambda: (c0, o0, u.cross_product(v), [u, v], 'right'),
        'log': lambda: (c2, o2, s.log(), [s], 'right'),
        'advect': lambda: (c0, o0, c0.multi(u, o1).codifferential(), [u], 'left'),
        'advect*': lambda: (c0, o0, w.multi(u, o1).codifferential(), [w, u], 'right'),
    }[name]()
    dc = un.time_derivative()
    pde = ph.pde(['dc + expr = 0'], dict(dc=dc, expr=expr))
    pde.unknowns = [un]
    wf = pde.test_with([space], sym_repr=['z'])
    if 'advect' in name:
        wf = wf.derive.integration_by_parts('0-1')
    ts = ph.time_sequence()
    dt = ts.make_time_interval('k-1', 'k', sym_repr=r'\Delta t')
    td = wf.td
    td.set_time_sequence(ts)
    td.define_abstract_time_instants('k-1', 'k-1/2', 'k')
    td.differentiate('0-0', 'k-1', 'k')
    for f in known:
        td.average('0-1', f, ['k-1'])
    if un in expr.elementary_forms:
        td.average('0-1', un, ['k'])
    wf = td()
    wf.unknowns = [un @ ts['k']]
    wf = wf.derive.split('0-0', 'f0', [un @ ts['k'], un @ ts['k-1']], ['+', '-'], factors=[1 / dt, 1 / dt])
    kn = [f @ ts['k-1'] for f in known]
    wf.terms['0-2'].add_extra_info({'known-forms': kn if len(kn) > 1 else kn[0]})
    wf = wf.derive.rearrange({0: '0, 2 = 1' if side == 'left' else '0 = 1, 2'})
    ph.space.finite(degree)
    ls = wf.mp().ls()
    return dict(ls=ls, ts=ts, w=w, u=u, v=v, s=s, c1=c1, c0=c0, c2=c2), un, known


def main(ph, ctx, spec):
    COMM = ctx.mod('phyem.src.config').COMM
    O = Obs()
    name = spec['name']
    L, un, known = equation(ph, name, spec['degree'])
    msehtt, obj = ph.fem.apply('msehtt-s', L)
    base = msehtt.base
    a, kw = mesh_args(spec['mesh'])
    msehtt.config('tgm')(*a, **kw)
    tgm = base['the_great_mesh']
    O.info['nbase'] = base_count(tgm)
    M = [m for m in base['meshes'].values()][0]
    msehtt.config(M)(tgm, 'all')
    F = {k: obj[k] for k in ('w', 'u', 'v', 's', 'c1', 'c0', 'c2')}
    for q, (k, f) in enumerate(F.items()):
        f.cf = field(ph, 2, {'w': 0, 'u': 1, 'v': 1, 's': 2, 'c1': 1, 'c0': 0, 'c2': 2}[k], spec.get('variant', 0) + .4 * q, True)
    F['s'].cf = ph.vc.scalar(lambda t, x, y: 2 + .5 * np.sin(2 * np.pi * (x + y) + t))
    ts = L['ts']
    ts.specify('constant', [0, 1, 40], 2)
    dt = .05
    c = [f for k, f in F.items() if L[k] is un][0]
    kn = [[f for k, f in F.items() if L[k] is g][0] for g in known]
    c[0].reduce()
    ls = obj['ls'].apply()
    p = spec['degree'] + 3
    nodes, weights = np.polynomial.legendre.leggauss(p)
    W = np.outer(weights, weights)
    coo = np.meshgrid(nodes, nodes, indexing='ij')
    from numpy.polynomial import legendre
    d = spec['degree']
    # mass matrices are integrated at the Lobatto points
    lob = np.concatenate([[-1.], np.sort(legendre.Legendre.basis(d).deriv().roots().real), [1.]])
    lw = 2 / (d * (d + 1) * legendre.Legendre.basis(d)(lob) ** 2)
    LW, lcoo = np.outer(lw, lw), np.meshgrid(lob, lob, indexing='ij')
    test = F[{'c1': 'v', 'c0': 'w', 'c2': 's'}[[k for k in F if F[k] is c][0]]]

    def rec(f, t, nodes=nodes):
        v = f[t].reconstruct(nodes, nodes, ravel=False)[1]
        return [{e: np.asarray(x[e]).reshape(len(nodes), len(nodes)) for e in x} for x in v]
    for k in range(1, spec['steps'] + 1):
        t0, t1 = (k - 1) * dt, k * dt
        for f in kn:
            f[t0].reduce()
        lls = ls(k=k)
        als = lls.assemble()
        r = als.solve(*spec['solver'])
        x = r[0]
        lls.x.update(np.array(x))
        t1 = c.cochain.newest
        O.same[f'{k}.t'] = float(t1)
        O.check(f'{k}.time', float(t1), k * dt, 0, 1e-9)
        O.elem[f'{k}.c'] = {e: np.array(c[t1].cochain[e]) for e in c.cochain.gathering_matrix}
        O.same[f'{k}.norm'] = float(c[t1].norm())
        # -- the equation, tested with the reduction of some field and (scalars) with one
        new, now, old = rec(c, t1), rec(c, t1, lob), rec(c, t0, lob)
        test[7.].reduce()
        tests = [(rec(test, 7.), rec(test, 7., lob), rec(test.d(), 7.) if 'advect' in name else None)]
        if len(new) == 1 and name != 'log':
            one = [{e: np.ones((p, p)) for e in new[0]}]
            tests.append((one, [{e: np.ones((d + 1, d + 1)) for e in new[0]}], [{e: np.zeros((p, p)) for e in new[0]} for _ in range(2)]))
        K = [rec(f, t0) for f in kn]
        for q, (z, zl, dz) in enumerate(tests):
            total = size = 0.
            for e in new[0]:
                J = np.asarray(tgm.elements[e].ct.Jacobian(*[x.ravel('F') for x in coo])) * np.ones(p * p)
                J = J.reshape(p, p, order='F') * W
                g = lambda f: [y[e] for y in f]
                Z = g(z)
                JL = np.asarray(tgm.elements[e].ct.Jacobian(*[x.ravel('F') for x in lcoo])) * np.ones(LW.size)
                JL = JL.reshape(*LW.shape, order='F') * LW
                dn = JL * sum((a - b) * y for a, b, y in zip(g(now), g(old), g(zl))) / dt
                if name in ('wxu', 'wxc'):
                    ww, (ux, uy) = g(K[0])[0], g(K[1] if name == 'wxu' else new)
                    n = ww * (ux * Z[1] - uy * Z[0])
                elif name == 'uxv':
                    (ax, ay), (bx, by) = g(K[0]), g(K[1])
                    n = (ax * by - ay * bx) * Z[0]
                elif name == 'log':
                    n = np.log(g(K[0])[0]) * Z[0]
                else:
                    s0 = g(new if name == 'advect' else K[0])[0]
                    uu = g(K[0] if name == 'advect' else K[1])
                    n = s0 * sum(a * b for a, b in zip(uu, g(dz)))
                total += float(np.sum(J * n) + np.sum(dn))
                size += float(np.sum(J * abs(n)) + np.sum(abs(dn)))
            total, size = COMM.allreduce(total), COMM.allreduce(size)
            O.check(f'{k}.equation{q}', total, 0., 0, (1e-8 if spec['exact'] and name != 'log' else .1 if spec['degree'] > 1 else .5) * (1 + size))
    return O.d()

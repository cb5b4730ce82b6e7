"""2d Navier-Stokes, MEEVC formulation: a nonlinear system per time step, solved by Newton-Raphson or Picard iterations."""
import numpy as np

from progs.lib import Obs, mesh_args, base_count, place


def formulation(ph, degree, periodic):
    ph.config.set_embedding_space_dim(2)
    manifold = ph.manifold(2, periodic=periodic)
    mesh = ph.mesh(manifold)
    Out0 = ph.space.new('Lambda', 0, orientation='outer')
    Out1 = ph.space.new('Lambda', 1, orientation='outer')
    Out2 = ph.space.new('Lambda', 2, orientation='outer')
    w = Out0.make_form(r'\tilde{\omega}', 'vorticity')
    u = Out1.make_form(r'\tilde{u}', 'velocity')
    P = Out2.make_form(r'\tilde{P}', 'pressure')
    Rn = ph.constant_scalar(r'\frac{1}{\mathrm{Re}}', "Re")
    Rn2 = ph.constant_scalar(r'\frac{1}{2\mathrm{Re}}', "Re2")
    w_x_u = w.cross_product(u)
    d_w = Rn * w.exterior_derivative()
    cd_P = P.codifferential()
    cd_u = u.codifferential()
    d_u = u.exterior_derivative()
    du_dt = u.time_derivative()
    pde = ph.pde(['du_dt + w_x_u + d_w - cd_P = 0', 'w - cd_u = 0', 'd_u = 0'], locals())
    pde.unknowns = [u, w, P]
    if not periodic:
        pde.bc.partition(r"\Gamma_{\perp}", r"\Gamma_P")
        pde.bc.define_bc({r"\Gamma_{\perp}": ph.trace(u), r"\Gamma_P": ph.trace(ph.Hodge(P))})
    wf = pde.test_with([Out1, Out0, Out2], sym_repr=[r'\tilde{v}', r'\tilde{w}', r'\tilde{q}'])
    wf = wf.derive.integration_by_parts('0-3')
    wf = wf.derive.integration_by_parts('1-1')
    if not periodic:
        wf = wf.derive.delete('1-2')
    ts = ph.time_sequence()
    dt = ts.make_time_interval('k-1', 'k', sym_repr=r'\Delta t')
    td = wf.td
    td.set_time_sequence(ts)
    td.define_abstract_time_instants('k-1', 'k-1/2', 'k')
    td.differentiate('0-0', 'k-1', 'k')
    td.average('0-1', w, ['k-1', 'k'])
    td.average('0-1', u, ['k-1', 'k'])
    td.average('0-2', w, ['k-1', 'k'])
    td.average('0-3', P, ['k-1/2', ])
    if not periodic:
        td.average('0-4', P, ['k-1/2', ])
    td.average('1-0', w, ['k', ])
    td.average('1-1', u, ['k', ])
    td.average('2-0', u, ['k', ])
    wf = td()
    wf.unknowns = [u @ ts['k'], w @ ts['k'], P @ ts['k-1/2']]
    wf = wf.derive.split('0-0', 'f0', [u @ ts['k'], u @ ts['k-1']], ['+', '-'], factors=[1 / dt, 1 / dt])
    wf = wf.derive.split('0-2', 'f0', [(w @ ts['k-1']).cross_product(u @ ts['k-1']), (w @ ts['k-1']).cross_product(u @ ts['k']),
                                       (w @ ts['k']).cross_product(u @ ts['k-1']), (w @ ts['k']).cross_product(u @ ts['k'])],
                         ['+', '+', '+', '+'], factors=[1 / 4, 1 / 4, 1 / 4, 1 / 4])
    wf = wf.derive.split('0-6', 'f0', [(w @ ts['k']).exterior_derivative(), (w @ ts['k-1']).exterior_derivative()], ['+', '+'], factors=[Rn2, Rn2])
    if periodic:
        wf = wf.derive.rearrange({0: '0, 3, 4, 5, 6, 8 = 1, 2, 7'})
    else:
        wf = wf.derive.rearrange({0: '0, 3, 4, 5, 6, 8 = 1, 2, 7, 9'})
    wf.terms['0-1'].add_extra_info({'known-forms': w @ ts['k-1']})
    wf.terms['0-2'].add_extra_info({'known-forms': u @ ts['k-1']})
    wf.terms['0-7'].add_extra_info({'known-forms': [w @ ts['k-1'], u @ ts['k-1']]})
    ph.space.finite(degree)
    nls = wf.mp().nls()
    return locals()


class Flow:
    def __init__(self, ph, spec, scheme='msehtt-s'):
        self.ph, self.spec = ph, spec
        per = self.periodic = bool(spec['mesh'].get('periodic'))
        L = formulation(ph, spec['degree'], per)
        self.ts = L['ts']
        msehtt, obj = ph.fem.apply(scheme, L)
        self.msehtt, self.obj = msehtt, obj
        base = msehtt.base
        a, kw = mesh_args(spec['mesh'])
        msehtt.config('tgm')(*a, **kw)
        self.tgm = base['the_great_mesh']
        self.nbase = base_count(self.tgm)
        m = base['meshes']
        self.M = [m[k] for k in m if r'\eth' not in k and r'\Gamma' not in k and 'boundary' not in k.lower()][0]
        msehtt.config(self.M)(self.tgm, 'all')
        self.w, self.u, self.P = obj['w'], obj['u'], obj['P']
        L['Rn2'].value = spec.get('nu', .05) / 2
        s = spec.get('shift', 0.)
        mv = spec.get('move', 0.)
        pi = np.pi

        def ux(t, x, y):
            return (1 + mv * t) * (np.sin(2 * pi * x + s) * np.cos(2 * pi * y) + .3 * np.cos(2 * pi * y))

        def uy(t, x, y):
            return (1 + mv * t) * (- np.cos(2 * pi * x + s) * np.sin(2 * pi * y) + .1 * np.sin(2 * pi * x))
        self.vel = ph.vc.vector(ux, uy)
        self.u.cf = self.vel
        self.w.cf = ph.vc.scalar(lambda t, x, y: 4 * pi * np.sin(2 * pi * x + s) * np.sin(2 * pi * y) + .2 * pi * np.cos(2 * pi * x)
                                 + .6 * pi * np.sin(2 * pi * y))
        self.w[0].reduce()
        self.u[0].reduce()
        self.nls = obj['nls'].apply()
        if not per:
            E = [m[k] for k in m if r'\eth' in k and r'\Gamma' not in k][0]
            msehtt.config(E)(self.tgm, self.M)
            bu = [m[k] for k in m if r'\perp' in k][0]
            bp = [m[k] for k in m if r'\Gamma_P' in k][0]
            kind, where = place(spec)
            msehtt.config(bu)(self.tgm, {'type': 'boundary_section', 'partial elements': self.M, 'except ' + kind: where})
            msehtt.config(bp)(self.tgm, {'type': 'boundary_section', 'partial elements': self.M, kind: where})
            self.bu = bu
            self.nls.config(['essential bc', 1], bu, self.vel, root_form=self.u)
            self.pres = ph.vc.scalar(lambda t, x, y: .1 * x - .2 * y + .05 * t)
            self.nls.config(['natural bc', 1], bp, self.pres, root_form=self.P)
        self.ts.specify('constant', [0, 1, 2 * spec.get('steps', 20)], 2)



def cochains(O, key, F):
    for name, f in (('u', F.u), ('w', F.w), ('P', F.P)):
        t = f.cochain.newest
        c = f.cochain[t]
        for e in c:
            O.elem.setdefault(f'{key}.{name}', {})[e] = np.array(c[e])
        O.same[f'{key}.{name}.t'] = float(t)
        O.same[f'{key}.{name}.norm'] = float(f[None].norm())


def anchor(COMM, P, place):
    """an (element, local dof, global dof) of the pressure, the same on every rank; independent of the numbering"""
    gm = P.cochain.gathering_matrix
    els = sorted({str(e): e for r in COMM.allgather(list(gm)) for e in r}.values(), key=str)
    e = els[place % len(els)]
    i = max(COMM.allgather(place % gm.num_local_dofs(e) if e in gm else -1))
    return e, i, max(COMM.allgather(int(gm[e][i]) if e in gm else -1))


def main(ph, ctx, spec):
    O = Obs()
    COMM = ctx.mod('phyem.src.config').COMM
    F = Flow(ph, spec)
    O.info['nbase'] = F.nbase
    nu0 = spec.get('nu', .05) == 0
    E = [float(F.u[0].norm())]
    for k, st in enumerate(spec['solves'], 1):
        one_step(COMM, F, O, k, st)
        E.append(O.same[f'{k}.u.norm'])
        if F.periodic and nu0 and O.same[f'{k}.info'] == 0 and (st.get('fine') or st.get('inner', [''])[0] not in ('gmres', 'lgmres')):
            O.check(f'{k}.energy', E[-1], E[-2], 1e-6 + (1e-4 if st.get('inner', [''])[0] == 'ppsp' else 0.) + 10 * st['atol'])
    return O.d()


def one_step(COMM, F, O, k, st):
    key = str(k)
    S = F.nls(k=k)
    scheme = st['scheme']
    P0 = None
    if F.periodic:
        e, i, g = anchor(COMM, F.P, st.get('where', 0))
        t = F.P.cochain.newest
        gm = F.P.cochain.gathering_matrix
        P0 = 0. if t is None else sum(COMM.allgather(float(F.P.cochain[t][e][i]) if e in gm else 0.))
        if st.get('anchor') == 'local' or scheme == 'Picard':
            P0 = st.get('value', 0.)
            S.customize.linear.set_local_dof(2, e, i, P0)
        else:
            S.customize.add_additional_constrain__fix_a_global_dof(2, g)
    kw = dict(scheme=scheme, atol=st['atol'], maxiter=st['maxiter'])
    if st.get('inner'):
        kw.update(inner_solver_scheme=st['inner'][0], inner_solver_kwargs=dict(st['inner'][1]))
    before = [snapshot(f) for f in (F.u, F.w, F.P)]
    x, msg, info = S.solve([F.u, F.w, F.P], **kw)
    r = [float(v) for v in info['residuals']]
    O.same[key + '.res'] = r
    O.same[key + '.info'] = info['convergence info']
    O.same[key + '.iters'] = len(r)
    cochains(O, key, F)
    ok = info['convergence info'] == 0
    slack = 1e-4 if st.get('inner', [''])[0] == 'ppsp' else 0.      # PARDISO perturbs the zero pivots of a saddle point
    if ok:
        O.check(key + '.stop', r[-1] < st['atol'], True)
        O.check(key + '.notbefore', all(v >= st['atol'] for v in r[:-1]), True)
    if isinstance(st['maxiter'], str):
        O.check(key + '.forced', len(r), int(st['maxiter']))
    else:
        O.check(key + '.budget', len(r) <= st['maxiter'], True)
    if len(r) == 1:
        # the residual of an iteration is how much it changed the unknowns
        O.check(key + '.change', change(COMM, (F.u, F.w, F.P), before, {} if F.periodic or scheme == 'Picard' else F.bu.composition.find_dofs(F.u, local=True)), r[0], 1e-8, 1e-10)
    # x holds the same as the unknowns
    if scheme == 'Newton-Raphson':
        for f, part in zip((F.u, F.w, F.P), x):
            c = f.cochain[f.cochain.newest]
            for el in c:
                O.check(key + '.handed', np.array(part[el]), np.array(c[el]), 1e-13, 1e-14)
    if st.get('inner', [''])[0] in ('gmres', 'lgmres') and not st.get('fine'):
        return
    if ok:
        O.check(key + '.div', div(F), 0., 0, 1e-6 + slack + 10 * st['atol'])
    if P0 is not None and ok:
        gm = F.P.cochain.gathering_matrix
        got = sum(COMM.allgather(float(F.P.cochain[F.P.cochain.newest][e][i]) if e in gm else 0.))
        O.check(key + '.anchor', got, P0, 1e-7, 1e-7 + slack + 10 * st['atol'])
    if ok and not F.periodic:
        # the prescribed dofs have the values prescribed for the new time
        t = F.u.cochain.newest
        want, have = F.u.reduce(F.vel @ t), F.u.cochain[t]
        dofs = F.bu.composition.find_dofs(F.u, local=True)
        for e in dofs:
            O.check(key + '.prescribed', np.array([have[e][i] for i in dofs[e]]), np.array([want[e][i] for i in dofs[e]]), 1e-7, 1e-7 + slack + 10 * st['atol'])
    if ok and st.get('again'):
        # a fixed point of one scheme is one of the other
        S = F.nls(k=k)
        if F.periodic:
            S.customize.linear.set_local_dof(2, e, i, P0)
        other = 'Picard' if scheme == 'Newton-Raphson' else 'Newton-Raphson'
        x, msg, info = S.solve([F.u, F.w, F.P], scheme=other, atol=1e-30, maxiter='1')
        O.check(key + '.fixedpoint', float(info['residuals'][0]), 0., 0, 1e-6 + slack + 50 * st['atol'])


def snapshot(f):
    t = f.cochain.newest
    gm = f.cochain.gathering_matrix
    return {e: np.zeros(gm.num_local_dofs(e)) if t is None else np.array(f.cochain[t][e]) for e in gm}


def change(COMM, forms, before, prescribed):
    """how much the unknowns changed; prescribed ones may have been set beforehand"""
    total = 0.
    for f, old in zip(forms, before):
        gm = f.cochain.gathering_matrix
        new = snapshot(f)
        d = {}
        for e in gm:
            d.update(zip((int(g) for g in gm[e]), new[e] - old[e]))
        if f is forms[0]:
            for x in COMM.allgather([int(gm[e][i]) for e in prescribed for i in prescribed[e]]):
                for g in x:
                    d.pop(g, None)
        every = {}
        for x in COMM.allgather(d):
            every.update(x)
        total += sum(v ** 2 for v in every.values())
    return float(total ** .5)


def div(F):
    """the largest net flux out of an element"""
    u = F.u
    E = u.incidence_matrix
    c = u.cochain[u.cochain.newest]
    m = [float(np.max(np.abs(E[e] @ np.array(c[e])))) for e in c]
    return max(m) if m else 0.

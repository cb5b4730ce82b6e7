"""2d periodic Navier-Stokes, dual-field formulation: two linear systems per time step, staggered in time, each taking the vorticity of the other one."""
import numpy as np

from progs.lib import Obs, mesh_args, base_count


def formulation(ph, degree):
    ph.config.set_embedding_space_dim(2)
    manifold = ph.manifold(2, periodic=True)
    mesh = ph.mesh(manifold)
    Inn0, Inn1, Inn2 = [ph.space.new('Lambda', k, orientation='inner') for k in range(3)]
    Out0, Out1, Out2 = [ph.space.new('Lambda', k, orientation='outer') for k in range(3)]
    Pi = Inn0.make_form(r'P', 'inner-pressure')
    ui = Inn1.make_form(r'u', 'inner-velocity')
    wi = Inn2.make_form(r'\omega', 'inner-vorticity')
    wo = Out0.make_form(r'\tilde{\omega}', 'outer-vorticity')
    uo = Out1.make_form(r'\tilde{u}', 'outer-velocity')
    Po = Out2.make_form(r'\tilde{P}', 'outer-pressure')
    Rn = ph.constant_scalar(r'\frac{1}{\mathrm{Re}}', "Re")
    Rn2 = ph.constant_scalar(r'\frac{1}{2\mathrm{Re}}', "Re2")
    wo_x_ui = wo.cross_product(ui)
    wi_x_uo = wi.cross_product(uo)
    dPi = Pi.exterior_derivative()
    cd_wi = Rn * wi.codifferential()
    cd_ui = ui.codifferential()
    d_ui = ui.exterior_derivative()
    cd_Po = Po.codifferential()
    d_wo = Rn * wo.exterior_derivative()
    cd_uo = uo.codifferential()
    d_uo = uo.exterior_derivative()
    dui_dt = ui.time_derivative()
    duo_dt = uo.time_derivative()
    inner_pde = ph.pde(['dui_dt + wo_x_ui + cd_wi + dPi = 0', 'wi - d_ui = 0', '- cd_ui = 0'], locals())
    inner_pde.unknowns = [ui, wi, Pi]
    outer_pde = ph.pde(['duo_dt + wi_x_uo + d_wo - cd_Po = 0', 'wo - cd_uo = 0', 'd_uo = 0'], locals())
    outer_pde.unknowns = [uo, wo, Po]
    iwf = inner_pde.test_with([Inn1, Inn2, Inn0], sym_repr=['v', 'w', 'q'])
    iwf = iwf.derive.integration_by_parts('0-2')
    iwf = iwf.derive.integration_by_parts('2-0')
    owf = outer_pde.test_with([Out1, Out0, Out2], sym_repr=[r'\tilde{v}', r'\tilde{w}', r'\tilde{q}'])
    owf = owf.derive.integration_by_parts('0-3')
    owf = owf.derive.integration_by_parts('1-1')
    ts = ph.time_sequence()
    dto = ts.make_time_interval('k-1', 'k', sym_repr=r'\Delta t_o')
    dti = ts.make_time_interval('k-1/2', 'k+1/2', sym_repr=r'\Delta t_i')
    # inner
    td = iwf.td
    td.set_time_sequence(ts)
    td.define_abstract_time_instants('k-1', 'k-1/2', 'k', 'k+1/2')
    td.differentiate('0-0', 'k-1/2', 'k+1/2')
    td.average('0-1', wo, ['k', ])
    td.average('0-1', ui, ['k-1/2', 'k+1/2'])
    td.average('0-2', wi, ['k-1/2', 'k+1/2'])
    td.average('0-3', Pi, ['k', ])
    td.average('1-0', wi, ['k+1/2', ])
    td.average('1-1', ui, ['k+1/2', ])
    td.average('2-0', ui, ['k+1/2', ])
    iwf = td()
    iwf.unknowns = [ui @ ts['k+1/2'], wi @ ts['k+1/2'], Pi @ ts['k']]
    iwf = iwf.derive.split('0-0', 'f0', [ui @ ts['k+1/2'], ui @ ts['k-1/2']], ['+', '-'], factors=[1 / dti, 1 / dti])
    iwf = iwf.derive.split('0-2', 'f0', [(wo @ ts['k']).cross_product(ui @ ts['k-1/2']), (wo @ ts['k']).cross_product(ui @ ts['k+1/2'])],
                           ['+', '+'], factors=[1 / 2, 1 / 2])
    iwf = iwf.derive.split('0-4', 'f0', [wi @ ts['k-1/2'], wi @ ts['k+1/2']], ['+', '+'], factors=[Rn2, Rn2])
    iwf = iwf.derive.rearrange({0: '0, 3, 5, 6 = 1, 2, 4'})
    for i in ('0-5', '0-1'):
        iwf.terms[i].add_extra_info({'known-forms': wo @ ts['k']})
    ph.space.finite(degree)
    lsi = iwf.mp().ls()
    # outer
    td = owf.td
    td.set_time_sequence(ts)
    td.define_abstract_time_instants('k-1', 'k-1/2', 'k')
    td.differentiate('0-0', 'k-1', 'k')
    td.average('0-1', wi, ['k-1/2', ])
    td.average('0-1', uo, ['k-1', 'k'])
    td.average('0-2', wo, ['k-1', 'k'])
    td.average('0-3', Po, ['k-1/2', ])
    td.average('1-0', wo, ['k', ])
    td.average('1-1', uo, ['k', ])
    td.average('2-0', uo, ['k', ])
    owf = td()
    owf.unknowns = [uo @ ts['k'], wo @ ts['k'], Po @ ts['k-1/2']]
    owf = owf.derive.split('0-0', 'f0', [uo @ ts['k'], uo @ ts['k-1']], ['+', '-'], factors=[1 / dto, 1 / dto])
    owf = owf.derive.split('0-2', 'f0', [(wi @ ts['k-1/2']).cross_product(uo @ ts['k-1']), (wi @ ts['k-1/2']).cross_product(uo @ ts['k'])],
                           ['+', '+'], factors=[1 / 2, 1 / 2])
    owf = owf.derive.split('0-4', 'f0', [(wo @ ts['k-1']).exterior_derivative(), (wo @ ts['k']).exterior_derivative()], ['+', '+'], factors=[Rn2, Rn2])
    owf = owf.derive.rearrange({0: '0, 3, 5, 6 = 1, 2, 4'})
    for i in ('0-5', '0-1'):
        owf.terms[i].add_extra_info({'known-forms': wi @ ts['k-1/2']})
    ph.space.finite(degree)
    lso = owf.mp().ls()
    return locals()


class Dual:
    def __init__(self, ph, spec, scheme='msehtt-s'):
        self.ph, self.spec = ph, spec
        L = formulation(ph, spec['degree'])
        self.ts = L['ts']
        self.msehtt, obj = ph.fem.apply(scheme, L)
        msehtt = self.msehtt
        base = msehtt.base
        a, kw = mesh_args(spec['mesh'])
        msehtt.config('tgm')(*a, **kw)
        self.tgm = base['the_great_mesh']
        self.nbase = base_count(self.tgm)
        m = base['meshes']
        self.M = [m[k] for k in m if r'\eth' not in k][0]
        msehtt.config(self.M)(self.tgm, 'all')
        steps = spec.get('rate', 20)
        self.dt = 1 / steps
        self.ts.specify('constant', [0, 1, 2 * steps], 2)
        self.nu = spec.get('nu', .05)
        L['Rn2'].value = self.nu / 2
        s, mv, pi = spec.get('shift', 0.), spec.get('move', 0.), np.pi

        def ux(t, x, y): return (1 + mv * t) * (np.sin(2 * pi * x + s) * np.cos(2 * pi * y) + .3 * np.cos(2 * pi * y))
        def uy(t, x, y): return (1 + mv * t) * (- np.cos(2 * pi * x + s) * np.sin(2 * pi * y) + .1 * np.sin(2 * pi * x))
        def om(t, x, y): return (1 + mv * t) * (4 * pi * np.sin(2 * pi * x + s) * np.sin(2 * pi * y) + .2 * pi * np.cos(2 * pi * x) + .6 * pi * np.sin(2 * pi * y))
        self.ui, self.wi, self.Pi, self.uo, self.wo, self.Po = self.forms = [obj[k] for k in ('ui', 'wi', 'Pi', 'uo', 'wo', 'Po')]
        for u in (self.ui, self.uo):
            u.cf = ph.vc.vector(ux, uy)
        for w in (self.wi, self.wo):
            w.cf = ph.vc.scalar(om)
        self.lsi, self.lso = obj['lsi'].apply(), obj['lso'].apply()

    def start(self):
        self.wo[0].reduce()
        self.uo[0].reduce()
        self.ui[self.dt / 2].reduce()
        self.wi[self.dt / 2].reduce()
        self.Pi.cf = self.Po.cf = self.ph.vc.scalar(lambda t, x, y: 0 * x)
        self.Pi[0].reduce()
        self.Po[0].reduce()

    # -- one time step: the outer system, then the inner one ----------------------------------------------
    def step(self, COMM, O, k):
        key, sp = str(k), self.spec
        for which in ('o', 'i'):
            ls, P, u = (self.lso, self.Po, self.uo) if which == 'o' else (self.lsi, self.Pi, self.ui)
            lls = ls(k=k)
            gm = P.cochain.gathering_matrix
            els = sorted({str(e): e for r in COMM.allgather(list(gm)) for e in r}.values(), key=str)
            e = els[(sp.get('where', 0) + k) % len(els)]
            i = max(COMM.allgather(sp.get('where', 0) % gm.num_local_dofs(e) if e in gm else -1))
            p = sp.get('value', 0.) * k
            lls.customize.set_local_dof(2, e, i, p)
            als = lls.assemble()
            x, msg, info = als.solve(sp.get('scheme', 'spsolve'), **(dict(x0=0, **sp['kw']) if sp.get('kw') else {}))
            O.same[f'{key}.{which}.info'] = info.get('convergence info') if isinstance(info, dict) else None
            lls.x.update(x)
            got = max(COMM.allgather(float(P.cochain[P.cochain.newest][e][i]) if e in gm else -1e99))
            O.check(f'{key}.{which}.pin', got, p, 1e-7, self.tol)

    tol = 1e-7

    def square(self, COMM, f, t1, t2=None):
        """of the mean of two times"""
        M = self.msehtt.array('mass matrix', f)[0]
        q = 0.
        for e in f.cochain.gathering_matrix:
            c = np.array(f.cochain[t1][e])
            if t2 is not None:
                c = .5 * (c + np.array(f.cochain[t2][e]))
            q += float(c @ (M[e] @ c))
        return float(sum(COMM.allgather(q)))

    def balance(self, COMM, O, k):
        """what a step conserves: mass, circulation, energy up to viscosity"""
        key, dt = str(k), self.dt
        T = lambda x: round(x, 8)
        to, ti = (T((k - 1) * dt), T(k * dt)), (T((k - .5) * dt), T((k + .5) * dt))
        for f, t in ((self.uo, to[1]), (self.wo, to[1]), (self.ui, ti[1]), (self.wi, ti[1]), (self.Po, ti[0]), (self.Pi, to[1])):
            O.check(f'{key}.time', abs(f.cochain.newest - t) < 2e-8, True)
        to, ti = [(f.cochain.times[-2], f.cochain.times[-1]) for f in (self.uo, self.ui)]
        d = self.uo.incidence_matrix
        c = self.uo.cochain[to[1]]
        O.check(key + '.div', max([float(np.max(np.abs(d[e] @ np.array(c[e])))) for e in c] or [0.]), 0., 0, self.tol)
        d = self.ui.incidence_matrix
        c, w = self.ui.cochain[ti[1]], self.wi.cochain[ti[1]]
        O.check(key + '.curl', max([float(np.max(np.abs(d[e] @ np.array(c[e]) - np.array(w[e])))) for e in c] or [0.]), 0., 0, 10 * self.tol)
        O.check(key + '.circulation', float(self.wi[ti[1]].mass()), 0., 0, 10 * self.tol)
        if k == 1:
            return                  # the initial states are not solutions
        for which, u, w, t in (('o', self.uo, self.wo, to), ('i', self.ui, self.wi, ti)):
            E = [.5 * self.square(COMM, u, x) for x in t]
            O.check(f'{key}.{which}.energy', (E[1] - E[0]) / dt, -self.nu * self.square(COMM, w, *t), 1e-6, 100 * self.tol)

    def note(self, O, key):
        for name, f in zip(('ui', 'wi', 'Pi', 'uo', 'wo', 'Po'), self.forms):
            t = f.cochain.newest
            c = f.cochain[t]
            O.elem[f'{key}.{name}'] = {e: np.array(c[e]) for e in c}
            O.same[f'{key}.{name}.t'] = float(t)
            O.same[f'{key}.{name}.norm'] = float(f[None].norm())


def main(ph, ctx, spec, life=None):
    """all steps; with `life`, a job that saves the forms after steps and goes on from the newest complete set of files"""
    import os
    O = Obs()
    COMM = ctx.mod('phyem.src.config').COMM
    D = Dual(ph, spec)
    O.info['nbase'] = D.nbase
    names = ('ui', 'wi', 'Pi', 'uo', 'wo', 'Po')
    first = 0
    if life:
        if ctx.rank == 0:
            for k in range(spec['steps'], 0, -1):
                if os.path.isfile(f'complete-{k}'):
                    first = k
                    break
        first = COMM.bcast(first, root=0)
    if first:
        for f, n in zip(D.forms, names):
            f.read(f'{n}-{first}.mse')
    else:
        D.start()
    O.info['first'] = first
    if ctx.rank == 0:
        ctx.observe('from', first)
    for k in range(first + 1, spec['steps'] + 1):
        D.step(COMM, O, k)
        D.balance(COMM, O, k)
        if not life:
            D.note(O, str(k))
        elif k % life.get('every', 1) == 0:
            for f, n in zip(D.forms, names):
                f.saveto(f'{n}-{k}.mse', what=life.get('what', 2)) if life.get('what', 2) else f.saveto(f'{n}-{k}.mse')
            COMM.barrier()
            if ctx.rank == 0:
                ph.pk.ms(f'part-{k}', k)
                ph.os.rename(f'part-{k}', f'complete-{k}')
                ctx.observe('saved', k)
    D.note(O, str(spec['steps']))
    return O.d()

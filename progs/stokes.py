"""Linear systems of three unknowns (time-dependent Stokes flow: vorticity, velocity, pressure), dofs of every kind pinned."""
import numpy as np

from progs.lib import Obs, mesh_args, base_count, fields, place
from progs.poisson import note_system


def formulation(ph, n, degree, periodic):
    ph.config.set_embedding_space_dim(n)
    manifold = ph.manifold(n, periodic=periodic)
    mesh = ph.mesh(manifold)
    OutW = ph.space.new('Lambda', n - 2, orientation='outer')
    OutU = ph.space.new('Lambda', n - 1, orientation='outer')
    OutP = ph.space.new('Lambda', n, orientation='outer')
    w = OutW.make_form(r'\tilde{\omega}', 'vorticity')
    u = OutU.make_form(r'\tilde{u}', 'velocity')
    f = OutU.make_form(r'\tilde{f}', 'force')
    P = OutP.make_form(r'\tilde{P}', 'pressure')
    Rn = ph.constant_scalar(r'\frac{1}{\mathrm{Re}}', "Re")
    d_w = Rn * w.exterior_derivative()
    cd_P = P.codifferential()
    cd_u = u.codifferential()
    d_u = u.exterior_derivative()
    du_dt = u.time_derivative()
    pde = ph.pde(['du_dt + d_w - cd_P = f', 'w - cd_u = 0', 'd_u = 0'], locals())
    pde.unknowns = [u, w, P]
    if not periodic:
        pde.bc.partition(r"\Gamma_{\perp}", r"\Gamma_P")
        pde.bc.define_bc({r"\Gamma_{\perp}": ph.trace(u), r"\Gamma_P": ph.trace(ph.Hodge(P))})
    wf = pde.test_with([OutU, OutW, OutP], sym_repr=[r'\tilde{v}', r'\tilde{w}', r'\tilde{q}'])
    wf = wf.derive.integration_by_parts('0-2')
    wf = wf.derive.integration_by_parts('1-1')
    if not periodic:
        wf = wf.derive.delete('1-2')
    ts = ph.time_sequence()
    dt = ts.make_time_interval('k-1', 'k', sym_repr=r'\Delta t')
    td = wf.td
    td.set_time_sequence(ts)
    td.define_abstract_time_instants('k-1', 'k-1/2', 'k')
    td.differentiate('0-0', 'k-1', 'k')
    td.average('0-1', w, ['k', ])
    td.average('0-2', P, ['k-1/2', ])
    if periodic:
        td.average('0-3', f, ['k', ])
    else:
        td.average('0-3', P, ['k-1/2', ])
        td.average('0-4', f, ['k', ])
    td.average('1-0', w, ['k', ])
    td.average('1-1', u, ['k', ])
    td.average('2-0', u, ['k', ])
    wf = td()
    wf.unknowns = [u @ ts['k'], w @ ts['k'], P @ ts['k-1/2']]
    wf = wf.derive.split('0-0', 'f0', [u @ ts['k'], u @ ts['k-1']], ['+', '-'], factors=[1 / dt, 1 / dt])
    if periodic:
        wf = wf.derive.rearrange({0: '0, 2, 3 = 1, 4'})
    else:
        wf = wf.derive.rearrange({0: '0, 2, 3 = 1, 4, 5'})
    ph.space.finite(degree)
    ls = wf.mp().ls()
    return locals()


class Stokes:
    def __init__(self, ph, spec, scheme='msehtt-s'):
        n = spec['n']
        per = self.periodic = bool(spec['mesh'].get('periodic'))
        L = formulation(ph, n, spec['degree'], per)
        self.ts = L['ts']
        msehtt, obj = ph.fem.apply(scheme, L)
        base = msehtt.base
        a, kw = mesh_args(spec['mesh'])
        msehtt.config('tgm')(*a, **kw)
        self.tgm = base['the_great_mesh']
        self.nbase = base_count(self.tgm)
        m = base['meshes']
        self.M = [m[k] for k in m if r'\eth' not in k and r'\Gamma' not in k and 'boundary' not in k.lower()][0]
        msehtt.config(self.M)(self.tgm, 'all')
        self.u, self.w, self.P, self.f = obj['u'], obj['w'], obj['P'], obj['f']
        L['Rn'].value = spec.get('nu', .1)
        s, v = fields(n, spec.get('shift', 0.), per)
        self.vel = ph.vc.vector(*v)
        self.u.cf = self.vel
        self.f.cf = ph.vc.vector(*v[::-1])
        self.P.cf = ph.vc.scalar(s)
        self.w.cf = ph.vc.scalar(s) if n == 2 else self.vel
        self.u[0].reduce()
        self.w[0].reduce()
        self.ls = obj['ls'].apply()
        if not per:
            E = [m[k] for k in m if r'\eth' in k and r'\Gamma' not in k][0]
            msehtt.config(E)(self.tgm, self.M)
            bu = [m[k] for k in m if r'\perp' in k][0]
            bp = [m[k] for k in m if r'\Gamma_P' in k][0]
            kind, where = place(spec)
            msehtt.config(bu)(self.tgm, {'type': 'boundary_section', 'partial elements': self.M, 'except ' + kind: where})
            msehtt.config(bp)(self.tgm, {'type': 'boundary_section', 'partial elements': self.M, kind: where})
            self.ls.config(['essential bc', 1], bu, self.vel, root_form=self.u)
            self.ls.config(['natural bc', 1], bp, self.P.cf.field, root_form=self.P)
        self.ts.specify('constant', [0, 1, 20], 2)

    def pin(self, COMM, which, place):
        """(element, local dof) of an unknown, the same on every rank"""
        gm = (self.u, self.w, self.P)[which].cochain.gathering_matrix
        els = sorted({str(e): e for r in COMM.allgather(list(gm)) for e in r}.values(), key=str)
        e = els[place % len(els)]
        i = max(COMM.allgather(place % gm.num_local_dofs(e) if e in gm else -1))
        return e, i


def main(ph, ctx, spec):
    O = Obs()
    COMM = ctx.mod('phyem.src.config').COMM
    S = Stokes(ph, spec)
    O.info['nbase'] = S.nbase
    for k in range(1, spec.get('steps', 1) + 1):
        key = str(k)
        S.f[k * .1].reduce()
        lls = S.ls(k=k)
        pins = list(spec['pins'])
        if S.periodic:
            pins.append([2, 0, .5])
        chosen = []
        gc = lls.global_gathering_matrices[1]
        for which, place_, value in pins:
            e, i = S.pin(COMM, which, place_)
            c = int(gc.find_global_numbering_of_ith_composition_local_dof(which, e, i))
            if spec.get('by') == 'local':
                lls.customize.set_local_dof(which, e, i, value)
            else:
                lls.customize.set_dof(c, value)
            chosen = [x for x in chosen if x[0] != c] + [(c, value)]
        als = lls.assemble()
        A, b = note_system(ctx, O, key, lls, als)
        if ctx.rank == 0:
            for c, value in chosen:
                row = np.zeros(A.shape[1])
                row[c] = 1.
                O.check(f'{key}.pinrow', A[c], row, 0, 1e-13)
                O.check(f'{key}.pinvalue', float(b[c]), value, 0, 1e-13)
        x, msg, info = als.solve(spec.get('scheme', 'spsolve'))
        x = np.array(x)
        s = np.linalg.svd(A, compute_uv=False) if ctx.rank == 0 else None
        if not COMM.bcast(bool(s[-1] > 1e-10 * s[0]) if ctx.rank == 0 else None, root=0):
            break                   # no single solution to speak of, or to go on from
        O.same[key + '.x'] = x
        if ctx.rank == 0:
            O.check(key + '.residual', float(np.linalg.norm(b - A @ x)), 0., 0, 1e-9 * (1 + np.linalg.norm(b)) * max(1, s[0]) * (1 + np.linalg.norm(x)))
        lls.x.update(x)
        O.same[key + '.norm'] = [float(g[None].norm()) for g in (S.u, S.w, S.P)]
        n = {e: 0 for e in gc}
        for g in (S.u, S.w, S.P):
            co = g.cochain[g.cochain.newest]
            for e in gc:
                part = x[gc[e]][n[e]:n[e] + len(co[e])]
                O.check(key + '.update', np.array(co[e]), part, 1e-12, 1e-13)
                n[e] += len(co[e])
    return O.d()

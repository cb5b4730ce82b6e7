"""Multigrid: level meshes, forms on them, passing cochains between levels, solving mixed Poisson problems with cycles."""
import numpy as np

from progs.lib import Obs, mesh_args, base_count, fields, place
from progs.poisson import dense, note_system


class Job:
    def __init__(self, ph, spec):
        n, v = spec['n'], spec['variant']
        ori = 'inner' if v == 'inner' else 'outer'
        self.ph, self.spec, self.n, self.variant = ph, spec, n, v
        ls, mp = ph.samples.wf_div_grad(n=n, degree=spec['degree'], orientation=ori, periodic=v == 'periodic')
        self.msehtt, self.obj = ph.fem.apply('msehtt-smg', dict(ls=ls))
        base = self.msehtt.base
        a, kw = mesh_args(spec['mesh'])
        self.msehtt.config('tgm')(*a, mgc=spec['levels'], **kw)
        self.tgm = base['the_great_mesh']
        m = base['meshes']
        one = lambda s: [m[k] for k in m if s in k][0]
        self.M = m[r'\mathfrak{M}']
        self.msehtt.config(self.M)(self.tgm, 'all')
        self.meshes = [self.M]
        if v != 'periodic':
            self.B = m[r'\eth\mathfrak{M}']
            self.msehtt.config(self.B)(self.tgm, self.M)
            self.bp, self.bu = one(r'\Gamma_\phi'), one(r'\Gamma_u')
            kind, where = place(spec)
            self.msehtt.config(self.bu)(self.tgm, {'type': 'boundary_section', 'partial elements': self.M, kind: where})
            self.msehtt.config(self.bp)(self.tgm, {'type': 'boundary_section', 'partial elements': self.M, 'except ' + kind: where})
            self.meshes += [self.B, self.bp, self.bu]
        f = base['forms']
        self.phi, self.u, self.src = f['potential'], f['velocity'], f['source']
        self.nbase = base_count(self.tgm.get_level(0))
        s, _ = fields(n, spec.get('shift', 0.), v == 'periodic')
        self.s = ph.vc.scalar(s)
        self.phi.cf = self.s
        if v == 'inner':
            self.u.cf = self.phi.cf.exterior_derivative()
            self.src.cf = self.u.cf.codifferential()
        else:
            self.u.cf = -self.phi.cf.codifferential()
            self.src.cf = -self.u.cf.exterior_derivative()
        self.ls = self.obj['ls'].apply()
        if v != 'periodic':
            if v == 'inner':
                self.ls.config(['natural bc', 1], self.bu, self.u.cf.field, root_form=self.u)
                self.ls.config(['essential bc', 1], self.bp, self.s, root_form=self.phi)
            else:
                self.ls.config(['natural bc', 1], self.bp, self.s, root_form=self.phi)
                self.ls.config(['essential bc', 1], self.bu, self.u.cf.field, root_form=self.u)

    @property
    def forms(self):
        return dict(phi=self.phi, u=self.u, src=self.src)


def vec_of(COMM, f, t):
    """the whole cochain by global number"""
    gm = f.cochain.gathering_matrix
    mine = {}
    c = f.cochain[t]
    for e in gm:
        mine.update(zip((int(g) for g in gm[e]), np.asarray(c[e])))
    out = {}
    for d in COMM.allgather(mine):
        out.update(d)
    return np.array([out[i] for i in range(len(out))])


def main(ph, ctx, spec):
    O = Obs()
    COMM = ctx.mod('phyem.src.config').COMM
    ph.config.set_auto_cleaning(False)
    J = Job(ph, spec)
    O.info['nbase'] = J.nbase
    J.hist = {}
    for step, t in enumerate(spec.get('times', [0])):
        J.src[t].reduce()
        for k, op in enumerate(spec['ops']):
            run_op(ph, ctx, COMM, J, O, f'{step}.{k}.{op[0]}', op, t)
    return O.d()


def run_op(ph, ctx, COMM, J, O, key, op, t):
    name, a = op[0], op[1] if len(op) > 1 else {}
    tgm = J.tgm
    levels = list(tgm.level_range)
    if name == 'levels':
        for lv in levels:
            O.same[f'{key}.elements.{lv}'] = sorted(map(str, sum(COMM.allgather(list(tgm.get_level(lv).elements)), [])))
            for fn, f in J.forms.items():
                fl = f.get_level(lv)
                O.same[f'{key}.{fn}.dofs.{lv}'] = int(fl.cochain.gathering_matrix.num_global_dofs)
                O.check(f'{key}.{fn}.level', tgm.find_level(fl), lv)
                f[t].reduce()
                O.elem.setdefault(f'{key}.{fn}.{lv}', {}).update({e: np.array(fl.cochain[t][e]) for e in fl.cochain.gathering_matrix})
                O.same[f'{key}.{fn}.norm.{lv}'] = float(fl[t].norm())
                O.same[f'{key}.{fn}.err.{lv}'] = float(fl[t].error())
        for fn, f in J.forms.items():
            O.check(f'{key}.{fn}.top', [float(f[t].norm()), float(f[t].error())], [O.same[f'{key}.{fn}.norm.{lv}'], O.same[f'{key}.{fn}.err.{lv}']])
        return
    if name == 'hier':
        h = tgm.hierarchy()
        for lv in levels[:-1]:
            mine = list(tgm.get_level(lv + 1).elements)
            got = [x for e in h[lv] for x in h[lv][e][1]]
            O.check(f'{key}.{lv}.partition', sorted(map(str, got)), sorted(map(str, mine)))
            O.check(f'{key}.{lv}.keys', sorted(map(str, h[lv])), sorted(map(str, tgm.get_level(lv).elements)))
            O.elem.setdefault(f'{key}.{lv}', {}).update({e: np.array([int(x) for x in h[lv][e][1]]) for e in h[lv]})
        return
    if name in ('restrict', 'prolong'):
        for fn, f in J.forms.items():
            f[t].reduce()
            for l0, l1 in [(i, j) for i in levels for j in levels if i < j]:
                c, d = f.get_level(l0), f.get_level(l1)
                size = max(COMM.allgather(max([float(np.abs(np.array(c.cochain[t][e])).max()) for e in c.cochain.gathering_matrix] or [0])))
                if name == 'restrict':
                    want = {e: np.array(c.cochain[t][e]) for e in c.cochain.gathering_matrix}
                    vec = d.cochain[t]
                    tgm.pass_cochain(d, t, c, t + 10., complete_only=True)
                    got = c.cochain[t + 10.]
                    for e in want:
                        O.check(f'{key}.{fn}.{l1}-{l0}[{e}]', np.array(got[e]), want[e], 0, 1e-3 * size)
                    v = tgm.pass_vector(d[t].cochain.gathered_global_vector, d, c, complete_only=True)
                    O.check(f'{key}.{fn}.{l1}-{l0}.vector', np.array(v.V), vec_of(COMM, c, t + 10.), 1e-9, 1e-11)
                else:
                    tgm.pass_cochain(c, t, d, t + 20.)
                    tgm.pass_cochain(d, t + 20., c, t + 30.)
                    for e in c.cochain.gathering_matrix:       # (interpolated in between)
                        O.check(f'{key}.{fn}.{l0}-{l1}-{l0}[{e}]', np.array(c.cochain[t + 30.][e]), np.array(c.cochain[t][e]), 0, .1 * size)
                    v = tgm.pass_vector(c[t].cochain.gathered_global_vector, c, d)
                    O.check(f'{key}.{fn}.{l0}-{l1}.vector', np.array(v.V), vec_of(COMM, d, t + 20.), 1e-6, 1e-8)
        return
    lls = J.ls(t)
    if J.variant == 'periodic':
        lls.customize.set_dof(-1, 0.)
    als = lls.assemble(**({'cache': key} if a.get('cache') else {}))
    if name == 'matrix':
        for lv in levels:
            note_system(ctx, O, f'{key}.{lv}', lls.get_level(lv), als.get_level(lv))
        O.same[key + '.top'] = [tuple(int(x) for x in als.shape), int(als.rank), int(als.num_singularities), float(als.condition_number)]
        return
    if name == 'solve':
        kw = dict(a['kw'])
        A, b = note_system(ctx, O, key, lls.get_level(), als.get_level())
        if a['scheme'] == 'direct':
            x, msg, info = als.solve('direct', **kw)
        else:
            x, msg, info = als.solve(ph.mgs(a['scheme'], len(levels), **a.get('cycle', {})), x0=a.get('x0'), **kw)
        x = np.array(x.V if hasattr(x, 'V') else x)
        O.same[key + '.x'] = x
        O.same[key + '.info'] = int(info)
        if ctx.rank == 0:
            res = float(np.linalg.norm(b - A @ x))
            O.info[key] = dict(atol=kw['atol'], info=int(info), res=res)
            if info == 0:
                O.check(key + '.residual', res < 1.001 * kw['atol'] + 1e-12, True)
        lls.x.update(x)
        top = {}
        for fn, f in (('u', J.u), ('phi', J.phi)):
            v = {lv: vec_of(COMM, f.get_level(lv), t) for lv in levels}
            top[fn] = v[levels[-1]]
            gm = f.get_level().cochain.gathering_matrix
            # every level holds the restriction of the solution
            for lv in levels[:-1] if J.spec['mesh']['kind'] not in ('quad', 'tqr') else ():
                w = tgm.pass_vector(f.get_level()[t].cochain.gathered_global_vector, f.get_level(), f.get_level(lv), complete_only=True)
                O.check(f'{key}.{fn}.{lv}.restricted', v[lv], np.array(w.V), 1e-8, 1e-9)
        O.check(key + '.updated', sorted(np.concatenate([top['u'], top['phi']])), sorted(x), 1e-12, 1e-13)
        O.same[key + '.err'] = [float(J.phi[t].error()), float(J.u[t].error())]
        O.same[key + '.norm'] = [float(J.phi[t].norm()), float(J.u[t].norm())]
        return
    raise ValueError(name)


def static(ph, ctx, spec, lv):
    """the same problem on the mesh of one level, without multigrid"""
    from progs import poisson
    O = Obs()
    d = dict(spec, mesh=dict(spec['mesh']))
    if lv:
        d['mesh'].update(ts=lv, renumbering=True)
    P = poisson.Poisson(ph, d)
    O.info['nbase'] = P.nbase
    for step, t in enumerate(spec.get('times', [0])):
        P.src[t].reduce()
        for k, op in enumerate(spec['ops']):
            key = f'{step}.{k}.{op[0]}'
            if op[0] == 'levels':
                for fn, f in dict(phi=P.phi, u=P.u, src=P.src).items():
                    f[t].reduce()
                    O.elem.setdefault(f'{key}.{fn}.{lv}', {}).update({e: np.array(f.cochain[t][e]) for e in f.cochain.gathering_matrix})
                    O.same[f'{key}.{fn}.norm.{lv}'] = float(f[t].norm())
                    O.same[f'{key}.{fn}.err.{lv}'] = float(f[t].error())
                    O.same[f'{key}.{fn}.dofs.{lv}'] = int(f.cochain.gathering_matrix.num_global_dofs)
            elif op[0] == 'matrix':
                lls = P.ls(t)
                if P.variant == 'periodic':
                    lls.customize.set_dof(-1, 0.)
                note_system(ctx, O, f'{key}.{lv}', lls, lls.assemble())
    return O.d()

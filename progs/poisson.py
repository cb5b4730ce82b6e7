"""Mixed Poisson problems: assemble the global system, change it, solve it with every solver."""
import io
import contextlib
import numpy as np

from progs.lib import Obs, mesh_args, base_count, fields, place

TIMES = ('total cost', 'iteration cost')


def dense(x):
    return None if x is None else np.asarray(x.todense())


def note_system(ctx, O, key, lls, als):
    """the assembled system on the master rank, the numbering on every rank"""
    gr, gc = lls.global_gathering_matrices
    for e in gr:
        O.elem.setdefault(key + '.rows', {})[e] = np.array(gr[e])
        O.elem.setdefault(key + '.cols', {})[e] = np.array(gc[e])
    A, b = als.A.gather(), als.b.gather()
    if ctx.rank == 0:
        O.root[key + '.A'] = dense(A)
        O.root[key + '.b'] = np.array(b)
    O.same[key + '.shape'] = tuple(int(x) for x in als.shape)
    return (O.root.get(key + '.A'), O.root.get(key + '.b'))


class Poisson:
    def __init__(self, ph, spec, scheme='msehtt-s'):
        n = spec['n']
        v = spec['variant']
        self.n, self.ph, self.spec, self.variant = n, ph, spec, v
        ori = 'inner' if v == 'inner' else 'outer'
        ls, mp = ph.samples.wf_div_grad(n=n, degree=spec['degree'], orientation=ori, periodic=v == 'periodic')
        self.msehtt, self.obj = ph.fem.apply(scheme, dict(ls=ls))
        base = self.msehtt.base
        a, kw = mesh_args(spec['mesh'])
        self.msehtt.config('tgm')(*a, **kw)
        self.tgm = base['the_great_mesh']
        self.nbase = base_count(self.tgm)
        m = base['meshes']
        one = lambda s, no=(): [m[k] for k in m if s in k and not any(x in k for x in no)]
        self.M = m[r'\mathfrak{M}']
        self.msehtt.config(self.M)(self.tgm, 'all')
        f = base['forms']
        self.phi, self.u, self.src = f['potential'], f['velocity'], f['source']
        s, _ = fields(n, spec.get('shift', 0.), v == 'periodic')
        self.s = ph.vc.scalar(s)
        self.phi.cf = self.s
        if v == 'inner':
            self.u.cf = self.phi.cf.exterior_derivative()
            self.src.cf = self.u.cf.codifferential()
        else:
            self.u.cf = -self.phi.cf.codifferential()
            self.src.cf = -self.u.cf.exterior_derivative()
        self.ls = self.obj['ls'].apply()
        if v != 'periodic':
            B = m[r'\eth\mathfrak{M}']
            self.msehtt.config(B)(self.tgm, self.M)
            self.B = B
            bp, bu = one(r'\Gamma_\phi')[0], one(r'\Gamma_u')[0]
            kind, where = place(spec)
            self.msehtt.config(bu)(self.tgm, {'type': 'boundary_section', 'partial elements': self.M, kind: where})
            self.msehtt.config(bp)(self.tgm, {'type': 'boundary_section', 'partial elements': self.M, 'except ' + kind: where})
            self.bp, self.bu = bp, bu
            if v == 'inner':
                self.ls.config(['natural bc', 1], bu, self.u.cf.field, root_form=self.u)
                self.ls.config(['essential bc', 1], bp, self.s, root_form=self.phi)
            else:
                self.ls.config(['natural bc', 1], bp, self.s, root_form=self.phi)
                self.ls.config(['essential bc', 1], bu, self.u.cf.field, root_form=self.u)

    def pin(self, COMM, which, place):
        """global number (within unknown `which`) of one local dof: (element, local index), the same on every rank"""
        f = (self.u, self.phi)[which]
        gm = f.cochain.gathering_matrix
        els = sorted({str(e): e for r in COMM.allgather(list(gm)) for e in r}.values(), key=str)
        e = els[place % len(els)]
        i = None
        if e in gm:
            i = place % gm.num_local_dofs(e)
            g = int(gm[e][i])
        else:
            g = -1
        i = max(x for x in COMM.allgather(-1 if i is None else i))
        return e, i, max(COMM.allgather(g))


def residual(A, b, x):
    return float(np.linalg.norm(b - A @ x))


def main(ph, ctx, spec):
    O = Obs()
    COMM = ctx.mod('phyem.src.config').COMM
    MPY = ctx.mod('phyem.msehtt.tools.linear_system.static.global_.solvers.mpi_py')
    P = Poisson(ph, spec)
    P.label = spec.get('label', '')
    O.info['nbase'] = P.nbase
    for step, t in enumerate(spec.get('times', [0])):
        P.src[t].reduce()
        for k, op in enumerate(spec['ops']):
            run_op(ph, ctx, COMM, MPY, P, O, f'{step}.{k}.{op[0]}', op, t)
    return O.d()


def run_op(ph, ctx, COMM, MPY, P, O, key, op, t):
    name, a = op[0], op[1] if len(op) > 1 else {}
    lls = P.ls(t)
    pinned = None
    if P.variant == 'periodic' and name not in ('local', 'extra'):
        a = dict(a)
        a.setdefault('pins', [[1, 3, .25]])
    for which, place, value in a.get('pins', ()):
        e, i, g = P.pin(COMM, which, place)
        if a.get('by') == 'local':
            lls.customize.set_local_dof(which, e, i, value)
        else:
            lls.customize.set_dof(_chain(COMM, lls, which, e, i), value)
        pinned = [p for p in pinned or [] if p[:2] != (which, g)] + [(which, g, e, i, value)]
    if name == 'matrix':
        als = lls.assemble()
        A, b = note_system(ctx, O, key, lls, als)
        O.same[key + '.cond'] = float(als.condition_number) if a.get('cond', True) else 0
        O.same[key + '.rank'] = int(als.rank)
        O.same[key + '.sing'] = int(als.num_singularities)
        N = als.shape[0]
        pick = [int(x) for x in np.random.RandomState(spec_seed(P)).randint(0, N, 4)]
        vals = [(i, j, float(als.A.value_at(i, j))) for i in pick for j in pick]
        rows = None
        als_r = lls.A._mA.assemble(format='csr')
        rows = [(i, int(als_r.nnz_of_row(i))) for i in pick]
        als_c = lls.A._mA.assemble(format='csc')
        cols = [(i, int(als_c.nnz_of_col(i))) for i in pick]
        O.same[key + '.agree'] = 1
        if ctx.rank == 0:
            O.check(key + '.value_at', [v for _, _, v in vals], [A[i, j] for i, j, _ in vals], 1e-10, 1e-12)
            O.check(key + '.cond', O.same[key + '.cond'], float(np.linalg.cond(A)), 1e-5)
            O.check(key + '.rank', O.same[key + '.rank'], int(np.linalg.matrix_rank(A)))
            O.check(key + '.sing', O.same[key + '.sing'], N - int(np.linalg.matrix_rank(A)))
        A2 = als_r.gather()
        if ctx.rank == 0:
            O.check(key + '.csr', dense(A2), A, 1e-12, 1e-13)
            O.check(key + '.nnz-row', [c for _, c in rows], [A2.tocsr()[i].nnz for i, _ in rows])
            O.check(key + '.nnz-col', [c for _, c in cols], [A2.tocsc()[:, i].nnz for i, _ in cols])
        # again, from the cache
        k = f'{key}-{spec_seed(P)}'
        A3 = lls.A._mA.assemble(cache=P.label + k).gather()
        A4 = lls.A._mA.assemble(cache=P.label + k).gather()
        if ctx.rank == 0:
            O.check(key + '.cache', dense(A3), A, 1e-12, 1e-13)
            O.check(key + '.cached', dense(A4), A, 1e-12, 1e-13)
        # small entries of local matrices dropped, for this time only
        mA = lls.A._mA
        th = .3 * max(COMM.allgather(max([float(np.abs(mA[e].toarray()).max()) for e in mA] or [0])))
        T = mA.assemble(threshold=th).gather()
        loc = COMM.gather([(np.array(mA._gm_row[e]), np.array(mA._gm_col[e]), mA[e].toarray()) for e in mA], root=0)
        A6 = mA.assemble().gather()
        if ctx.rank == 0:
            W = np.zeros(A.shape)
            for r, c, m in sum(loc, []):
                np.add.at(W, (r[:, None], c[None, :]), np.where(np.abs(m) < th, 0, m))
            O.check(key + '.threshold', dense(T), W, 1e-10, 1e-12)
            O.check(key + '.after', dense(A6), A, 1e-12, 1e-13)
        als2 = lls.assemble(preconditioner='Jacobian')
        A5, b5 = als2.A.gather(), als2.b.gather()
        if ctx.rank == 0:
            d = np.diag(A).copy()
            d[d < 1] = 1
            O.check(key + '.jacobi', dense(A5), A / d[:, None], 1e-10, 1e-13)
            O.check(key + '.jacobi-b', np.array(b5), b / d, 1e-10, 1e-13)
        return
    if name == 'local':
        # element by element, no coupling
        x, msg, info = lls.solve('spsolve')
        for e in x:
            r = np.asarray(lls.A[e] @ x[e]).ravel() - np.asarray(lls.b[e].todense() if hasattr(lls.b[e], 'todense') else lls.b[e]).ravel()
            O.check(key + f'.res[{e}]', float(np.max(np.abs(r))), 0., 0, 1e-7 * (1 + float(np.max(np.abs(x[e])))))
            O.elem.setdefault(key + '.x', {})[e] = np.array(x[e])
        return
    if name == 'extra':
        # an additional equation that keeps one dof
        e, i, g = P.pin(COMM, 1, a.get('place', 0))
        als = lls.assemble(customizations=[{'A': ['new_EndZeroRowCol_with_a_one_for_global_dof', 1, g], 'b': ['add_a_value_at_the_end', a.get('value', 0)]}])
        A, b = note_system(ctx, O, key, lls, als)
        x, msg, info = als.solve('spsolve')
        O.same[key + '.x'] = np.array(x)
        gc = lls.global_gathering_matrices[1]
        c = gc.find_global_numbering_of_ith_composition_local_dof(1, e, i)
        O.check(key + '.pinned', float(x[c]), a.get('value', 0), 1e-6, 1e-8)
        lls.x.update(np.array(x[:-1]))
        finish(P, O, key, t)
        return
    if name == 'solve':
        als = lls.assemble(**{k: a[k] for k in ('preconditioner', 'threshold', 'cache') if k in a})
        A, b = note_system(ctx, O, key, lls, als)
        kw = dict(a.get('kw', {}))
        x0 = a.get('x0', None)
        if x0 == 'forms':
            x0 = [P.u, P.phi]
        ck = ''
        loose = 0
        if a['scheme'] == 'ppsp':       # PARDISO perturbs the zero pivots of a saddle point
            loose = O.same[key + '.loose'] = 1e-4
        if a['scheme'] in ('gmres', 'lgmres'):
            ck = kw['beta_cache_key'] = key
            getattr(MPY, '___clean_cache___', lambda: None)()
            SOL = ctx.mod('phyem.msehtt.tools.linear_system.static.global_.solve')
            start = None
            if 'safe first try' in getattr(SOL, '___local_setting___', ()):
                SOL.___local_setting___['safe first try'] = a.get('safe', 0)
                start = initial_guess(COMM, P, lls, A, b, x0, a.get('safe', 0))
        Err = getattr(MPY, 'LinerSystemSolverDivergenceError', ZeroDivisionError)
        try:
            x, msg, info = als.solve(a['scheme'], x0=x0, **kw)
        except Err:
            O.same[key + '.diverged'] = True
            return
        x = np.array(x)
        O.same[key + '.x'] = x
        if ck:
            O.same[key + '.info'] = int(info)
            O.same[key + '.sign'] = int(np.sign(info))
            if ctx.rank == 0:
                bt = getattr(MPY, '___beta_cache___', {}).get(key, [])
                O.info[key] = dict(atol=kw['atol'], info=int(info), beta=bt)
                if bt:
                    O.check(key + '.residual', bt[-1], residual(A, b, x), 1e-3, 1e-9 * (1 + np.linalg.norm(b)))
                if bt and start is not None:
                    iteration_oracle(O, key, a['scheme'], kw, A, b, start, bt, int(info))
                if info == 0:
                    O.check(key + '.converged', residual(A, b, x) < 1.001 * kw['atol'] + 1e-12, True)
        elif ctx.rank == 0:
            s = np.linalg.svd(A, compute_uv=False)
            tol = 1e-9 * max(1, s[0]) * (1 + np.linalg.norm(x))
            O.check(key + '.residual', residual(A, b, x), 0., 0, max(tol, loose) * (1 + np.linalg.norm(b)))
        if a.get('twice'):
            # solving does not use the system up
            y = np.array(als.solve('direct', x0=0)[0])
            z = np.array(als.solve('direct')[0])
            if ctx.rank == 0:
                s = np.linalg.svd(A, compute_uv=False)
                for v in (y, z):
                    O.check(key + '.twice', residual(A, b, v), 0., 0, 1e-9 * (1 + np.linalg.norm(b)) * max(1, s[0]) * (1 + np.linalg.norm(v)))
        for which, _, e, i, value in pinned or ():
            gc = lls.global_gathering_matrices[1]
            c = gc.find_global_numbering_of_ith_composition_local_dof(which, e, i)
            if not ck or info == 0:
                O.check(key + f'.pin{which}', float(x[c]), value, 1e-6, max(10 * kw.get('atol', 1e-9), 100 * loose))
        lls.x.update(x)
        # the unknowns got the solution
        gm = lls.global_gathering_matrices[1]
        for f, part in ((P.u, 0), (P.phi, 1)):
            co = f[t].cochain.local if hasattr(f[t].cochain, 'local') else f.cochain[t]
            for e in gm:
                nu = P.u.cochain.gathering_matrix.num_local_dofs(e)
                loc = x[gm[e]]
                O.check(key + f'.update{part}', np.array(f.cochain[t][e]), loc[:nu] if part == 0 else loc[nu:], 1e-12, 1e-13)
        finish(P, O, key, t, exact=not ck)


def initial_guess(COMM, P, lls, A, b, x0, safe):
    """what the solver must start from"""
    gm = lls.global_gathering_matrices[1]
    N = None
    mine = {}
    if x0 == 0:
        pass
    else:
        cu, cp = P.u.cochain, P.phi.cochain
        for e in gm:
            parts = [np.array(c[c.newest][e]) if c.newest is not None else np.zeros(c.gathering_matrix.num_local_dofs(e)) for c in (cu, cp)]
            mine.update(zip((int(g) for g in gm[e]), np.concatenate(parts)))
    every = COMM.gather(mine, root=0)
    if every is None:
        return None
    x = np.zeros(A.shape[1])
    for d in every:
        for g, v in d.items():
            x[g] = v
    if safe:
        for i in range(A.shape[0]):
            nz = np.nonzero(A[i])[0]
            if len(nz) == 1 and nz[0] == i and A[i, i] == 1.:
                x[i] = b[i]
    return x


def krylov(A, b, x0, m):
    """one cycle of GMRES(m)"""
    r = b - A @ x0
    beta = np.linalg.norm(r)
    n = len(b)
    V = np.zeros((n, m + 1))
    H = np.zeros((m + 1, m))
    V[:, 0] = r / beta
    for j in range(m):
        w = A @ V[:, j]
        for _ in range(2):
            h = V[:, :j + 1].T @ w
            H[:j + 1, j] += h
            w = w - V[:, :j + 1] @ h
        H[j + 1, j] = np.linalg.norm(w)
        if H[j + 1, j] < 1e-12 * beta:
            return None
        V[:, j + 1] = w / H[j + 1, j]
    e = np.zeros(m + 1)
    e[0] = beta
    y = np.linalg.lstsq(H, e, rcond=None)[0]
    return x0 + V[:, :m] @ y


def iteration_oracle(O, key, scheme, kw, A, b, x0, betas, info):
    """the residuals of the (l)gmres run against what the method promises"""
    O.check(key + '.start', betas[0], float(np.linalg.norm(b - A @ x0)), 1e-8, 1e-11 * (1 + np.linalg.norm(b)))
    s = np.linalg.svd(A, compute_uv=False)
    nice = s[-1] > 1e-7 * s[0]
    m = kw['restart'] if scheme == 'gmres' else kw['inner_m'] + kw['outer_k']
    O.check(key + '.budget', len(betas) - 1 <= kw['maxiter'], True)
    if info == 0:
        O.check(key + '.reached', betas[-1] <= kw['atol'], True)
    if not nice:
        return
    N = A.shape[0]
    floor = 1e-6 * betas[0] + 1e-10
    if m <= N // 2:
        for u, v in zip(betas, betas[1:]):
            if u > floor:
                O.check(key + '.monotone', v <= u * (1 + 1e-6), True)
        x = x0
        for c in range(1, min(len(betas), 3 if scheme == 'gmres' else 2)):
            x = krylov(A, b, x, m)
            if x is None:
                break
            r = float(np.linalg.norm(b - A @ x))
            if r < floor:
                break
            O.info.setdefault('cmp', []).append((scheme, m, N, c, betas[c], r))
            O.check(key + '.cycle%d' % c, betas[c], r, 1e-3 if r > .03 * betas[0] or m <= 3 else .2, floor)     # long cycles amplify rounding
    elif m >= N and scheme == 'gmres' and kw['atol'] >= 1e-7 and kw['maxiter'] >= 5:
        pass


def finish(P, O, key, t, exact=True):
    O.same[key + '.err'] = [float(P.phi[t].error()), float(P.u[t].error())]
    O.same[key + '.norm'] = [float(P.phi[t].norm()), float(P.u[t].norm())]


def _chain(COMM, lls, which, e, i):
    return int(lls.global_gathering_matrices[1].find_global_numbering_of_ith_composition_local_dof(which, e, i))


def spec_seed(P):
    return P.spec.get('seed', 0)


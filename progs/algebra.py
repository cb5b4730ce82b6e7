"""Several linear systems on the same forms, with different boundary conditions and dofs pinned, and matrices and vectors computed from each other,
in one session: no use of any of them may change another one."""
import numpy as np

from progs.lib import Obs, mesh_args, base_count, fields, place


def formulation(ph, n, degree, ori, number):
    ph.config.set_embedding_space_dim(n)
    manifold = ph.manifold(n, periodic=False)
    mesh = ph.mesh(manifold)
    if ori == 'outer':
        L1, L0 = ph.space.new('Lambda', n - 1, orientation='outer'), ph.space.new('Lambda', n, orientation='outer')
    else:
        L1, L0 = ph.space.new('Lambda', 1, orientation='inner'), ph.space.new('Lambda', 0, orientation='inner')
    phi = L0.make_form(r'\varphi', 'potential')
    u = L1.make_form(r'u', 'velocity')
    f = L0.make_form(r'f', 'source')
    if ori == 'outer':
        d_u, ds_phi = u.exterior_derivative(), phi.codifferential()
        eqs = ['u = - ds_phi', 'f = - d_u']
    else:
        ds_u, d_phi = u.codifferential(), phi.exterior_derivative()
        eqs = ['u = d_phi', 'f = ds_u']
    out = {}
    for i in range(number):
        a, b = r'\Gamma_{n%d}' % i, r'\Gamma_{e%d}' % i
        pde = ph.pde(eqs, locals())
        pde._indi_dict = None
        pde.unknowns = [u, phi]
        pde.bc.partition(a, b)
        pde.bc.define_bc({b: ph.trace(u), a: ph.trace(ph.Hodge(phi))} if ori == 'outer' else {b: ph.trace(phi), a: ph.trace(ph.Hodge(u))})
        wf = pde.test_with([L1, L0], sym_repr=[r'v_%d' % i, r'q_%d' % i])
        if ori == 'outer':
            wf = wf.derive.integration_by_parts('0-1')
            wf = wf.derive.rearrange({0: '0, 1 = 2', 1: '1 = 0'})
        else:
            wf = wf.derive.integration_by_parts('1-1')
            wf = wf.derive.rearrange({0: '0, 1 = ', 1: '1 = 0, 2'})
        ph.space.finite(degree)
        out['ls%d' % i] = wf.mp().ls()
    return out


class Systems:
    def __init__(self, ph, ctx, spec, scheme='msehtt-s'):
        self.ph, self.spec = ph, spec
        n, self.ori = spec['n'], spec.get('orientation', 'outer')
        self.n = n
        number = len(spec['sides'])
        L = formulation(ph, n, spec['degree'], self.ori, number)
        self.msehtt, obj = ph.fem.apply(scheme, L)
        base = self.msehtt.base
        a, kw = mesh_args(spec['mesh'])
        self.msehtt.config('tgm')(*a, **kw)
        self.tgm = base['the_great_mesh']
        self.nbase = base_count(self.tgm)
        m = base['meshes']
        self.M = m[r'\mathfrak{M}']
        self.msehtt.config(self.M)(self.tgm, 'all')
        f = base['forms']
        self.phi, self.u, self.src = f['potential'], f['velocity'], f['source']
        self.ls = [obj['ls%d' % i].apply() for i in range(number)]
        self.msehtt.config(m[r'\eth\mathfrak{M}'])(self.tgm, self.M)
        self.parts = []
        for i in range(number):
            nat, ess = [[m[k] for k in m if s in k][0] for s in (r'\Gamma_{n%d}' % i, r'\Gamma_{e%d}' % i)]
            kind, where = place(dict(spec, sides=spec['sides'][i]))
            self.msehtt.config(ess)(self.tgm, {'type': 'boundary_section', 'partial elements': self.M, kind: where})
            self.msehtt.config(nat)(self.tgm, {'type': 'boundary_section', 'partial elements': self.M, 'except ' + kind: where})
            self.parts.append((nat, ess))
        self.conf = [None] * number
        self.COMM = ctx.mod('phyem.src.config').COMM
        self.SLM = ctx.mod('phyem.msehtt.tools.matrix.static.local').MseHttStaticLocalMatrix
        self.bmat = ctx.mod('phyem.msehtt.tools.matrix.static.local').bmat

    def field(self, i, shift):
        """the exact solution everything refers to, and what system i has on its boundary"""
        s, _ = fields(self.n, shift, False)
        S = self.ph.vc.scalar(s)
        self.phi.cf = S
        if self.ori == 'inner':
            self.u.cf = self.phi.cf.exterior_derivative()
            self.src.cf = self.u.cf.codifferential()
        else:
            self.u.cf = -self.phi.cf.codifferential()
            self.src.cf = -self.u.cf.exterior_derivative()
        if i is not None and self.conf[i] != shift:
            self.conf[i] = shift
            nat, ess = self.parts[i]
            if self.ori == 'outer':
                self.ls[i].config(['natural bc', 1], nat, S, root_form=self.phi)
                self.ls[i].config(['essential bc', 1], ess, self.u.cf.field, root_form=self.u)
            else:
                self.ls[i].config(['natural bc', 1], nat, self.u.cf.field, root_form=self.u)
                self.ls[i].config(['essential bc', 1], ess, S, root_form=self.phi)

    def pick(self, f, place):
        """a local dof, the same on all ranks: element, local number, global number"""
        COMM, gm = self.COMM, f.cochain.gathering_matrix
        els = sorted({str(e): e for r in COMM.allgather(list(gm)) for e in r}.values(), key=str)
        e = els[place % len(els)]
        i = place % gm.num_local_dofs(e) if e in gm else -1
        g = int(gm[e][i]) if e in gm else -1
        return e, max(COMM.allgather(i)), max(COMM.allgather(g))

    def mass(self, f):
        return self.msehtt.array('mass matrix', f)[0]

    def incidence(self):
        """of u (outer) or of phi (inner)"""
        f, g = (self.u, self.phi) if self.ori == 'outer' else (self.phi, self.u)
        E, key = f.space.incidence_matrix(f.degree)
        return self.SLM(E, g.cochain.gathering_matrix, f.cochain.gathering_matrix, cache_key=key)


def dense(A):
    return {e: A[e].toarray() for e in A}


def summed(COMM, local, rows, cols=None):
    """dense global matrix or vector (the same on all ranks) of local ones"""
    out = 0
    for part in COMM.allgather([(np.array(rows[e]), None if cols is None else np.array(cols[e]), local[e]) for e in local]):
        if isinstance(out, int):
            out = np.zeros(rows.num_global_dofs if cols is None else (rows.num_global_dofs, cols.num_global_dofs))
        for r, c, x in part:
            if c is None:
                np.add.at(out, r, x)
            else:
                np.add.at(out, (r[:, None], c[None, :]), x)
    return out


def main(ph, ctx, spec):
    O = Obs()
    S = Systems(ph, ctx, spec)
    O.info['nbase'] = S.nbase
    for k, op in enumerate(spec['ops']):
        a = op[1]
        key = str(a.get('label', k))
        globals()['op_' + op[0]](ph, ctx, S, O, key, a)
    return O.d()


def op_solve(ph, ctx, S, O, key, a):
    """one of the systems, some dofs pinned: its solution"""
    COMM, t = S.COMM, a.get('t', 0)
    S.field(a['i'], a['shift'])
    S.src[t].reduce()
    lls = S.ls[a['i']](t)
    pins = []
    for which, place, value in a.get('pins', ()):
        e, i, g = S.pick((S.u, S.phi)[which], place)
        lls.customize.set_local_dof(which, e, i, value)
        pins = [p for p in pins if p[:2] != (which, g)] + [(which, g, e, i, value)]
    x, msg, info = lls.assemble().solve('spsolve')
    lls.x.update(x)
    A, b = lls.A._mA, lls.b._vb
    gA = summed(COMM, dense(A), A._gm_row, A._gm_col)
    gb = summed(COMM, {e: b[e] for e in b}, b._gm)
    O.check(key + '.residual', gA @ np.asarray(x).ravel(), gb, 1e-7, 1e-7 * (1 + np.max(np.abs(gb))))
    for which, g, e, i, v in pins:
        f = (S.u, S.phi)[which]
        got = max(COMM.allgather(float(f[t].cochain[e][i]) if e in f.cochain.gathering_matrix else -1e99))
        O.check(key + '.pin', got, v, 1e-7, 1e-7)
    for name, f in (('u', S.u), ('phi', S.phi)):
        c = f[t].cochain
        O.elem[f'{key}.{name}'] = {e: np.array(c[e]) for e in f.cochain.gathering_matrix}
        O.same[f'{key}.{name}.err'] = float(f[t].error())


def op_energy(ph, ctx, S, O, key, a):
    """the mass matrices as they are given to the user"""
    for name, f in (('u', S.u), ('phi', S.phi)):
        M = S.mass(f)
        O.elem[f'{key}.{name}'] = {e: M[e].toarray() for e in M}
        A = M.assemble().gather()
        if ctx.rank == 0:
            O.same[f'{key}.{name}.sum'] = float(A.sum())
            O.same[f'{key}.{name}.norm'] = float(abs(A).sum())
        O.same[f'{key}.{name}.sum'] = S.COMM.bcast(O.same.get(f'{key}.{name}.sum'), root=0)
        O.same[f'{key}.{name}.norm'] = S.COMM.bcast(O.same.get(f'{key}.{name}.norm'), root=0)


def op_custom(ph, ctx, S, O, key, a):
    """the user customizes a mass matrix: this matrix only"""
    f = (S.u, S.phi)[a['which']]
    M = S.mass(f)
    before = summed(S.COMM, dense(M), M._gm_row, M._gm_col)
    done = {}
    for kind, place in a['rows']:
        e, i, g = S.pick(f, place)
        {'identify': M.customize.identify_row, 'zero': M.customize.zero_row}[kind](g)
        done[g] = kind
    after = summed(S.COMM, dense(M), M._gm_row, M._gm_col)
    for g, kind in done.items():
        before[g] = 0
        if kind == 'identify':
            before[g, g] = 1
    O.check(key + '.customized', after, before, 1e-9, 1e-12)


def op_algebra(ph, ctx, S, O, key, a):
    """random expressions of local matrices and vectors: what they denote, element by element, and assembled"""
    COMM = S.COMM
    rng = np.random.RandomState(a['seed'])
    u, phi = S.u, S.phi
    S.field(None, a.get('shift', .3))
    for f in (u, phi):
        f[0].reduce()
        f[1].reduce()
    fs = dict(u=u, p=phi)
    el = list(u.cochain.gathering_matrix)
    E = S.incidence()
    kind = 'pu' if S.ori == 'outer' else 'up'
    atoms = [('uu', S.mass(u)), ('pp', S.mass(phi)), (kind, E), (kind[::-1], E.T), ('uu', S.SLM(0, u.cochain.gathering_matrix, u.cochain.gathering_matrix, cache_key='zero'))]
    pool = [(k, M, dense(M)) for k, M in atoms]                # kind, matrix, what it is
    vecs = [(k, fs[k].cochain.static_vec(t), {e: np.array(fs[k].cochain[t][e]) for e in el}) for k in 'up' for t in (0, 1)]
    for step in range(a['steps']):
        r = int(rng.randint(0, 100))
        k, M, D = pool[int(rng.randint(0, len(pool)))]
        if r < 12:
            new = (k, -M, {e: -D[e] for e in el})
        elif r < 24:
            x = float(rng.choice([2., -.5, 1e-3, 1., 3.]))
            new = (k, x * M, {e: x * D[e] for e in el})
        elif r < 36:
            new = (k[::-1], M.T, {e: D[e].T for e in el})
        elif r < 52:
            c = [i for i in range(len(pool)) if pool[i][0] == k]
            k2, M2, D2 = pool[c[int(rng.randint(0, len(c)))]]
            new = (k, M + M2, {e: D[e] + D2[e] for e in el})
        elif r < 68:
            c = [i for i in range(len(pool)) if pool[i][0][0] == k[1]]
            k2, M2, D2 = pool[c[int(rng.randint(0, len(c)))]]
            new = (k[0] + k2[1], M @ M2, {e: D[e] @ D2[e] for e in el})
        elif r < 72:
            M2, D2 = atoms[0][1], pool[0][2]
            new = ('uu', M2.inv(), {e: np.linalg.inv(D2[e]) for e in el})
        elif r < 84:
            # a matrix of its own is customized (nothing else was computed from it yet)
            x = float(rng.choice([2., 1., -1.]))
            w = int(rng.randint(0, 2))
            C, x = (x * M, x) if w else (M + M, 2.)
            before = summed(COMM, {e: x * D[e] for e in el}, C._gm_row, C._gm_col)
            if int(rng.randint(0, 2)):
                dense(C)
            for _ in range(int(rng.randint(1, 3))):
                which = fs[k[0]]
                e, i, g = S.pick(which, int(rng.randint(0, 10000)))
                w = int(rng.randint(0, 2))
                if w and k[0] == k[1]:
                    C.customize.identify_row(g)
                    before[g] = 0
                    before[g, g] = 1
                else:
                    C.customize.zero_row(g)
                    before[g] = 0
            D2 = dense(C)
            O.check(f'{key}.{step}.customized', summed(COMM, D2, C._gm_row, C._gm_col), before, 1e-9, 1e-12)
            new = (k, C, D2)
        elif r < 92:
            c = [i for i in range(len(vecs)) if vecs[i][0] == k[1]]
            kv, v, dv = vecs[c[int(rng.randint(0, len(c)))]]
            w = M @ v
            dw = {e: D[e] @ dv[e] for e in el}
            vecs.append((k[0], w, dw))
            vector(S, O, f'{key}.{step}.matvec', w, dw, el)
            new = None
        else:
            i = int(rng.randint(4, len(vecs))) if len(vecs) > 4 else 0
            new = None
            if i == 0 or int(rng.randint(0, 4)) == 0:
                # the cochain of a form given out as a vector: it is the user's, and the form keeps its own
                kv = 'up'[int(rng.randint(0, 2))]
                t_ = int(rng.randint(0, 2))
                x = fs[kv].cochain.static_vec(t_)
                e_, i_, g = S.pick(fs[kv], int(rng.randint(0, 10000)))
                own = {e: np.array(fs[kv].cochain[t_][e]) for e in el}
                before = summed(COMM, {e: x[e] for e in x}, x._gm)
                x.customize.set_value(g, .75)
                before[g] = .75
                dx = {e: np.array(x[e]) for e in el}
                O.check(f'{key}.{step}.set', summed(COMM, dx, x._gm), before, 1e-9, 1e-12)
                O.check(f'{key}.{step}.cochain', len([e for e in el if np.any(fs[kv].cochain[t_][e] != own[e])]), 0)
            else:
                kv, v, dv = vecs[i]
                c = [j for j in range(4, len(vecs)) if vecs[j][0] == kv]
                _, v2, dv2 = vecs[c[int(rng.randint(0, len(c)))]]
                w = int(rng.randint(0, 5))
                if w == 0:
                    x, dx = v + v2, {e: dv[e] + dv2[e] for e in el}
                elif w == 1:
                    x, dx = v - v2, {e: dv[e] - dv2[e] for e in el}
                elif w == 2:
                    x, dx = -v, {e: -dv[e] for e in el}
                elif w == 3:
                    x, dx = 2.5 * v, {e: 2.5 * dv[e] for e in el}
                else:
                    x = 1. * v
                    e_, i_, g = S.pick(fs[kv], int(rng.randint(0, 10000)))
                    before = summed(COMM, {e: x[e] for e in x}, x._gm)
                    x.customize.set_value(g, .75)
                    before[g] = .75
                    dx = {e: np.array(x[e]) for e in el}
                    O.check(f'{key}.{step}.set', summed(COMM, dx, x._gm), before, 1e-9, 1e-12)
                vecs.append((kv, x, dx))
                vector(S, O, f'{key}.{step}.vector', x, dx, el)
        if new is not None:
            pool.append(new)
    # everything is still what it was, whatever was computed from it, in any order of the elements
    order = list(range(len(pool)))
    rng.shuffle(order)
    for i in order:
        k, M, D = pool[i]
        es = list(el)
        rng2 = np.random.RandomState(a['seed'] + i)
        rng2.shuffle(es)
        bad = [e for e in es if np.max(np.abs(M[e].toarray() - D[e]), initial=0) > 1e-9 * (1 + np.max(np.abs(D[e]), initial=0))]
        O.check(f'{key}.local', len(bad), 0)
    for i, (kv, v, dv) in enumerate(vecs):
        bad = [e for e in el if np.max(np.abs(v[e] - dv[e]), initial=0) > 1e-9 * (1 + np.max(np.abs(dv[e]), initial=0))]
        O.check(f'{key}.vectors', len(bad), 0)
    for i in order[:a.get('assembled', 3)]:
        k, M, D = pool[i]
        fmt = ['csr', 'csc'][i % 2]
        G = M.assemble(format=fmt).gather()
        want = summed(COMM, D, M._gm_row, M._gm_col)
        if ctx.rank == 0:
            O.check(f'{key}.assembled', G.toarray(), want, 1e-9, 1e-9 * (1 + np.max(np.abs(want))))
    # blocks
    cand = [i for i in range(len(pool)) if pool[i][0] == 'uu'], [i for i in range(len(pool)) if pool[i][0] == 'pp']
    k01 = [i for i in range(len(pool)) if pool[i][0] == 'up']
    i0, i1, i2 = [c[int(rng.randint(0, len(c)))] for c in (*cand, k01)]
    B = S.bmat([[pool[i0][1], pool[i2][1]], [None, pool[i1][1]]])
    for e in el:
        x, y, z = pool[i0][2][e], pool[i2][2][e], pool[i1][2][e]
        want = np.block([[x, y], [np.zeros((z.shape[0], x.shape[1])), z]])
        O.check(f'{key}.block', B[e].toarray(), want, 1e-9, 1e-9 * (1 + np.max(np.abs(want))))


def vector(S, O, key, v, d, el):
    bad = [e for e in el if np.max(np.abs(v[e] - d[e]), initial=0) > 1e-9 * (1 + np.max(np.abs(d[e]), initial=0))]
    O.check(key, len(bad), 0)
    got = v.assemble().gather()
    want = summed(S.COMM, d, v._gm)
    if got is not None:
        O.check(key + '.assembled', got, want, 1e-9, 1e-9 * (1 + np.max(np.abs(want))))


def op_local(ph, ctx, S, O, key, a):
    """a system taken element by element: blocks multiplied, dofs of single elements pinned, numbers of each matrix, local solutions"""
    COMM, t = S.COMM, a.get('t', 0)
    S.field(a['i'], a['shift'])
    S.src[t].reduce()
    lls = S.ls[a['i']](t)
    A, b = lls.A._mA, lls.b._vb
    el = list(A)
    D, d = {e: A[e].toarray() for e in el}, {e: np.array(b[e]) for e in el}
    nu = {e: S.u.cochain.gathering_matrix.num_local_dofs(e) for e in el}
    if a.get('mul'):
        # the rows of the first unknown multiplied by its mass matrix
        M = S.mass(S.u)
        for j in (0, 1):
            if lls.A._A[0][j] is not None:
                lls.customize.left_matmul_A_block(0, j, M)
        if a['mul'] > 1:
            lls.customize.left_matmul_b_block(0, M)
        for e in el:
            m = M[e].toarray()
            D[e][:nu[e]] = m @ D[e][:nu[e]]
            if a['mul'] > 1:
                d[e][:nu[e]] = m @ d[e][:nu[e]]
        b = lls.b._vb
    every = sorted({str(e): e for r in COMM.allgather(el) for e in r}.values(), key=str)
    for place, value in a.get('pins', ()):
        e = every[place % len(every)]
        k = place % min(COMM.allgather(len(d[e]) if e in d else 10 ** 9))
        lls.customize.set_element_only_local_dof(e, k, value)
        if e in D:
            D[e][k] = 0
            D[e][k, k] = 1
            d[e][k] = value
    for e in el:
        O.check(key + '.A', A[e].toarray(), D[e], 1e-9, 1e-12)
        O.check(key + '.b', b[e], d[e], 1e-9, 1e-12)
    if all(isinstance(e, (int, np.integer)) for e in every) and every == list(range(len(every))):
        for e in every:
            got = lls.rank(e), lls.num_singularities(e), float(lls.condition_number(e))
            if e in D:
                r = int(np.linalg.matrix_rank(D[e]))
                O.check(key + '.rank', got[:2], (r, D[e].shape[0] - r))
                want = np.linalg.cond(D[e])
                if want < 1e9:
                    O.check(key + '.cond', got[2], want, 1e-6, 0)
            O.same[f'{key}.rank.{e}'] = got[:2]
    cond = max([0] + COMM.allgather(max([0] + [np.linalg.cond(D[e]) for e in el])))
    if cond < 1e8:
        x, msg, info = lls.solve('spsolve')
        O.check(key + '.elements', sorted(map(str, x)), sorted(map(str, el)))
        for e in el:
            O.check(key + '.solution', x[e], np.linalg.solve(D[e], d[e]), 1e-6, 1e-6)
        lls.x.update(x)
        for e in el:
            O.check(key + '.update', np.concatenate([S.u[t].cochain[e], S.phi[t].cochain[e]]), x[e], 1e-12, 1e-12)
    O.same[key + '.solved'] = bool(cond < 1e8)

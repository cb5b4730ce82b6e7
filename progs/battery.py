"""One script touching every global quantity of forms and meshes."""
import numpy as np

from progs.lib import Obs, setup, fields

TAGS = {}


def guarded(O, name, fn):
    """quantities phyem does not implement for a kind of mesh or form are recorded as such"""
    try:
        O.same[name] = fn()
    except NotImplementedError:
        O.same[name] = 'not implemented'
        return False
    return True


def main(ph, ctx, spec):
    ops = spec['ops']
    j = setup(ph, spec)
    O = Obs()
    O.info['nbase'] = j.nbase
    times = spec.get('times', [0])
    for i, f in enumerate(j.forms):
        for t in times:
            f[t].reduce()
    for op in ops:
        globals()['op_' + op](ph, ctx, j, O, spec, times)
    return O.d()


def _probe(j, f):
    """(element, local dof) pairs to ask about; the same on every rank"""
    COMM = j.COMM
    gm = f.cochain.gathering_matrix
    mine = {}
    for e in gm:
        mine[e] = len(gm[e])
    al = {}
    for d in COMM.allgather(mine):
        al.update(d)
    keys = sorted(al, key=str)
    out = []
    for a, e in enumerate(keys):
        n = al[e]
        out.append((e, (7 * a + 3) % n))
        out.append((e, (5 * a) % n))
    if len(out) > 10:
        st = max(1, len(out) // 10)
        out = out[::st]
    return out


def _comm(ph, ctx, j):
    if not hasattr(j, 'COMM'):
        j.COMM = ctx.mod('phyem.src.config').COMM
    return j.COMM


def op_cochain(ph, ctx, j, O, spec, times):
    for i, f in enumerate(j.forms):
        for t in times:
            O.elem[f'c{i}@{t}'] = {e: np.array(f[t].cochain[e]) for e in f[t].cochain}
            O.elem[f'sig{i}'] = {e: j.M.composition[e].signature for e in j.M.composition}


def op_coboundary(ph, ctx, j, O, spec, times):
    for i, f in enumerate(j.forms):
        if j.kinds[i][0] < j.n:
            for t in times:
                d = f[t].coboundary()
                O.elem[f'dc{i}@{t}'] = {e: np.array(d[e]) for e in d}


def op_errors(ph, ctx, j, O, spec, times):
    for i, f in enumerate(j.forms):
        k = j.kinds[i][0]
        for t in times:
            guarded(O, f'err{i}@{t}', lambda: float(f[t].error()))
            if k < j.n:
                guarded(O, f'derr{i}@{t}', lambda: float(f[t].error('d_L2')))
                guarded(O, f'h1err{i}@{t}', lambda: float(f[t].error('H1')))


def op_norms(ph, ctx, j, O, spec, times):
    for i, f in enumerate(j.forms):
        k = j.kinds[i][0]
        for t in times:
            guarded(O, f'norm{i}@{t}', lambda: f[t].norm())
            guarded(O, f'normcw{i}@{t}', lambda: f[t].norm(component_wise=True))
            for ty in spec.get('norm_types', ()):
                guarded(O, f'norm-{ty}{i}@{t}', lambda: f[t].norm(ty))
        if len(times) > 1:
            guarded(O, f'nres{i}', lambda: f.norm_residual())


def op_mass(ph, ctx, j, O, spec, times):
    for i, f in enumerate(j.forms):
        if j.kinds[i][0] in (0, j.n):
            for t in times:
                guarded(O, f'mass{i}@{t}', lambda: f[t].mass())


def op_inner(ph, ctx, j, O, spec, times):
    for i, f in enumerate(j.forms):
        for i2, g in enumerate(j.forms):
            if i2 > i and (len(j.kinds) < 3 or (i2 - i) < 3):
                t = times[-1]
                guarded(O, f'inner{i},{i2}', lambda: f[t].inner_product(g[t]))


def op_numbering(ph, ctx, j, O, spec, times):
    for i, f in enumerate(j.forms):
        gm = f.cochain.gathering_matrix
        O.same[f'ngd{i}'] = int(f.cochain.num_global_dofs)
        O.same[f'dofs-ngd{i}'] = int(f.dofs.num_global_dofs)
        O.elem[f'gm{i}'] = {e: np.array(gm[e]) for e in gm}


def op_lookup(ph, ctx, j, O, spec, times):
    """cochain and location look-ups that answer the same on every rank"""
    COMM = _comm(ph, ctx, j)
    t = times[-1]
    for i, f in enumerate(j.forms):
        gm = f.cochain.gathering_matrix
        pr = _probe(j, f)
        for e, d in pr[:6]:
            O.same[f'of_local{i}:{e},{d}'] = float(f[t].cochain.of_local_dof(e, d))
            g = [int(gm[e][d])] if e in gm else []
            g = sum(COMM.allgather(g), [])[0]
            O.same[f'of_dof{i}:{e},{d}'] = float(f[t].cochain.of_dof(g))


def op_locate(ph, ctx, j, O, spec, times):
    for i, f in enumerate(j.forms):
        gm = f.cochain.gathering_matrix
        n = int(f.cochain.num_global_dofs)
        dofs = sorted({0, n - 1, n // 2, n // 3, (2 * n) // 3})
        # every local dof whose global number is asked for must be found
        loc = gm.find_rank_locations_of_global_dofs(dofs)
        O.elem[f'loc{i}'] = {}
        for g in dofs:
            O.elem[f'loc{i}'][(ctx.rank, g)] = sorted([list(map(str, x)) for x in loc.get(g, [])])
        own = {}
        for g in dofs:
            own[g] = sorted([[str(e), str(k)] for e in gm for k in range(len(gm[e])) if gm[e][k] == g])
        O.elem[f'own{i}'] = {(ctx.rank, g): own[g] for g in dofs}
        rep = gm.find_representative_location(dofs[len(dofs) // 2]) if hasattr(gm, 'find_representative_location') else None
        if rep is not None:
            O.same[f'rep-agree{i}'] = True


def op_merge(ph, ctx, j, O, spec, times):
    for i, f in enumerate(j.forms):
        m = f[times[-1]].cochain._merge_to()
        if ctx.rank == 0:
            O.root[f'merge{i}'] = m
        else:
            assert m is not None or m is None


def op_gvec(ph, ctx, j, O, spec, times):
    for i, f in enumerate(j.forms):
        t = times[-1]
        v = f[t].cochain.gathered_global_vector.V
        gm = f.cochain.gathering_matrix
        O.elem[f'gvec{i}'] = {e: np.array(v[gm[e]]) for e in gm}
        O.same[f'gvecsum{i}'] = float(np.sum(np.abs(v)))
        f[t].cochain.homogenous()
        O.elem[f'homog{i}'] = {e: np.array(f[t].cochain[e]) for e in f[t].cochain}


def op_flux(ph, ctx, j, O, spec, times):
    if j.B is None:
        return
    for i, f in enumerate(j.forms):
        if j.kinds[i] == (1, 'outer') and j.n == 2 and spec['mesh']['kind'] not in ('meshpy',) and 'trf' not in spec['mesh']:
            guarded(O, f'flux{i}', lambda: float(f[times[-1]].flux_over_boundary_section(j.B)))


def op_bdofs(ph, ctx, j, O, spec, times):
    if j.B is None:
        return
    O.same['nbf'] = None
    O.elem['bfaces'] = {x: 1 for x in j.B.composition}
    O.same['B.mn'] = j.B.composition.mn
    del O.same['nbf']
    for i, f in enumerate(j.forms):
        try:
            loc = j.B.composition.find_dofs(f, local=True)
        except NotImplementedError:
            continue
        O.elem[f'bdofs{i}'] = {e: np.array(sorted(loc[e])) for e in loc}
        g = j.B.composition.find_dofs(f, local=False)
        gm = f.cochain.gathering_matrix
        O.same[f'nbdofs{i}'] = len(g)
        s = set(int(x) for x in g)
        O.elem[f'bdofs-global{i}'] = {e: np.array([int(x) in s for x in gm[e]]) for e in gm}


def op_compute(ph, ctx, j, O, spec, times):
    t = times[-1]
    C = j.M.composition.compute
    if j.n == 2:
        sc = [f for f, k in zip(j.forms, j.kinds) if k[0] == 0]
        ve = [f for f, k in zip(j.forms, j.kinds) if k[0] == 1]
        if sc and ve:
            guarded(O, 'a', lambda: float(C.a(sc[0][t], ve[0][t], ve[-1][t])))
            # a_test needs an inner B and an outer C
            inn = [f for f, k in zip(j.forms, j.kinds) if k == (1, 'inner')]
            out = [f for f, k in zip(j.forms, j.kinds) if k == (1, 'outer')]
            if inn and out and [f for f, k in zip(j.forms, j.kinds) if k == (0, 'outer')]:
                guarded(O, 'a_test', lambda: float(C.a_test(sc[0][t], inn[0][t], out[0][t])))
        s = fields(2, 1.7)[0]
        guarded(O, 'integrate', lambda: float(C.integrate(ph.vc.scalar(s)[0.3].__class__ and ph.vc.scalar(s), t=0.3)))
    else:
        ve = [f for f, k in zip(j.forms, j.kinds) if k[0] in (1, 2)]
        if len(ve) > 1:
            guarded(O, 'a', lambda: float(C.a(ve[0][t], ve[1][t], ve[-1][t])))


def op_meshinfo(ph, ctx, j, O, spec, times):
    els = j.tgm.elements
    O.same['stat'] = els.statistics
    O.same['mn'] = els.mn
    O.same['M.mn'] = j.M.composition.mn
    O.same['nge'] = j.M.composition.num_global_elements
    O.elem['etype'] = {e: str(els[e].etype) for e in els}
    O.elem['emap'] = {e: [str(x) for x in els[e].map_] for e in els}   # node names: compared up to renaming
    O.elem['esig'] = {e: els[e].signature for e in els}
    O.elem['M.range'] = {e: 1 for e in j.M.composition}
    if ctx.rank == 0:
        O.root['global_map'] = {e: [str(x) for x in els.global_map[e]] for e in els.global_map}
        O.root['global_etype'] = {e: str(els.global_etype[e]) for e in els.global_etype}
        try:
            O.root['neigh'] = els.global_neighbors
        except (NotImplementedError, AttributeError):
            O.root['neigh'] = None
        O.root['range'] = sorted(map(str, j.M.composition.global_element_range))


def op_geometry(ph, ctx, j, O, spec, times):
    """the geometry of the elements: where a reference point lands, and its Jacobian"""
    els = j.tgm.elements
    pts = [np.array([.31, -.52, .77]), np.array([-.66, .14, .25]), np.array([.05, .48, -.83])][:j.n]
    O.elem['map'] = {e: np.array(els[e].ct.mapping(*pts)) for e in els}
    O.elem['jac'] = {e: np.array(els[e].ct.Jacobian(*pts)) for e in els}


def op_value(ph, ctx, j, O, spec, times):
    """point values: at the images of interior reference points of some elements"""
    COMM = _comm(ph, ctx, j)
    els = j.M.composition
    mine = {}
    for e in els:
        if els[e].etype in (5, 'unique msepy curvilinear triangle', 'unique curvilinear triangle'):
            pass
        ref = [np.array([v]) for v in ((.013, -.021, .017)[:j.n])]
        mine[e] = [float(np.asarray(x).ravel()[0]) for x in els[e].ct.mapping(*ref)]
    al = {}
    for d in COMM.allgather(mine):
        al.update(d)
    keys = sorted(al, key=str)
    st = max(1, len(keys) // 3)
    for i, f in enumerate(j.forms):
        for t in times:
            for e in keys[::st][:4]:
                guarded(O, f'value{i}@{t}:{e}', lambda: f[t].numeric.value(*al[e]))


def op_iface(ph, ctx, j, O, spec, times):
    """point values where elements meet: one of the elements there supplies it, and only one"""
    COMM = _comm(ph, ctx, j)
    els = j.M.composition
    n = j.n
    refs = [(1., .3, -.1), (1., 1., .2), (-1., .1, 1.), (.4, -1., -1.)]
    mine, boxes = {}, {}
    for e in els:
        grid = np.meshgrid(*[np.linspace(-1, 1, 3)] * n, indexing='ij')
        c = els[e].ct.mapping(*[g.ravel() for g in grid])
        boxes[e] = [(float(np.min(x)), float(np.max(x))) for x in c]
        mine[e] = [[float(np.asarray(x).ravel()[0]) for x in els[e].ct.mapping(*[np.array([v]) for v in r[:n]])] for r in refs]
    al = {}
    for d in COMM.allgather(mine):
        al.update(d)
    keys = sorted(al, key=str)
    st = max(1, len(keys) // 4)
    pts = [al[e][q % len(refs)] for q, e in enumerate(keys[::st][:5])]
    g1 = np.linspace(-1, 1, 9)
    for i, f in enumerate(j.forms):
        t = times[-1]
        try:
            _, val = f[t].reconstruct(*[g1] * n)
        except NotImplementedError:
            val = None
        for p in pts:
            lo = hi = None
            if val is not None:
                near = [e for e in els if all(b[0] - 1e-9 <= x <= b[1] + 1e-9 for x, b in zip(p, boxes[e]))]
                if near:
                    lo = [min(float(np.min(v[e])) for e in near) for v in val]
                    hi = [max(float(np.max(v[e])) for e in near) for v in val]
            rs = [x for x in COMM.allgather((lo, hi)) if x[0] is not None]
            try:
                got = f[t].numeric.value(*p)
            except NotImplementedError:
                continue
            O.same.setdefault(f'iface{i}', []).append(got)
            if not rs:
                continue
            lo = [min(x[0][q] for x in rs) for q in range(len(rs[0][0]))]
            hi = [max(x[1][q] for x in rs) for q in range(len(rs[0][0]))]
            for q, v in enumerate(got if isinstance(got, tuple) else (got,)):
                m = .2 * (hi[q] - lo[q]) + 1e-9
                O.check(f'iface{i}', lo[q] - m <= v <= hi[q] + m, True)


def op_interp(ph, ctx, j, O, spec, times):
    """interpolated-in-time copies"""
    if len(times) < 2:
        return
    for i, f in enumerate(j.forms):
        tm = .5 * (times[0] + times[1])
        try:
            c = f(tm).cochain
            O.elem[f'itp{i}'] = {e: np.array(c[e]) for e in f.cochain.gathering_matrix}
        except NotImplementedError:
            pass


def op_rws(ph, ctx, j, O, spec, times):
    for i, f in enumerate(j.forms[:3]):
        try:
            xyz, val = f[times[-1]].numeric.rws(data_only=True)
        except NotImplementedError:
            O.same[f'rws{i}'] = 'not implemented'
            continue
        if ctx.rank == 0:
            O.root[f'rws{i}'] = [[{e: np.asarray(d[e]) for e in d} for d in xyz], [{e: np.asarray(d[e]) for e in d} for d in val]]
        else:
            O.same.setdefault('rws-none', True)
            if xyz is not None or val is not None:
                O.same[f'rws-slave{i}'] = 'data on a slave'
    O.same.pop('rws-none', None)


def op_gitp(ph, ctx, j, O, spec, times):
    """merged interpolation data on the master"""
    for i, f in enumerate(j.forms[:4]):
        try:
            dt, itp = f[times[-1]].numeric.interpolate(rank_wise=False, data_only=False)
        except (NotImplementedError, ValueError):
            continue
        O.same[f'gitp-dtype{i}'] = dt
        if ctx.rank == 0:
            O.root[f'gitp-n{i}'] = int(itp.tree.n)
            O.root[f'gitp-s{i}'] = float(np.sum(np.abs(itp.values)))
            O.root[f'gitp-p{i}'] = float(np.sum(np.abs(itp.points)))


def op_mats(ph, ctx, j, O, spec, times):
    """element-wise mass and incidence matrices"""
    for i, f in enumerate(j.forms):
        try:
            M = j.msehtt.array('mass matrix', f)[0]
            O.elem[f'M{i}'] = {e: np.array(M[e].todense()) for e in f.cochain.gathering_matrix}
        except NotImplementedError:
            O.same[f'M{i}'] = 'not implemented'
        if j.kinds[i][0] < j.n:
            E = f.incidence_matrix
            O.elem[f'E{i}'] = {e: np.array(E[e].todense()) for e in f.cochain.gathering_matrix}


def op_dform(ph, ctx, j, O, spec, times):
    for i, f in enumerate(j.forms):
        if j.kinds[i][0] < j.n:
            t = times[-1]
            try:
                df = f.d()
                O.same[f'd-norm{i}'] = float(df[t].norm())
            except NotImplementedError:
                O.same[f'd-norm{i}'] = 'not implemented'


def op_project(ph, ctx, j, O, spec, times):
    for i, f in enumerate(j.forms):
        if j.n == 2 and j.kinds[i][0] in (1,):
            for to in ('m2n2k1_inner', 'm2n2k1_outer', 'm2n2k0', 'm2n2k2'):
                try:
                    c = f[times[-1]].project.to(to)
                except (NotImplementedError, ImportError, AttributeError):
                    continue
                try:
                    O.elem[f'proj{i}{to}'] = {e: np.array(c[e]) for e in f.cochain.gathering_matrix}
                except Exception:
                    continue


def op_oracle(ph, ctx, j, O, spec, times):
    """quantities against the element matrices and cochains they are made of"""
    COMM = _comm(ph, ctx, j)
    t = times[-1]
    for i, f in enumerate(j.forms):
        gm = f.cochain.gathering_matrix
        try:
            M = j.msehtt.array('mass matrix', f)[0]
            q = sum(float(f[t].cochain[e] @ (M[e] @ f[t].cochain[e])) for e in gm)
            nn = float(f[t].norm())
        except NotImplementedError:
            continue
        q = sum(COMM.allgather(q))
        O.check(f'norm{i}', nn, q ** .5)


def op_cfl(ph, ctx, j, O, spec, times):
    pass


def op_nodes(ph, ctx, j, O, spec, times):
    """what is evaluated at nodes is that at these nodes: whether the array has held others before, or others a bit off have been asked for"""
    t = times[-1]
    for i, f in enumerate(j.forms):
        n = f.space.n

        def at(x):
            X, V = f[t].reconstruct(*([x] * n), ravel=False)
            out = {}
            for e in X[0]:
                out[e] = np.array([np.array(c[e]) for c in list(X) + list(V)])
                for c in list(X) + list(V):             # the arrays are the caller's
                    if c[e].flags.writeable:
                        c[e] *= 7
            return out
        a = np.array([-.87, -.31, .22, .64])
        b = a[::-1] * .5 + .1
        c = b + 3e-7
        try:
            every = at(np.concatenate([a, b, c]))
        except NotImplementedError:
            continue
        x = a.copy()
        for q, y in enumerate((a, b, c)):
            x[:] = y
            got = at(x)
            d, s = 0., 0.
            for e in got:
                want = every[e][(slice(None),) + (slice(4 * q, 4 * q + 4),) * n]
                if want.shape != got[e].shape:
                    d = 1e9
                    break
                d, s = max(d, np.abs(got[e] - want).max()), max(s, np.abs(want).max())
            O.check(f'nodes{i}.{q}', d, 0., 0, 1e-11 * (1 + s))

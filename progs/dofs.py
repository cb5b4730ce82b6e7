"""Global numbering of degrees of freedom: gathering matrices, chains of them, and look-ups."""
import itertools

import numpy as np

from progs.lib import Obs, setup

CORNERS = {2: [(a, b) for a in (-1., 1.) for b in (-1., 1.)],
           3: list(itertools.product((-1., 1.), repeat=3))}
QUADS = {'unique msepy curvilinear quadrilateral', 'orthogonal rectangle', '9', 'unique curvilinear quad',
         'unique msepy curvilinear hexahedron', 'orthogonal hexahedron'}


def main(ph, ctx, spec):
    j = setup(ph, spec)
    COMM = ctx.mod('phyem.src.config').COMM
    GM = ctx.mod('phyem.msehtt.tools.gathering_matrix').MseHttGatheringMatrix
    O = Obs()
    O.info['nbase'] = j.nbase
    els = j.tgm.elements
    inside = set(j.M.composition)
    O.elem['corners'] = {e: np.array([[float(np.ravel(x)[0]) for x in els[e].ct.mapping(*[np.array([c]) for c in cr])]
                                      for cr in CORNERS[j.n]]) for e in inside}
    O.elem['etype'] = {e: str(els[e].etype) for e in inside}
    O.elem['own'] = {e: ctx.rank for e in inside}
    gms = []
    for i, f in enumerate(j.forms):
        f[0].reduce()
        gm = f.cochain.gathering_matrix
        gms.append(gm)
        O.same[f'ngd{i}'] = int(gm.num_global_dofs)
        O.same[f'nge{i}'] = int(gm.num_global_elements)
        O.elem[f'gm{i}'] = {e: np.array(gm[e]) for e in gm}
        O.elem[f'c{i}'] = {e: np.array(f[0].cochain[e]) for e in f[0].cochain}
        O.info[f'nrd{i}'] = int(gm.num_rank_dofs)
    chains = [tuple(c) for c in spec.get('chains', [])]
    all_gms = [(f'{i}', g) for i, g in enumerate(gms)]
    for c in chains:
        cg = GM([gms[i] for i in c])
        nm = '+'.join(map(str, c))
        all_gms.append((nm, cg))
        O.same['ngd' + nm] = int(cg.num_global_dofs)
        O.elem['gm' + nm] = {e: np.array(cg[e]) for e in cg}
        cg2 = GM([gms[i] for i in c])
        O.same['eq' + nm] = bool(cg == cg2)
        O.elem['gm2' + nm] = {e: np.array(cg2[e]) for e in cg2}
        # composition dof -> chained dof
        r = np.random.RandomState(spec.get('probe', 0))
        res = {}
        for k, i in enumerate(c):
            n = gms[i].num_global_dofs
            for g in sorted({0, n - 1, *r.randint(0, n, 3).tolist()}):
                res[(k, int(g))] = cg.find_global_numbering_of_ith_composition_global_dof(k, int(g))
        O.same['comp' + nm] = res
        # data split and merge
        data = {e: 1. * np.arange(len(cg[e])) + 0.01 * k for k, e in enumerate(cg)}
        parts = cg.split(data)
        O.elem['split' + nm] = {e: [np.array(p[e]) for p in parts] for e in cg}
        O.elem['data' + nm] = data
        if len(set(c)) == len(c):
            vs = [j.forms[i][0].cochain.gathered_global_vector for i in c]
            mv = cg.merge(*vs)
            O.elem['merge' + nm] = {e: np.array(mv.V[cg[e]]) for e in cg}
    O.elem['keys'] = {e: 1 for e in inside}
    mine = {}
    for d in COMM.allgather({e: {nm: len(g[e]) for nm, g in all_gms} for e in inside}):
        mine.update(d)
    order = sorted(mine, key=str)
    for nm, g in all_gms:
        n = g.num_global_dofs
        r = np.random.RandomState(spec.get('probe', 0) + 1)
        dofs = sorted({0, n - 1, *[int(x) for x in r.randint(0, n, spec.get('nprobe', 8))]})
        loc = {}
        for d in dofs[:2]:
            loc[d] = g.find_rank_locations_of_global_dofs(d)[d]
        loc2 = g.find_rank_locations_of_global_dofs(dofs)
        for d in dofs:
            loc.setdefault(d, loc2[d])
        O.info['neg' + nm] = [(str(e), int(k)) for e, k in g.find_rank_locations_of_global_dofs(-1)[n - 1]]
        O.info['loc' + nm] = {d: [(str(e), int(k)) for e, k in loc2[d]] for d in dofs}
        O.info['loc1' + nm] = {d: [(str(e), int(k)) for e, k in loc[d]] for d in dofs}
        rep = {}
        for d in dofs:
            rep[d] = g.find_representative_location(d)
        O.same['rep' + nm] = {d: (int(a), str(b)) for d, (a, b) in rep.items()}
        O.same['cnt' + nm] = {d: int(g.num_global_locations(d)) for d in dofs}
        pe = [order[int(x)] for x in r.randint(0, len(order), 6)]
        pl = [int(r.randint(0, mine[e][nm])) for e in pe]
        O.same['num' + nm] = {(str(e), int(l)): int(v) for (e, l), v in g.find_global_numbering_of_local_dofs(pe, pl).items()}
    for i, f in enumerate(j.forms):
        n = gms[i].num_global_dofs
        r = np.random.RandomState(spec.get('probe', 0) + 2)
        O.same[f'ofdof{i}'] = {int(d): float(f[0].cochain.of_dof(int(d))) for d in r.randint(0, n, 3)}
        pe = [order[int(x)] for x in r.randint(0, len(order), 3)]
        O.same[f'oflocal{i}'] = {(str(e), l): float(f[0].cochain.of_local_dof(e, l)) for e, l in
                                 [(e, int(r.randint(0, mine[e][str(i)]))) for e in pe]}
    if spec.get('bdofs', True) and j.B is not None:
        for i, f in enumerate(j.forms):
            try:
                loc = j.B.composition.find_dofs(f, local=True)
            except NotImplementedError:
                loc = None
            if any(COMM.allgather(loc is None)):
                continue
            g = j.B.composition.find_dofs(f, local=False)
            O.same[f'bd{i}'] = sorted(int(x) for x in g)
            O.elem[f'bl{i}'] = {e: sorted(int(x) for x in loc[e]) for e in loc}
    return O.d()


# ---- oracle, on the harness side --------------------------------------------------------------
def _union(results, name):
    out = {}
    for r in results:
        out.update(r['elem'][name])
    return out


def _rows(pts, scale):
    return [tuple(np.floor(np.asarray(p) / scale * 771234.567 + .3141).astype(np.int64).tolist()) for p in pts]


def entity_count(corners, n, k, p):
    """how many dofs a k-form of degree p has on a conforming mesh of quadrilaterals/hexahedra"""
    allp = np.array(list(corners.values())).reshape(-1, n)
    sc = max(1e-300, float(np.max(allp.max(0) - allp.min(0))))
    V, E, F, C = set(), set(), set(), set()
    for e, c in corners.items():
        r = _rows(c, sc)
        cr = CORNERS[n]
        V.update(r)
        for a in range(len(r)):
            for b in range(a):
                if sum(x != y for x, y in zip(cr[a], cr[b])) == 1:
                    E.add(frozenset((r[a], r[b])))
        if n == 2:
            F.add(frozenset(r))
        else:
            for ax in range(3):
                for s in (-1., 1.):
                    F.add(frozenset(r[i] for i in range(8) if cr[i][ax] == s))
            C.add(frozenset(r))
    q = p - 1
    if n == 2:
        return {0: len(V) + len(E) * q + len(F) * q * q, 1: len(E) * p + len(F) * 2 * p * q, 2: len(F) * p * p}[k]
    return {0: len(V) + len(E) * q + len(F) * q * q + len(C) * q ** 3,
            1: len(E) * p + len(F) * 2 * p * q + len(C) * 3 * p * q * q,
            2: len(F) * p * p + len(C) * 3 * p * p * q,
            3: len(C) * p ** 3}[k]


def judge(results, spec):
    """None, or (class, message)"""
    forms = spec['forms']
    own = _union(results, 'own')
    et = _union(results, 'etype')
    corners = _union(results, 'corners')
    periodic = spec['mesh'].get('periodic', False) or spec['mesh']['kind'] == 'slice'
    names = [str(i) for i in range(len(forms))] + ['+'.join(map(str, c)) for c in spec.get('chains', [])]
    n_el = sum(len(r['elem']['own']) for r in results)
    if n_el != len(own):
        return 'element-twice', f'{n_el} local elements in all, {len(own)} distinct'
    per = {}
    for nm in names:
        gm = per[nm] = _union(results, 'gm' + nm)
        if set(map(str, gm)) != set(map(str, own)):
            return 'numbering', f'gm{nm}: elements {len(gm)}, mesh {len(own)}'
        al = np.concatenate([gm[e] for e in gm]) if gm else np.zeros(0, int)
        n = results[0]['same']['ngd' + nm]
        if sorted(set(al.tolist())) != list(range(n)):
            return 'not-contiguous', f'gm{nm}: {len(set(al.tolist()))} numbers used, {n} global dofs claimed, max {al.max()}'
    for i, (k, o) in enumerate(forms):
        gm, c = per[str(i)], _union(results, f'c{i}')
        val = {}
        for e in gm:
            if len(c[e]) != len(gm[e]):
                return 'numbering', f'form {i} element {e}: {len(c[e])} values, {len(gm[e])} numbers'
            for g, v in zip(gm[e].tolist(), c[e].tolist()):
                if abs(val.setdefault(g, v) - v) > 1e-7 * (1 + abs(v)):
                    return 'shared-dof-value', f'form {i} {k, o}: global dof {g} stands for local dofs with values {val[g]} and {v} (element {e})'
        if all(t in QUADS for t in et.values()) and not periodic and not spec['mesh'].get('ts') and isinstance(spec['degree'], int):
            want = entity_count(corners, spec['n'], k, spec['degree'])
            if want != len(val):
                return 'dof-count', f'form {i} {k, o}: {len(val)} global dofs, the mesh has {want} geometric ones'
    for c in spec.get('chains', []):
        nm = '+'.join(map(str, c))
        gm = per[nm]
        f, g = {}, {}
        for e in gm:
            pos = 0
            for k, i in enumerate(c):
                part = per[str(i)][e].tolist()
                for d, x in zip(part, gm[e][pos:pos + len(part)].tolist()):
                    if f.setdefault((k, d), x) != x or g.setdefault(x, (k, d)) != (k, d):
                        return 'chain', f'chain {nm} element {e}: number {x} for {(k, d)} and for {g.get(x)}'
                pos += len(part)
            if pos != len(gm[e]):
                return 'chain', f'chain {nm} element {e}: {len(gm[e])} numbers for {pos} dofs'
        for (k, d), x in results[0]['same']['comp' + nm].items():
            if f[(k, d)] != x:
                return 'composition-dof', f'chain {nm}: dof {d} of composition {k} is {f[(k, d)]}, reported {x}'
        if not results[0]['same']['eq' + nm]:
            return 'chain', f'chain {nm}: two chains of the same matrices are not equal'
        g2 = _union(results, 'gm2' + nm)
        if any(not np.array_equal(g2[e], gm[e]) for e in gm):
            return 'chain', f'chain {nm}: chained twice, numbered differently'
        sp, da = _union(results, 'split' + nm), _union(results, 'data' + nm)
        for e in gm:
            lens = [len(per[str(i)][e]) for i in c]
            if [len(x) for x in sp[e]] != lens or not np.array_equal(np.concatenate(sp[e]), da[e]):
                return 'split', f'chain {nm} element {e}: split {sp[e]} of {da[e]}'
        if len(set(c)) == len(c):
            mg = _union(results, 'merge' + nm)
            cc = [_union(results, f'c{i}') for i in c]
            for e in gm:
                w = np.concatenate([x[e] for x in cc])
                if np.max(np.abs(mg[e] - w)) > 1e-7 * (1 + np.max(np.abs(w))):
                    return 'merge', f'chain {nm} element {e}: merged vector holds {mg[e]}, cochains {w}'
    for nm in names:
        gm = per[nm]
        where = {}
        for e in gm:
            for k, g in enumerate(gm[e].tolist()):
                where.setdefault(g, []).append((str(e), k))
        so = {str(e): r for e, r in own.items()}
        for r, res in enumerate(results):
            for part in ('loc', 'loc1'):
                for d, got in res['info'][part + nm].items():
                    want = sorted(x for x in where[d] if so[x[0]] == r)
                    if sorted(got) != want:
                        return 'locations', f'gm{nm} rank {r}: dof {d} is at {want}, reported {got}'
            n = res['same']['ngd' + nm]
            if sorted(res['info']['neg' + nm]) != sorted(x for x in where[n - 1] if so[x[0]] == r):
                return 'locations', f'gm{nm} rank {r}: dof -1'
            if nm.isdigit() and res['info']['nrd' + nm] != len({g for e in gm if own[e] == r for g in gm[e].tolist()}):
                return 'rank-dofs', f'gm{nm} rank {r}: num_rank_dofs {res["info"]["nrd" + nm]}'
        s = results[0]['same']
        for d, (rk, e) in s['rep' + nm].items():
            if not any(x[0] == e for x in where[d]) or so[e] != rk:
                return 'representative', f'gm{nm}: dof {d} at {where[d]}, representative rank {rk} element {e}'
        for d, c in s['cnt' + nm].items():
            if c != len(where[d]):
                return 'count', f'gm{nm}: dof {d} has {len(where[d])} places, reported {c}'
        se = {str(e): v for e, v in gm.items()}
        for (e, l), v in s['num' + nm].items():
            if se[e][l] != v:
                return 'local-to-global', f'gm{nm}: local dof {l} of element {e} is {se[e][l]}, reported {v}'
    for i in range(len(forms)):
        gm, c = per[str(i)], _union(results, f'c{i}')
        val = {g: v for e in gm for g, v in zip(gm[e].tolist(), c[e].tolist())}
        s = results[0]['same']
        for d, v in s[f'ofdof{i}'].items():
            if abs(val[d] - v) > 1e-7 * (1 + abs(v)):
                return 'of_dof', f'form {i}: of_dof({d}) = {v}, cochain holds {val[d]}'
        sc = {str(e): v for e, v in c.items()}
        for (e, l), v in s[f'oflocal{i}'].items():
            if abs(sc[e][l] - v) > 1e-12 * (1 + abs(v)):
                return 'of_local_dof', f'form {i}: of_local_dof({e},{l}) = {v}, cochain holds {sc[e][l]}'
        if f'bd{i}' in s:
            bl = _union(results, f'bl{i}')
            want = sorted({int(gm[e][k]) for e in bl for k in bl[e]})
            if s[f'bd{i}'] != want:
                return 'boundary-dofs', f'form {i}: boundary dofs {s[f"bd{i}"]} but local ones are {want}'
    return None

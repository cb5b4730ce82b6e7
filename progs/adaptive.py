"""Adaptive meshes: histories of renewals, with the forms carried over from mesh to mesh."""
import re

import numpy as np

from progs.lib import Obs, mesh_args, field, trf_of

KINDS = [[0, 'outer'], [1, 'outer'], [1, 'inner'], [2, 'outer']]


def basis(e):
    """the element of the base mesh that this one is a part of"""
    return re.match(r'\D*(\d+)', str(e)).group(1)


def flat(v):
    """reconstructed components as one list of dicts per element"""
    return [c for c in v]


class Adaptive:
    def __init__(self, ph, spec):
        ph.config.set_embedding_space_dim(2)
        manifold = ph.manifold(2, periodic=spec['mesh'].get('periodic', False))
        mesh = ph.mesh(manifold)
        sp = {}
        L = {}
        self.kinds = [tuple(x) for x in spec['forms']]
        for i, (k, o) in enumerate(self.kinds):
            if (k, o) not in sp:
                sp[k, o] = ph.space.new('Lambda', k, orientation=o)
            L['f%d' % i] = sp[k, o].make_form(r'\mathsf{w}_{%d}' % i, 'form-%d' % i)
        ph.space.finite(spec['degree'])
        self.msehtt, self.obj = ph.fem.apply('msehtt-a', L)
        a, kw = mesh_args(spec['mesh'])
        self.msehtt.config('tgm')(*a, **kw)
        self.base = self.msehtt.base
        M = self.base['meshes'][mesh._sym_repr]
        self.msehtt.config(M)(self.base['the_great_mesh'], 'all')
        self.msehtt.initialize(ts=spec.get('ts', 1))
        self.forms = [self.base['forms']['form-%d' % i] for i in range(len(self.kinds))]
        const = spec.get('const')
        for i, f in enumerate(self.forms):
            k = self.kinds[i][0]
            if const:
                one = (lambda c: (lambda t, x, y: c + 0 * x))
                f.cf = ph.vc.scalar(one(1.5 - i)) if k in (0, 2) else ph.vc.vector(one(.7 + i), one(-1.1))
            else:
                f.cf = field(ph, 2, k, .4 * i, spec['mesh'].get('periodic', False), spec['mesh'])


def samples(f, t, nodes):
    """what the form is at some points of every element of this rank"""
    X, V = f[t].reconstruct(nodes, nodes, ravel=True)
    out = {}
    for e in X[0]:
        out[e] = np.array([np.asarray(c[e]).ravel() for c in flat(V)])
    return out


def main(ph, ctx, spec):
    O = Obs()
    COMM = ctx.modules['src.config'].COMM if hasattr(ctx, 'modules') else None
    from phyem.src.config import COMM
    J = Adaptive(ph, spec)
    nodes = np.array([-.83, -.21, .4, .77])
    names = lambda: sorted({str(e) for r in COMM.allgather([str(e) for e in J.forms[0].current.tpm.composition]) for e in r})
    loose = set()                           # cochains that method 1 made: not single-valued
    for q, step in enumerate(spec['steps']):
        if step[0] == 'reduce':
            _, which, t = step
            for i in which:
                J.forms[i][t].reduce()
                loose.discard((i, t))
            continue
        _, trf, ts, method, clean, which = step
        before = names()
        old = []
        for i, f in enumerate(J.forms):
            old.append({t: samples(f.current, t, nodes) for t in f.current.cochain.times})
        oldf = [f.current for f in J.forms]
        kw = {}
        if which is not None:
            kw['forms'] = [J.forms[i] for i in which] if len(which) > 1 else J.forms[which[0]]
        info = J.msehtt.renew(trf_of(trf), ts=ts, use_method=method, clean=clean, **kw)
        after = names()
        key = 's%d' % q
        O.same[key + '.names'] = after
        sel = [i for i in range(len(J.forms)) if (which is None or i in which) and old[i]]
        if sel and method == 3:
            O.check(key + '.all same', bool(info['all same']), before == after)
        O.same[key + '.info'] = bool(info['all same'])
        for i, f in enumerate(J.forms):
            if i not in sel:
                O.check(key + '.%d.times' % i, list(f.current.cochain.times), [])
                continue
            O.check(key + '.%d.times' % i, list(f.current.cochain.times), sorted(old[i]))
            O.check(key + '.%d.cleaned' % i, list(oldf[i].cochain.times), [] if clean else sorted(old[i]))
            for t in f.current.cochain.times:
                new = samples(f.current, t, nodes)
                # what did not change keeps its values, wherever it lives now
                was = {str(e): v for r in COMM.allgather(old[i][t]) for e, v in r.items()}
                gm = f.current.cochain.gathering_matrix
                # (base elements are renewed as a whole; dofs on their border become what one of the neighbours says)
                dirty = {b for r in COMM.allgather([basis(e) for e in gm if str(e) not in was]) for b in r}
                moved = {int(g) for r in COMM.allgather([int(g) for e in gm if basis(e) in dirty for g in gm[e]]) for g in r}
                if method != 1 and (i, t) not in loose:
                    for e in new:
                        if basis(e) not in dirty and not moved.intersection(gm[e].tolist()):
                            O.info['kept'] = O.info.get('kept', 0) + 1
                            O.check(key + '.%d.%s.kept' % (i, t), new[e], was[str(e)], 1e-7, 1e-8)
                if spec.get('const') and not (J.kinds[i][0] == 2 and spec['degree'] == 1):    # (not in the space)
                    for e in new:
                        c = [1.5 - i] if J.kinds[i][0] in (0, 2) else [.7 + i, -1.1]
                        O.check(key + '.%d.%s.constant' % (i, t), new[e], np.array([[x] * new[e].shape[1] for x in c]), 1e-5, 1e-6)
                else:
                    O.same[key + '.%d.%s.error' % (i, t)] = float(f[t].error())
                if method == 1:      # (nearest samples: neighbours may differ a little)
                    loose.add((i, t))
                    continue
                if (i, t) in loose:
                    continue
                # one value for every shared dof
                gm, c = f.current.cochain.gathering_matrix, f.current.cochain[t]
                seen = {}
                for r in COMM.allgather([(int(g), float(v)) for e in gm for g, v in zip(gm[e], c[e])]):
                    for g, v in r:
                        seen.setdefault(g, []).append(v)
                lo = np.array([min(seen[g]) for g in sorted(seen)])
                hi = np.array([max(seen[g]) for g in sorted(seen)])
                O.check(key + '.%d.%s.single valued' % (i, t), hi, lo, 1e-6, 1e-7)
    # the last mesh itself: everything as if nothing had been before it
    for i, f in enumerate(J.forms):
        f[9.].reduce()
        gm = f.current.cochain.gathering_matrix
        for e in f.current.tpm.composition:
            O.elem.setdefault('final.c%d' % i, {})[e] = np.array(f.current.cochain[9.][e])
            O.elem.setdefault('final.g%d' % i, {})[e] = np.array(gm[e])
        O.same['final.e%d' % i] = float(f[9.].error())
    return O.d()

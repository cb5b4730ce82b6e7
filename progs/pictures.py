"""Pictures of meshes, boundary sections, fields, degrees of freedom and data sets. The drawing library runs up to the rendering; what is rendered is recorded instead."""
import os
import numpy as np

from progs.lib import Obs, setup, field, place


def artists(fig):
    """what a figure shows: [(kind, numbers, label)], in no particular order"""
    from matplotlib.quiver import Quiver
    out = []
    for k, ax in enumerate(fig.axes):
        for ln in ax.lines:
            d = np.array(ln.get_data_3d() if hasattr(ln, 'get_data_3d') else ln.get_data(), float)
            out.append(('line', d.ravel(), f'{k}/{len(d)}'))
        for c in ax.collections:
            if isinstance(c, Quiver):
                out.append(('quiver', np.concatenate([np.ravel(c.X), np.ravel(c.Y), np.ravel(c.U), np.ravel(c.V)]), f'{k}'))
            else:
                a, o = c.get_array(), np.ma.filled(c.get_offsets(), np.nan)
                if a is not None and len(o) > 1:
                    for (x, y), z in zip(o, np.ravel(a)):
                        out.append(('point', np.array([x, y, z], float), f'{k}'))
                elif len(o) > 1:
                    for x in o:
                        out.append(('point', np.array(x, float), f'{k}'))
        for p in ax.patches:
            out.append(('patch', np.concatenate([np.ravel(p.get_path().vertices), np.array(p.get_facecolor(), float)]), f'{k}'))
        for t in ax.texts:
            out.append(('text', np.array(t.get_position(), float), f'{k}/{t.get_text()}'))
        out.append(('title', np.zeros(0), f'{k}/{ax.get_title()}'))
    return out


class Studio:
    """stands in for the renderer"""
    def __init__(self, note):
        import matplotlib.pyplot as plt
        self.shots, self.plt, self.note = [], plt, note
        plt.savefig = self.savefig
        plt.show = self.show
        plt.tight_layout = lambda *a, **k: None
        self.patches = []
        plt.contour, plt.contourf = self.contour('contour'), self.contour('contourf')

    def contour(self, kind):
        def draw(x, y, v, levels=None, **kw):
            self.patches.append((kind, np.concatenate([np.ravel(np.array(q, float)) for q in (x, y, v, levels)]), f'{np.shape(v)}/{len(levels)}'))
        return draw

    def savefig(self, name, *a, **k):
        self.shots.append((str(name), artists(self.plt.gcf()) + self.patches))
        self.patches = []
        with open(name, 'wb') as f:
            f.write(self.note)

    def show(self, *a, **k):
        self.shots.append((None, artists(self.plt.gcf()) + self.patches))
        self.patches = []


def main(ph, ctx, spec):
    O = Obs()
    import matplotlib.pyplot as plt
    if ctx.rank == 0:  # the simulated ranks share one drawing library; only the root rank draws
        plt.close('all')
        studio = Studio(b'picture')
    else:
        studio = None
    COMM = ctx.mod('phyem.src.config').COMM
    COMM.barrier()
    j = setup(ph, dict(spec, sections=[1] if spec.get('sides') else []))
    O.info['nbase'] = j.nbase
    secs = [j.B] if j.B is not None else []
    if spec.get('sides') and j.secnames:
        a, b = [[j.meshes[k] for k in j.meshes if s in k][0] for s in j.secnames[0]]
        kind, where = place(spec)
        j.msehtt.config(a)(j.tgm, {'type': 'boundary_section', 'partial elements': j.M, kind: where})
        j.msehtt.config(b)(j.tgm, {'type': 'boundary_section', 'partial elements': j.M, 'except ' + kind: where})
        secs += [a, b]
    for f in j.forms:
        f[0].reduce()
        f[.5].reduce()
    for op in spec['ops']:
        key, kw = str(op[1]['label']), dict(op[1].get('kw', {}))
        if studio:
            studio.shots.clear()
        if op[1].get('save', True):
            kw['saveto'] = [f'picture {key} {i}.png' for i in (0, 1)] if op[1].get('two') else f'picture {key}.png'
        before = [{t: {e: np.array(f.cochain[t][e]) for e in f.cochain.gathering_matrix} for t in (0, .5)} for f in j.forms]
        globals()['op_' + op[0]](ph, ctx, j, secs, O, key, op[1], kw, studio)
        empty = op[0] == 'boundary' and COMM.allreduce(len([1 for _ in secs[op[1]['which'] % len(secs)].composition])) == 0
        COMM.barrier()
        if studio:
            many = 0 if empty else 2 if op[1].get('two') else 1
            O.check(key + '.drawn', len(studio.shots), many)
            O.check(key + '.saved', [a for a, _ in studio.shots], [None] * many if 'saveto' not in kw or empty else kw['saveto'] if op[1].get('two') else [kw['saveto']])
            O.root[key + '.pictures'] = list(studio.shots)
        for f, B in zip(j.forms, before):
            O.check(key + '.unchanged', all(np.array_equal(f.cochain[t][e], B[t][e]) for t in B for e in B[t]), True)
        COMM.barrier()
        if studio:
            plt.close('all')
        COMM.barrier()
    return O.d()


def op_mesh(ph, ctx, j, secs, O, key, a, kw, studio):
    j.tgm.visualize(**kw)
    outlines(ctx, O, key, studio, j.tgm.elements, j.n, a)


def op_elements(ph, ctx, j, secs, O, key, a, kw, studio):
    j.M.visualize.matplot(**kw)
    outlines(ctx, O, key, studio, j.tgm.elements, j.n, a)


def op_ts(ph, ctx, j, secs, O, key, a, kw, studio):
    j.tgm.visualize.ts(**kw)


def corners(x):
    return tuple(np.round(np.ravel(x), 7) + 0.)


def outlines(ctx, O, key, studio, elements, n, a):
    """every side of every element is drawn, once for each element"""
    if n != 2 or a.get('kw', {}).get('quality') or a.get('kw', {}).get('internal_grid'):
        return
    COMM = ctx.mod('phyem.src.config').COMM
    mine = []
    for e in elements:
        el = elements[e]
        d = el._generate_outline_data(ddf=1)
        faces = [k for k in d if isinstance(k, (int, np.integer))]
        x = np.array([-1., 1.])
        for f in faces:
            X = el.faces[f].ct.mapping(x)
            P = sorted([corners([X[0][i], X[1][i]]) for i in (0, 1)])
            mine.append(P)
    want = [p for r in COMM.allgather(mine) for p in r]
    if ctx.rank == 0 and studio.shots:
        got = []
        for k, v, lab in studio.shots[0][1]:
            if k == 'line':
                x, y = v.reshape(2, -1)
                got.append(sorted([corners([x[0], y[0]]), corners([x[-1], y[-1]])]))
        g, w = sorted(got), sorted(want)
        O.check(key + '.sides', len(g), len(w))
        if len(g) == len(w):
            O.check(key + '.sides', np.array(g), np.array(w), 1e-5, 1e-6)


def op_boundary(ph, ctx, j, secs, O, key, a, kw, studio):
    B = secs[a['which'] % len(secs)]
    B.visualize(**kw)
    sides(ctx, O, key, studio, j, B, j.n == 2)


def sides(ctx, O, key, studio, j, B, twice):
    """every side of the section is drawn (besides the mesh)"""
    COMM = ctx.mod('phyem.src.config').COMM
    mine = []
    for e, f in B.composition:
        q = j.tgm.elements[e]._generate_outline_data(ddf=1)[f]
        mine.append(corners([[min(c), max(c)] for c in q]))
    want = sorted(p for r in COMM.allgather(mine) for p in r)
    if ctx.rank == 0 and studio.shots:
        got = {}
        for k, v, lab in studio.shots[0][1]:
            if k == 'line' and lab[0] == '0':
                p = corners([[min(c), max(c)] for c in v.reshape(j.n, -1)])
                got[p] = got.get(p, 0) + 1
        O.check(key + '.section', sum(got.values()) if not twice else None, len(want) if not twice else None)
        near = lambda p: sum(c for q, c in got.items() if np.allclose(p, q, atol=1e-2))
        O.check(key + '.section.sides', sum(near(p) < (2 if twice else 1) for p in want), 0)


def op_field(ph, ctx, j, secs, O, key, a, kw, studio):
    f = j.forms[a['which'] % len(j.forms)]
    if a.get('outline'):
        kw['outline'] = j.M
    f[a['t']].visualize(ddf=a['ddf'], usetex=False, **kw)
    if a.get('outline') and j.B is not None and j.M is not None:
        B, COMM, mine = j.B, ctx.mod('phyem.src.config').COMM, []
        for e, f in B.composition:
            X = j.tgm.elements[e].faces[f].ct.mapping(np.array([-1., 1.]))
            mine.append(sorted([corners([X[0][i], X[1][i]]) for i in (0, 1)]))
        want = sorted(p for r in COMM.allgather(mine) for p in r)
        if ctx.rank == 0 and studio.shots:
            for _, pic in studio.shots:
                got = sorted(sorted([corners(v.reshape(2, -1)[:, 0]), corners(v.reshape(2, -1)[:, -1])]) for k, v, lab in pic if k == 'line' and lab[0] == '0')
                O.check(key + '.outline', got, want, 1e-5, 1e-6)


def op_quick(ph, ctx, j, secs, O, key, a, kw, studio):
    f = j.forms[a['which'] % len(j.forms)]
    f[a['t']].visualize.quick(ddf=a['ddf'], usetex=False, **kw)


def op_dofs(ph, ctx, j, secs, O, key, a, kw, studio):
    f = [f for f, k in zip(j.forms, j.kinds) if k[0] == 0][0]
    f.dofs.visualize(**kw)
    n = int(f.cochain.gathering_matrix.num_global_dofs)
    if ctx.rank == 0 and studio.shots:
        pts = {corners(v) for k, v, _ in studio.shots[0][1] if k == 'point'}
        O.check(key + '.points', sum(k == 'point' for k, _, _ in studio.shots[0][1]), n)
        if not a.get('periodic'):
            O.check(key + '.distinct', len(pts), n)


def op_function(ph, ctx, j, secs, O, key, a, kw, studio):
    field(ph, 2, a['k'], a['shift']).visualize(j.M, a['t'], sampling_factor=a['factor'], usetex=False, **kw)


def op_data(ph, ctx, j, secs, O, key, a, kw, studio):
    """a data set in the user's hands: drawing changes nothing in it"""
    f = j.forms[a['which'] % len(j.forms)]
    r = f.numeric.rws(a['t'], ddf=a['ddf'])
    O.check(key + '.master', r is not None, ctx.rank == 0)
    if r is None:
        return
    data = lambda: [{e: np.array(d[e]) for e in d} for d in list(r._coo_dict_list) + list(r._val_dict_list)]
    before = data()
    r.visualize(usetex=False, **kw)
    O.check(key + '.data', all(np.array_equal(p[e], q[e], equal_nan=True) for p, q in zip(before, data()) for e in p), True)


def album(ph, ctx, spec, life, ops):
    """a session that draws into the picture cache"""
    import matplotlib.pyplot as plt
    if ctx.rank == 0:
        plt.close('all')
        studio = Studio(b'')
    ph.config.set_pr_cache(True)
    j, sess, n = setup(ph, spec), 0, 0
    ctx.observe('new', life, sess)
    for op in ops:
        if op == 'new':
            j, sess, n = setup(ph, spec), sess + 1, 0
            ctx.observe('new', life, sess)
        else:
            if ctx.rank == 0:
                studio.note = f'{life}.{sess}.{n}'.encode()
            j.tgm.visualize(usetex=False)
            n += 1
            if ctx.rank == 0:
                ctx.observe('drawn', life, sess, n)
    ph.config.set_pr_cache(False)
    return Obs().d()

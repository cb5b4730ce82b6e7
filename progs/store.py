"""Histories of operations on the cochains of forms (stored by time; files; caches), next to a plain model of them."""
import itertools

import numpy as np

from progs.lib import Obs, setup, field


class Model:
    """what the forms should hold: per form {time: {element: array}}; what the files should hold: {name: [possible contents]}"""
    def __init__(self, n):
        self.forms = [dict() for _ in range(n)]
        self.files = {}
        self.auto = True

    def key(self, t):
        return round(t, 8)

    def put(self, i, t, c):
        """-> the sets of times that may be left"""
        t = self.key(t)
        have = set(self.forms[i])
        self.forms[i][t] = {e: np.array(v) for e, v in c.items()}
        if self.auto is False:
            return [have | {t}]
        n = 3 if self.auto is True else int(self.auto)
        if len(have) < n:
            return [have | {t}]
        keep = set(sorted(have)[-(n - 1):]) | {t}
        # overwriting needs no room: the others may stay
        return [keep, have | {t}] if t in have else [keep]

    def sync(self, i, times):
        self.forms[i] = {t: c for t, c in self.forms[i].items() if t in times}


def newest(d):
    return max(d) if d else None


class Run:
    def __init__(self, ph, ctx, spec):
        self.ph, self.ctx, self.spec = ph, ctx, spec
        self.COMM = ctx.mod('phyem.src.config').COMM
        self.j = setup(ph, dict(spec, boundary=False))
        self.F = self.j.forms
        self.O = Obs()
        self.O.info['nbase'] = self.j.nbase
        self.M = Model(len(self.F))
        self.memo = {}

    def red(self, i, t, variant):
        """the reduction of a field of the family"""
        kind = self.j.kinds[i]
        key = (kind, round(t, 8), variant)
        if key not in self.memo:
            cf = field(self.ph, self.j.n, kind[0], variant, self.spec['mesh'].get('periodic', False), self.spec['mesh'])
            c = self.F[i].reduce(cf @ round(t, 8) if hasattr(cf, '__matmul__') else cf[t])
            gm = self.F[i].cochain.gathering_matrix
            self.memo[key] = {e: np.array(c[e]) for e in gm}
        return self.memo[key]

    # -- one operation on the model (and the sets of times that may remain); None: it is to be refused --------
    def model(self, op):
        M, o, a = self.M, op[0], op[1:]
        if o == 'auto':
            M.auto = a[0]
            return []
        if o in ('save', 'read', 'readx'):
            return self.files(op)
        i = a[0]
        d = M.forms[i]
        if o == 'set':
            return [(i, M.put(i, a[1], self.red(i, a[1], a[2])))]
        if o == 'over':
            return [(i, M.put(i, a[1], self.red(i, a[1], a[2])))]
        if o in ('diff', 'sum', 'scale', 'gather', 'share', 'iadd', 'iaddg'):
            src = [M.key(t) for t in a[2:] if not isinstance(t, list)]
            if any(t not in d for t in src) or (o in ('iadd', 'iaddg') and M.key(a[1]) not in d):
                return 'absent'
            if o == 'diff':
                c = {e: d[src[0]][e] - d[src[1]][e] for e in d[src[0]]}
            elif o == 'sum':
                c = {e: d[src[0]][e] + d[src[1]][e] for e in d[src[0]]}
            elif o == 'scale':
                c = {e: a[3][0] * d[src[0]][e] for e in d[src[0]]}
            elif o in ('gather', 'share'):
                c = d[src[0]]
            else:
                t = M.key(a[1])
                d[t] = {e: d[t][e] + d[src[0]][e] for e in d[t]}
                return []
            return [(i, M.put(i, a[1], c))]
        if o == 'interp':
            ts = sorted(d)
            t = M.key(a[2])
            if len(ts) < 2 or t < ts[0] or t > ts[-1]:
                return 'absent'
            for lo, up in zip(ts, ts[1:]):
                if lo <= t <= up:
                    break
            w = (t - lo) / (up - lo)
            return [(i, M.put(i, a[1], {e: (1 - w) * d[lo][e] + w * d[up][e] for e in d[lo]}))]
        if o == 'clean':
            what = a[1]
            if what == 'all':
                M.forms[i] = {}
            elif what is None:
                M.forms[i] = {t: d[t] for t in sorted(d)[-1:]}
            else:
                M.forms[i] = {t: d[t] for t in sorted(d)[what:]}
            return []
        if o == 'look':
            return [] if (a[1] is None and d) or (a[1] is not None and M.key(a[1]) in d) else 'absent'
        if o == 'cleant':
            d.pop(M.key(a[1]), None)
            return []
        if o == 'cache':
            k = a[1]
            t = newest(d)
            if t is None:
                return 'absent'
            return [(k, M.put(k, t, d[t]))]
        return []

    def files(self, op):
        M, o, a = self.M, op[0], op[1:]
        i = a[0]
        if o == 'save':
            d = M.forms[i]
            ts = sorted(d)
            if a[2] is not None:
                ts = ts[-a[2]:]
            M.files[a[1]] = [('form', self.j.kinds[i], {t: d[t] for t in ts})]
            return []
        return []

    def real(self, op):
        o, a = op[0], op[1:]
        ph, F = self.ph, self.F
        if o == 'auto':
            ph.config.set_auto_cleaning(a[0])
            return
        f = F[a[0]]
        if o == 'set':
            f.cf = field(ph, self.j.n, self.j.kinds[a[0]][0], a[2], self.spec['mesh'].get('periodic', False), self.spec['mesh'])
            f[a[1]].reduce()
        elif o == 'over':
            f[a[1]].cochain = {e: np.array(v) for e, v in self.red(a[0], a[1], a[2]).items()}
        elif o == 'diff':
            f[a[1]].cochain = f[a[2]].cochain - f[a[3]].cochain
        elif o == 'sum':
            f[a[1]].cochain = f[a[2]].cochain + f[a[3]].cochain
        elif o == 'scale':
            f[a[1]].cochain = a[3][0] * f[a[2]].cochain
        elif o == 'gather':
            f[a[1]].cochain = f[a[2]].cochain.gathered_global_vector
        elif o == 'share':                      # the arrays of one time given to another: what is done to one later is not done to the other
            x = f[a[2]].cochain
            f[a[1]].cochain = {e: x[e] for e in x}
        elif o == 'iadd':
            c = f[a[1]].cochain
            c += f.cochain.static_vec(round(a[2], 8))
        elif o == 'iaddg':
            v = f[a[2]].cochain.gathered_global_vector
            c = f[a[1]].cochain
            c += v
        elif o == 'interp':
            f[a[1]].cochain = f(a[2])
        elif o == 'clean':
            f.cochain.clean(a[1])
        elif o == 'cleant':
            f.cochain.clean(t=a[1])
        elif o == 'cache':
            F[a[1]]._read_cache_data(f._make_cache_data())
        elif o == 'look':
            self.look(f, a[1], a[2])
        elif o == 'save':
            f.saveto(a[1], what=a[2]) if a[2] is not None else f.saveto(a[1])

    def look(self, f, t, how):
        """interpolations and time-space properties are those of what is stored now"""
        O, num = self.O, f.numeric
        try:
            dtype, X, V = num._interpolate_(t, ddf=.2, data_only=True)
        except NotImplementedError:
            X = None
        if any(self.COMM.allgather(X is None)):
            return
        ix = np.linspace(0, len(X[0]) - 1, 7).astype(int)
        at, want = [x[ix] for x in X], np.array([v[ix] for v in V])
        if how == 'tsp':
            if 'vector' in dtype:
                parts = [np.ravel(c(t or 0, *at)) for c in num.tsp.components(t=None if t is None else float(t))]
                O.check('look.components', np.array(parts), np.array(self.nearest(f, t, at, V)), 1e-12, 1e-13)
            elif t is not None:
                O.check('look.tsp', np.array([np.ravel(num.tsp(t=float(t))(0, *at))]), np.array(self.nearest(f, t, at, V)), 1e-12, 1e-13)
        elif how == 'energy':
            if t is None or self.M.key(t) == f.cochain.newest:
                e = np.ravel(num.tsp.L2_energy()(0, *at))
                O.check('look.energy', e, .5 * sum(v ** 2 for v in self.nearest(f, None, at, V)), 1e-12, 1e-13)
        elif how == 'global':
            if dtype == '2d-vector':
                return
            allp = self.COMM.gather((np.array(X).T, np.array(V)), root=0)
            got = num._interpolate_global_(t, ddf=.2)[1]
            if self.ctx.rank == 0:
                got = np.array([got(*x[:: max(1, len(x) // 9)].T) for x, _ in allp], dtype=object)
                for r, (x, v) in enumerate(allp):
                    O.check('look.global', np.array(got[r], float), v.T[:: max(1, len(x) // 9)].reshape(np.shape(got[r])).astype(float), 1e-12, 1e-13)
        else:
            got = num._interpolate_(t, ddf=.2, component_wise=how == 'parts')[1]
            got = [g(*at) for g in got] if how == 'parts' else np.atleast_2d(got(*at).T)
            O.check('look.' + how, np.array(got), want, 1e-12, 1e-13)

    @staticmethod
    def nearest(f, t, at, V):
        from scipy.interpolate import NearestNDInterpolator
        _, X, V = f.numeric._interpolate_(t, data_only=True)
        return [NearestNDInterpolator(np.array(X).T, v)(*at) for v in V]

    def read(self, k, op):
        """read a file and compare with what it may hold"""
        M, O = self.M, self.O
        i, name = op[1], op[2]
        f = self.F[i]
        before = {t: dict(c) for t, c in M.forms[i].items()}
        f.read(name)
        got = {t: {e: np.array(f.cochain[t][e]) for e in f.cochain.gathering_matrix} for t in f.cochain}
        outs = []
        for kind, what, content in M.files[name]:
            ends = []
            for order in itertools.islice(itertools.permutations(content), 720):       # the times of a file are taken in no particular order
                some = [{t: dict(c) for t, c in before.items()}]
                for t in order:
                    more = []
                    for m in some:
                        M.forms[i] = dict(m)
                        oks = M.put(i, t, content[t])
                        m = M.forms[i]
                        for ok in oks:
                            more.append({x: m[x] for x in m if x in ok})
                    some = [m for q, m in enumerate(more) if set(m) not in [set(x) for x in more[:q]]]
                ends += [m for m in some if set(m) not in [set(x) for x in ends]]
                if M.auto is False:
                    break
            outs.append([m for m in ends if set(m) == set(got)] or ends)
        outs = [m[0] for m in outs]
        fit = [m for m in outs if set(m) == set(got) and all(same(m[t], got[t]) for t in m)]
        fit = self.COMM.allgather([any(x is y for y in fit) for x in outs])
        hits = [q for q in range(len(outs)) if all(x[q] for x in fit)]
        if not hits:
            m = outs[0]
            off = max([float(np.max(np.abs(m[t][e] - got[t][e]))) for t in m if t in got for e in m[t]] or [0.])
            O.check(f'{k}.read', f'{sorted(got)}, off by {off}', f'{sorted(m)}')
        if hits:
            M.forms[i] = outs[hits[0]]
            M.files[name] = [M.files[name][hits[0]]]
        else:
            M.forms[i] = {t: got[t] for t in got}
        return hits[0] if hits else 0

    def state(self, k):
        """what the forms say about themselves"""
        O, M = self.O, self.M
        for i, f in enumerate(self.F):
            d = M.forms[i]
            c = f.cochain
            name = f'{k}.{i}'
            O.check(name + '.times', [float(t) for t in c.times], [float(t) for t in sorted(d)], 0, 0)
            O.check(name + '.len', (len(c), len(list(c))), (len(d), len(d)), 0, 0)
            O.check(name + '.newest', None if c.newest is None else float(c.newest), None if not d else float(newest(d)), 0, 0)
            for t in d:
                O.check(name + '.in', t in c and t + 1e-10 in c, True)
                co = f[t].cochain
                gm = c.gathering_matrix
                O.check(name + '.elements', sorted(map(str, co)), sorted(map(str, gm)))
                for e in gm:
                    if not same({e: co[e]}, {e: d[t][e]}):
                        O.check(name + '.values', np.array(co[e]), d[t][e], 1e-11, 1e-12)
            for t in self.spec.get('probe', []):
                if M.key(t) not in d:
                    O.check(name + '.absent', t in c, False)
            if d:
                e, co = None, f[None].cochain
                for e in c.gathering_matrix:
                    O.check(name + '.default', np.array(co[e]), d[newest(d)][e], 1e-11, 1e-12)
                    break

    def sums(self, k):
        """global values of what is stored; the same with a serial run"""
        O = self.O
        for i, f in enumerate(self.F):
            d = self.M.forms[i]
            for t in sorted(d):
                if self.spec['norms']:
                    O.same[f'{k}.{i}.{t}.norm'] = float(f[t].norm())
            r = f.norm_residual() if self.spec['norms'] or len(d) < 2 else None
            if r is None:
                pass
            elif len(d) < 2:
                O.check(f'{k}.{i}.res', bool(np.isnan(r)), True)
            else:
                O.same[f'{k}.{i}.res'] = float(r)
            if d:
                t = newest(d)
                gm = f.cochain.gathering_matrix
                els = sorted({str(e): e for x in self.COMM.allgather(list(gm)) for e in x}.values(), key=str)
                for q in (0, len(els) // 2):
                    e = els[q]
                    n = max(self.COMM.allgather(gm.num_local_dofs(e) if e in gm else 0))
                    m = (7 * q + 3) % n
                    v = f[t].cochain.of_local_dof(e, m)
                    O.same[f'{k}.{i}.dof{q}'] = float(v)
                    g = max(self.COMM.allgather(int(gm[e][m]) if e in gm else -1))
                    O.check(f'{k}.{i}.ofdof', float(f[t].cochain.of_dof(g)), float(v), 1e-6, 1e-7)


def same(a, b):
    return all(a[e].shape == b[e].shape and np.all(np.abs(a[e] - b[e]) <= 1e-12 + 1e-11 * np.abs(b[e])) for e in b)


def left_as_observed(M, life, k):
    for i, ts in enumerate(life['left'].get(str(k), [])):
        M.sync(i, ts)


def replay(R, life):
    """what the files hold after a life that ended after these operations"""
    M = R.M
    M.forms = [dict() for _ in R.F]
    M.auto = True
    for k, op in enumerate(life['ops']):
        old = dict(M.files)
        if op[0] == 'read':
            q = (life.get('reads') or {}).get(str(k), 0)
            kind, what, content = M.files[op[2]][q]
            for t in content:
                M.put(op[1], t, content[t])
            M.files[op[2]] = [M.files[op[2]][q]]
            left_as_observed(M, life, k)
            continue
        left = R.model(op)
        if left == 'absent':
            continue
        left_as_observed(M, life, k)
        if op[0] == 'save' and k == len(life['ops']) - 1 and life.get('cut'):
            M.files[op[2]] = M.files[op[2]] + old.get(op[2], [])


def main(ph, ctx, spec):
    R = Run(ph, ctx, spec)
    O, M = R.O, R.M

    def observe(*what):
        if ctx.rank == 0:
            ctx.observe(*what)
    for life in spec.get('past', []):           # earlier lives: only the files remain
        replay(R, life)
    M.forms = [dict() for _ in R.F]
    M.auto = True
    for k, op in enumerate(spec['ops']):
        observe('begin', k)
        if op[0] == 'read':
            observe('read', k, R.read(k, op))
        elif op[0] == 'foreign':
            # a form of another mesh or degree must not take the file
            R.F[op[1]].read(op[2])
            O.check(f'{k}.foreign', 'read', 'refused')
        else:
            left = R.model(op)
            if left == 'absent':
                observe('end', k)
                continue
            R.real(op)
            for i, ok in left:
                now = set(R.F[i].cochain)
                hit = [s for s in ok if s == now]
                O.check(f'{k}.kept', sorted(now), sorted(hit[0] if hit else ok[0]), 0, 0)
                M.sync(i, hit[0] if hit else ok[0])
        observe('end', k, [sorted(float(t) for t in m) for m in M.forms])
        R.state(k)
        if k % 4 == 3 or k == len(spec['ops']) - 1:
            R.sums(k)
    return O.d()


def count(ph, ctx, spec):
    """how many elements there are to distribute"""
    return dict(same={}, elem={}, root={}, checks=[], info=dict(nbase=setup(ph, dict(spec, boundary=False, forms=spec['forms'][:1])).nbase))

"""Workload programs: ordinary phyem scripts, parametrised, that report what they observed.

Everything here runs inside a simulated rank; ``ph`` is that rank's own copy of the package.
An observation dictionary has the parts
    same : name -> value   one value per rank; all ranks must agree, and agree with a serial run
    elem : name -> {element: array}   the rank's own share; union must equal the serial run
    root : name -> value   reported by the master rank only (None elsewhere)
"""
import numpy as np


class Obs:
    def __init__(self):
        self.same, self.elem, self.root, self.info = {}, {}, {}, {}
        self.checks = []

    def check(self, name, got, want, rtol=1e-7, atol=1e-9):
        """an oracle evaluated inside the rank"""
        self.checks.append((name, got, want, rtol, atol))

    def d(self):
        return dict(same=self.same, elem=self.elem, root=self.root, info=self.info, checks=self.checks)


def place(spec):
    """part of the boundary: (key of a boundary section, its argument)"""
    if spec['mesh']['kind'] == 'quad':
        lines = [((0, 0), (1, .1)), ((1, .1), (1.1, 1)), ((1.1, 1), (-.1, .9)), ((-.1, .9), (0, 0))]
        return 'on straight lines', tuple(lines[i] for i in ([0] if len(spec['sides']) == 1 else [1, 3]))
    return 'ounv', tuple(tuple(x) for x in spec['sides'])


def trf_of(t):
    """renewal spec -> trf argument: an integer, or [x0, y0, thresholds] = refine around a point"""
    if not isinstance(t, list):
        return t
    x0, y0, th = t
    return {'rff': lambda x, y: 1 / (.1 + np.sqrt((x - x0) ** 2 + (y - y0) ** 2)), 'rft': th}


# ---- meshes -------------------------------------------------------------------------------
def mesh_args(spec):
    """mesh spec (JSON-able) -> args, kwargs of msehtt.config('tgm')"""
    kind = spec['kind']
    K = spec.get('K', 2)
    K = tuple(K) if isinstance(K, list) else K
    kw = {}
    if kind == 'crazy':
        n = spec['n']
        kw = dict(element_layout=K, c=spec.get('c', 0.), bounds=[tuple(b) for b in spec.get('bounds', [[0, 1]] * n)],
                  periodic=spec.get('periodic', False))
        a = ('crazy',)
    elif kind == 'crazy_multi':
        n = spec['n']
        kw = dict(element_layout=K, c=spec.get('c', 0.), bounds=[tuple(b) for b in spec.get('bounds', [[0, 1]] * n)])
        a = ('crazy_multi',)
    elif kind == 'backward_step':
        a, kw = ('backward_step',), dict(element_layout=K)
    elif kind == 'cylinder_channel':
        a, kw = ('cylinder_channel',), dict(element_layout=K)
    elif kind == 'chaotic':
        a, kw = ('chaotic',), dict(element_layout=K, c=spec.get('c', 0.1), periodic=spec.get('periodic', False))
    elif kind == 'rectangle':
        a, kw = ('rectangle',), dict(element_layout=K, bounds=[tuple(b) for b in spec.get('bounds', [[0, 1]] * 2)])
    elif kind == 'quad':
        a, kw = ('quad',), dict(element_layout=K, A=(0, 0), B=(1, 0.1), C=(1.1, 1), D=(-0.1, 0.9))
    elif kind == 'meshpy':
        a, kw = ('meshpy',), dict(points=tuple(tuple(p) for p in spec['points']), max_volume=spec['max_volume'])
    elif kind == 'tqr':
        a = (('tqr', {int(k): v for k, v in spec['types'].items()}, {int(k): tuple(v) for k, v in spec['vertices'].items()},
              {int(k): v for k, v in spec['map'].items()}),)
        kw = dict(element_layout=K)
    elif kind == 'slice':
        a = ('periodic slice',)
        kw = dict(element_layout=K, bounds=[tuple(b) for b in spec.get('bounds', [[0, 1]] * 2)],
                  thickness=spec.get('thickness', 0.1), levels=spec.get('levels', 1))
    elif kind == 'phm':
        a = (spec['file'],)
    else:
        raise ValueError(kind)
    for k in ('trf', 'ts', 'renumbering'):
        if k in spec:
            kw[k] = trf_of(spec[k]) if k == 'trf' else spec[k]
    return a, kw


# ---- analytic fields (generic: no symmetry, so that distinct dofs get distinct values) ----
def fields(n, variant=0, periodic=False):
    """scalar and vector functions f(t, *x), periodic with period 1 when asked"""
    pi2 = 2 * np.pi
    v = variant
    if periodic:
        if n == 2:
            def s(t, x, y): return np.sin(pi2 * x + .3 + v) * np.cos(pi2 * y - .7) + .4 * np.cos(pi2 * (2 * x - y) + .1) + .2 * t
            def a(t, x, y): return np.cos(pi2 * x + .2) * np.sin(pi2 * y + .5 + v) + .3 + .1 * t
            def b(t, x, y): return np.sin(pi2 * (x + y) + .9) + .5 * np.cos(pi2 * y + .4 * v) - .2 * t
            return s, (a, b)
        def s(t, x, y, z): return np.sin(pi2 * x + .3 + v) * np.cos(pi2 * y - .7) + .5 * np.sin(pi2 * z + .2) * np.cos(pi2 * x) + .1 * t
        def a(t, x, y, z): return np.cos(pi2 * x + .2) * np.sin(pi2 * z + .5 + v) + .3
        def b(t, x, y, z): return np.sin(pi2 * (x + y) + .9) + .5 * np.cos(pi2 * z) + .2 * t
        def c(t, x, y, z): return np.cos(pi2 * (z - y) + .6) * np.sin(pi2 * x + .1) - .4
        return s, (a, b, c)
    if n == 2:
        def s(t, x, y): return np.sin(1.3 * x + .7 * y + .2 + v) + .37 * x * x - .21 * x * y + .11 * np.exp(.5 * y) + .3 * t * x
        def a(t, x, y): return np.cos(1.1 * x - .9 * y + v) + .17 * y * y + .23 * x + .1 * t
        def b(t, x, y): return np.sin(.8 * x + 1.7 * y - v) - .31 * x * x + .13 * y - .2 * t * y
        return s, (a, b)
    def s(t, x, y, z): return np.sin(1.3 * x + .7 * y - .4 * z + .2 + v) + .37 * x * z - .21 * x * y + .11 * np.exp(.5 * y) + .3 * t
    def a(t, x, y, z): return np.cos(1.1 * x - .9 * y + .3 * z + v) + .17 * y * z + .1 * t
    def b(t, x, y, z): return np.sin(.8 * x + 1.7 * y - .6 * z - v) - .31 * x * x + .2 * z
    def c(t, x, y, z): return np.cos(.5 * x - .4 * y + 1.2 * z) + .21 * x * y - .3 * z * z
    return s, (a, b, c)


def field(ph, n, k, variant=0, periodic=False, mesh=None):
    s, v = fields(n, variant, periodic)
    if mesh and mesh['kind'] == 'cylinder_channel':       # a large domain: of_dof compares absolutely
        def small(f):
            return (lambda t, x, y: .02 * f(t, x, y)) if n == 2 else lambda t, x, y, z: .02 * f(t, x, y, z)
        s, v = small(s), [small(f) for f in v]
    if k == 0 or k == n:
        return ph.vc.scalar(s)
    return ph.vc.vector(*v)


# ---- set-up -------------------------------------------------------------------------------
class Job:
    pass


def setup(ph, spec, scheme='msehtt-s'):
    """forms of every degree k and orientation asked for, on one mesh.
    spec: n, degree, forms=[[k, orientation], ...], mesh"""
    n = spec['n']
    ph.config.set_embedding_space_dim(n)
    manifold = ph.manifold(n, periodic=spec['mesh'].get('periodic', False))
    mesh = ph.mesh(manifold)
    degree = spec['degree']
    forms = []
    sp = {}
    for i, (k, o) in enumerate(spec['forms']):
        key = (k, o)
        if key not in sp:
            sp[key] = ph.space.new('Lambda', k, orientation=o)
        forms.append(sp[key].make_form(r'\mathsf{w}_{%d}' % i, 'form-%d' % i))
    bm = None
    secs = []
    if spec.get('boundary', True) and not spec['mesh'].get('periodic', False):
        bm = mesh.boundary()
        for q in range(len(spec.get('sections') or ())):
            mesh.boundary_partition(r'\Gamma_{1%d}' % q, r'\Gamma_{2%d}' % q)
            secs.append((r'\Gamma_{1%d}' % q, r'\Gamma_{2%d}' % q))
    ph.space.finite(degree)
    j = Job()
    j.ph = ph
    j.msehtt, j.obj = ph.fem.apply(scheme, dict())
    base = j.msehtt.base
    a, kw = mesh_args(spec['mesh'])
    j.msehtt.config('tgm')(*a, **kw)
    j.tgm = base['the_great_mesh']
    j.nbase = base_count(j.tgm)
    j.meshes = base['meshes']
    j.secnames = secs
    j.M = j.meshes[mesh._sym_repr]
    j.msehtt.config(j.M)(j.tgm, 'all')
    j.B = None
    if bm is not None:
        j.B = j.meshes[bm._sym_repr]
        j.msehtt.config(j.B)(j.tgm, j.M)
    j.forms = [base['forms']['form-%d' % i] for i in range(len(spec['forms']))]
    j.kinds = [tuple(x) for x in spec['forms']]
    j.n = n
    for i, f in enumerate(j.forms):
        f.cf = field(ph, n, j.kinds[i][0], spec.get('variant', 0) + i * 0.37, spec['mesh'].get('periodic', False), spec['mesh'])
    return j


def base_count(tgm):
    """how many elements there were to distribute (this rank's share)"""
    info = getattr(tgm, '___ts_element_info___', None)
    if info:
        return min(len(v[0]) for v in info.values())
    return len(tgm.elements._elements_dict) if hasattr(tgm.elements, '_elements_dict') else len([1 for _ in tgm.elements])


def tolist(x):
    if isinstance(x, dict):
        return {k: tolist(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [tolist(v) for v in x]
    return x


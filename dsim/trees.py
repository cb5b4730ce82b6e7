"""Independent copies of the package under test, one per simulated rank.

The package keeps rank-dependent state in module globals (RANK, COMM, caches, registries of
abstract objects), so every rank gets its own module objects, made from the same code objects
of the current working tree.  `install` makes one copy the importable one.
"""
import importlib.abc
import importlib.util
import os
import sys

REPO = os.environ.get('DSIM_REPO', '/repo')
SKIP_DIRS = ('web', '.git', '__phcache__')


def _owned(name):
    return name == 'phyem' or name.startswith('phyem.') or name == 'mpi4py' or name.startswith('mpi4py.')


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, root):
        self.root = root
        self.codes = {}

    def find_spec(self, name, path=None, target=None):
        if name != 'phyem' and not name.startswith('phyem.'):
            return None
        rel = name.split('.')[1:]
        base = os.path.join(self.root, *rel)
        if os.path.isfile(os.path.join(base, '__init__.py')):
            fn, pkg = os.path.join(base, '__init__.py'), True
        elif os.path.isfile(base + '.py'):
            fn, pkg = base + '.py', False
        elif os.path.isdir(base):
            spec = importlib.util.spec_from_loader(name, self, is_package=True)   # namespace-like package
            spec.submodule_search_locations = [base]
            spec.loader_state = None
            return spec
        else:
            return None
        spec = importlib.util.spec_from_file_location(
            name, fn, loader=self, submodule_search_locations=[base] if pkg else None)
        spec.loader_state = fn
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        fn = module.__spec__.loader_state
        if fn is None:
            return
        code = self.codes.get(fn)
        if code is None:
            with open(fn, 'rb') as f:
                src = f.read()
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                code = compile(src, fn, 'exec', dont_inherit=True)
            self.codes[fn] = code
        exec(code, module.__dict__)


_finder = None


def finder():
    global _finder
    if _finder is None:
        _finder = _Finder(REPO)
        sys.meta_path.insert(0, _finder)
    return _finder


def all_modules():
    out = []
    for d, ds, fs in os.walk(REPO):
        ds[:] = sorted(x for x in ds if not (d == REPO and x in SKIP_DIRS) and x != '__pycache__')
        for f in sorted(fs):
            if f.endswith('.py'):
                rel = os.path.relpath(os.path.join(d, f), REPO)[:-3].split(os.sep)
                if rel[-1] == '__init__':
                    rel = rel[:-1]
                if all(p.isidentifier() for p in rel):
                    out.append('.'.join(['phyem'] + rel))
    return out


class Trees:
    def __init__(self, size, preload=True):
        from . import fakempi, seams
        finder()
        self.size = size
        self.sets = []
        self.cur = None
        mods = all_modules() if preload else ['phyem']
        for r in range(size):
            self._drop()
            sys.modules.update(fakempi.make(r, size))
            for name in ['phyem'] + mods:
                try:
                    importlib.import_module(name)
                except (Exception, SystemExit):
                    if name == 'phyem':
                        raise
            self.sets.append({k: v for k, v in sys.modules.items() if _owned(k)})
            for k, v in self.sets[-1].items():
                if k.startswith('phyem') and 'id' not in vars(v):
                    vars(v)['id'] = seams.sim_id
        self.cur = size - 1
        self.count = len(sys.modules)

    @staticmethod
    def _drop():
        for k in [k for k in sys.modules if _owned(k)]:
            del sys.modules[k]

    def install(self, rank):
        if rank == self.cur:
            return
        if len(sys.modules) != self.count:          # lazily imported modules since the last switch
            self.sets[self.cur] = {k: v for k, v in sys.modules.items() if _owned(k)}
        a, b = self.sets[self.cur], self.sets[rank]
        if a.keys() != b.keys():
            for k in a.keys() - b.keys():
                sys.modules.pop(k, None)
        sys.modules.update(b)
        self.cur = rank
        self.count = len(sys.modules)

    def module(self, rank, name):
        return self.sets[rank][name]

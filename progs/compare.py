"""Harness-side comparison of observations."""
import numpy as np


def close(a, b, rtol, atol):
    """None if equal, else a description"""
    if a is None or b is None or isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
        return None if a == b and type(a) is type(b) else f'{a!r} != {b!r}'
    if isinstance(a, dict):
        if not isinstance(b, dict) or set(map(repr, a)) != set(map(repr, b)):
            return f'keys {sorted(map(repr, a))[:6]}.. != {sorted(map(repr, b))[:6] if isinstance(b, dict) else b}..'
        bb = {repr(k): v for k, v in b.items()}
        for k, v in a.items():
            d = close(v, bb[repr(k)], rtol, atol)
            if d:
                return f'[{k}] {d}'
        return None
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return f'{_s(a)} != {_s(b)}'
        for i, (x, y) in enumerate(zip(a, b)):
            d = close(x, y, rtol, atol)
            if d:
                return f'[{i}] {d}'
        return None
    try:
        x, y = np.asarray(a), np.asarray(b)
        if x.dtype == object or y.dtype == object or x.dtype.kind in 'US' or y.dtype.kind in 'US':
            return None if x.shape == y.shape and np.all(x == y) else f'{_s(a)} != {_s(b)}'
        if x.shape != y.shape:
            return f'shape {x.shape} != {y.shape}'
        if x.dtype.kind in 'iub' and y.dtype.kind in 'iub':
            return None if np.array_equal(x, y) else f'{_s(a)} != {_s(b)}'
        if x.size == 0:
            return None
        sc = max(np.max(np.abs(x)), np.max(np.abs(y)))
        fx, fy = np.isfinite(x), np.isfinite(y)
        if not (np.all(fx) and np.all(fy)):
            if not np.array_equal(fx, fy):
                return f'{_s(a)} != {_s(b)}'
            if not fx.any():
                return None
            x, y = x[fx], y[fx]
            sc = max(np.max(np.abs(x)), np.max(np.abs(y)))
        df = np.max(np.abs(x - y))
        return None if df <= atol + rtol * sc else f'differ by {df:.3g} (scale {sc:.3g}): {_s(a)} != {_s(b)}'
    except (TypeError, ValueError):
        return None if a == b else f'{_s(a)} != {_s(b)}'


def _s(x):
    return repr(x)[:160]


def ranks_agree(results, rtol=1e-11, atol=1e-13):
    """the 'same' part: every rank must report the very same"""
    a = results[0]['same']
    for r, o in enumerate(results[1:], 1):
        for k in list(a) + [k for k in o['same'] if k not in a]:
            if k not in o['same'] or k not in a:
                return k, f'{k}: only some ranks have it (rank 0 vs {r})'
            d = close(a[k], o['same'][k], rtol, atol)
            if d:
                return k, f'{k}: rank 0 vs rank {r}: {d}'
    return None


def oracles(results):
    """comparisons with independent computations that the ranks noted down"""
    for r, o in enumerate(results):
        for name, got, want, rtol, atol in o['checks']:
            d = close(got, want, rtol, atol)
            if d:
                return 'oracle:' + name, f'{name} on rank {r} of {len(results)}: {d}'
    return None


def union(results, part='elem'):
    """merge the per-rank shares; an element must be held by exactly one rank"""
    out, dup = {}, None
    for r, o in enumerate(results):
        for name, d in o[part].items():
            u = out.setdefault(name, {})
            for e, v in d.items():
                if e in u:
                    dup = (name, f'{name}: element {e} is held by two ranks')
                u[e] = v
    return out, dup


def against(results, ref, rtol=1e-8, atol=1e-11, skip=(), tol={}):
    """parallel observations against the serial ones"""
    d = oracles(ref) or oracles(results)
    if d:
        return d
    d = ranks_agree(results)
    if d:
        return 'ranks-differ:' + d[0], d[1]
    a, b = results[0]['same'], ref[0]['same']
    for k in b:
        if k not in a:
            return 'missing:' + k, f'{k} missing in the parallel run'
        x = close(a[k], b[k], *tol.get(k.rstrip('0123456789@.'), (rtol, atol)))
        if x:
            return 'serial-differs:' + k, f'{k}: {len(results)} ranks vs serial: {x}'
    u, dup = union(results)
    if dup:
        return 'duplicate:' + dup[0], dup[1]
    v, _ = union(ref)
    for name in v:
        if any(name.startswith(s) for s in skip):
            continue
        x = close(u.get(name), v[name], rtol, atol)
        if x:
            return 'serial-differs:' + name, f'{name}: {len(results)} ranks vs serial: {x}'
    for name in ref[0]['root']:
        x = close(results[0]['root'].get(name), ref[0]['root'][name], rtol, atol)
        if x:
            return 'serial-differs:' + name, f'{name} (master): {len(results)} ranks vs serial: {x}'
    return None


def numbering(results, ref):
    """global numbers are a relabelling of the serial ones"""
    u, _ = union(results)
    v, _ = union(ref)
    for name in v:
        if not name.startswith('gm'):
            continue
        f, g = {}, {}
        for e in v[name]:
            if e not in u[name]:
                return 'numbering', f'{name}: element {e} missing'
            p, s = u[name][e], v[name][e]
            if len(p) != len(s):
                return 'numbering', f'{name}: element {e}: {len(p)} local dofs, serial {len(s)}'
            for x, y in zip(p.tolist(), s.tolist()):
                if f.setdefault(x, y) != y or g.setdefault(y, x) != x:
                    return 'numbering', f'{name}: element {e}: global dof {x} stands for serial dofs {f[x]} and {y}'
        n = len(f)
        if sorted(f) != list(range(n)):
            return 'numbering', f'{name}: global numbers are not 0..{n - 1}'
    return None


def renaming(u, v, what):
    """two {key: [names]} dictionaries that must be equal up to a renaming of the names"""
    f, g = {}, {}
    if set(map(repr, u)) != set(map(repr, v)):
        return what, f'{what}: elements differ: {sorted(map(repr, u))[:8]} {sorted(map(repr, v))[:8]}'
    for e in v:
        if len(u[e]) != len(v[e]):
            return what, f'{what}: element {e} has {len(u[e])} entries, serial {len(v[e])}'
        for x, y in zip(u[e], v[e]):
            if f.setdefault(x, y) != y or g.setdefault(y, x) != x:
                return what, f'{what}: element {e}: {x} stands for both {f[x]} and {y}'
    return None

"""Systems assembled on several ranks against the serial ones, up to the renumbering of the unknowns."""
import numpy as np
from progs import compare


def judge(results, ref, rtol=1e-8, iterative=1e-5):
    u, dup = compare.union(results)
    if dup:
        return dup
    v, _ = compare.union(ref)
    R, S = results[0]['root'], ref[0]['root']
    for name in v:
        if not name.endswith('.rows'):
            continue
        key = name[:-5]
        maps = {}
        for part in ('rows', 'cols'):
            d = compare.renaming(u[f'{key}.{part}'], v[f'{key}.{part}'], f'{key}: numbering of {part}')
            if d:
                return 'numbering', d[1]
            p = {}
            for e in v[f'{key}.{part}']:
                for x, y in zip(u[f'{key}.{part}'][e], v[f'{key}.{part}'][e]):
                    p[int(y)] = int(x)
            n = ref[0]['same'][key + '.shape'][0 if part == 'rows' else 1]
            for i in range(n):
                if i not in p:
                    p[i] = i            # an extra equation at the end
            maps[part] = np.array([p[i] for i in range(n)])
        a, b = R[key + '.A'], S[key + '.A']
        if a.shape != b.shape:
            return 'system', f'{key}: A has shape {a.shape}, serial {b.shape}'
        d = compare.close(a[np.ix_(maps['rows'], maps['cols'])], b, rtol, 1e-12)
        if d:
            return 'system', f'{key}: A, {len(results)} ranks vs serial: {d}'
        d = compare.close(R[key + '.b'][maps['rows']], S[key + '.b'], rtol, 1e-12)
        if d:
            return 'system', f'{key}: b, {len(results)} ranks vs serial: {d}'
        k = key + '.x'
        if k in ref[0]['same']:
            if k not in results[0]['same']:
                return 'solution', f'{key}: no solution on {len(results)} ranks'
            it = key + '.info' in ref[0]['same']
            x, y = results[0]['same'][k][maps['cols']], ref[0]['same'][k]
            if it:
                # both satisfy the system to the tolerance asked for; how far apart may they be?
                if ref[0]['same'][key + '.info'] != 0 or results[0]['same'][key + '.info'] != 0:
                    continue
                s = np.linalg.svd(b, compute_uv=False)
                if s[-1] < 1e-10 * s[0]:
                    continue
                at = ref[0]['info'][key]['atol']
                if np.linalg.norm(x - y) > 2.1 * at / s[-1] + 1e-9:
                    return 'solution', f'{key}: solutions differ by {np.linalg.norm(x - y):.3g}'
            else:
                s = np.linalg.svd(b, compute_uv=False)
                if s[-1] < 1e-10 * s[0]:
                    continue
                if key + '.loose' in ref[0]['same']:
                    if np.linalg.norm(x - y) > 2 * ref[0]['same'][key + '.loose'] * (1 + np.linalg.norm(S[key + '.b'])) / s[-1]:
                        return 'solution', f'{key}: solutions differ by {np.linalg.norm(x - y):.3g}'
                    continue
                d = compare.close(x, y, 1e-6 + 1e-11 * s[0] / s[-1], 1e-9)
                if d:
                    return 'solution', f'{key}: x, {len(results)} ranks vs serial: {d}'
    for k, want in ref[0]['same'].items():
        got = results[0]['same'].get(k)
        end = k.split('.')[-1]
        key = k.rsplit('.', 1)[0]
        if end in ('x', 'info', 'sign'):
            continue
        if key + '.diverged' in ref[0]['same'] or key + '.diverged' in results[0]['same']:
            continue
        if key + '.info' in ref[0]['same'] and end in ('err', 'norm'):
            if ref[0]['same'][key + '.info'] != 0 or results[0]['same'].get(key + '.info') != 0:
                continue
            d = compare.close(got, want, iterative, iterative)
        elif key + '.loose' in ref[0]['same'] and end in ('err', 'norm'):
            d = compare.close(got, want, 1e-2, 1e-2)
        elif end == 'cond':
            d = compare.close(got, want, 1e-6 + 1e-15 * want, 1e-9)     # the small singular values are known to rounding only
        else:
            d = compare.close(got, want, 1e-6, 1e-9)
        if d:
            return 'serial-differs:' + end, f'{k}: {len(results)} ranks vs serial: {d}'
    for name in v:
        if name.rsplit('.', 1)[0] + '.loose' in ref[0]['same']:
            continue
        if name.endswith('.x') or name.split('.')[-1] in ('co', 'res'):
            d = compare.close(u.get(name), v[name], 1e-6, 1e-8)
            if d:
                return 'serial-differs', f'{name}: {len(results)} ranks vs serial: {d}'
    return None

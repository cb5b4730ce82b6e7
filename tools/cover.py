"""cover.py FOLDER REPO [prefix]: which functions of REPO no simulated run executed (after checks run with DSIM_COV=FOLDER)"""
import ast
import collections
import os
import sys

folder, repo = sys.argv[1:3]
prefix = sys.argv[3] if len(sys.argv) > 3 else ''
hit = collections.defaultdict(set)
for x in os.listdir(folder):
    for line in open(os.path.join(folder, x)):
        a, b = line.rsplit(':', 1)
        i = a.find('/phyem/') if not a.startswith(repo) else -1
        hit[a[len(repo) + 1:] if i < 0 else a[i + 7:]].add(int(b))
tot = [0, 0]
rows = []
for d, ds, fs in os.walk(repo):
    ds[:] = [x for x in ds if not x.startswith('.')]
    for f in fs:
        p = os.path.relpath(os.path.join(d, f), repo)
        if not f.endswith('.py') or not p.startswith(prefix) or p.startswith(('tests', 'web')):
            continue
        for node in ast.walk(ast.parse(open(os.path.join(repo, p)).read())):
            if isinstance(node, ast.FunctionDef):
                body = [n for n in node.body if not (isinstance(n, ast.Expr) and isinstance(getattr(n, 'value', None), ast.Constant))]
                if not body:
                    continue
                lines = {n.lineno for b in body for n in ast.walk(b) if isinstance(n, ast.stmt)}
                k = len(lines & hit[p])
                tot[0] += k
                tot[1] += len(lines)
                if len(lines) - k > 0:
                    rows.append((p, node.name, k, len(lines), sorted(lines - hit[p])[:8]))
for r in sorted(rows):
    print(*r)
print(f'{tot[0]} of {tot[1]} statements in functions')

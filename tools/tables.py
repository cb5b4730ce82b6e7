"""rewrites the tables of DESIGN.md from seeded/*/meta.json (and seeded/caught.json) and known_findings.json"""
import json
import os
import re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(os.path.join(ROOT, 'DESIGN.md')).read()
rows = ['| change | property | what it breaks | found by |', '|---|---|---|---|']
S = os.path.join(ROOT, 'seeded')
notes = json.load(open(os.path.join(S, 'caught.json'))) if os.path.exists(os.path.join(S, 'caught.json')) else {}
for b in sorted(os.listdir(S)):
    if os.path.isdir(os.path.join(S, b)):
        m = json.load(open(os.path.join(S, b, 'meta.json')))
        rows.append(f"| {b} | {m['property']} | {m['what_it_breaks'].strip()} | {notes.get(b, m['property'] + ' quick')} |")
f = ['']
for x in json.load(open(os.path.join(ROOT, 'known_findings.json')))['findings']:
    w = x['what'].strip()
    f.append(f"* {x['property']} `{x['id']}` ({x['status']}): {w}")
a, b = d.index('## Planted bugs'), d.index('## Findings')
c = d.index('## Corrected false alarms')
d = d[:a] + '## Planted bugs (seeded/)\n' + '\n'.join(rows) + '\n\n## Findings\nRepaired in /repo ("fix:" commits) or open; the details are in known_findings.json.' + '\n'.join(f) + '\n\n' + d[c:]
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(d)

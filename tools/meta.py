"""Writes properties.jsonl and MANIFEST.json from the table below (python3 tools/meta.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), technique=None, note=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism]))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    d['anchors']['observe_at'] = list(observe) or ['values returned on every rank', 'files left in the working directory']
    d['anchors']['hook_needed'] = False
    P.append((d, technique, note))


def na(id, title, statement, over, text, why, files, mechanism, reason):
    prop(id, title, statement, over, text, why, files, mechanism)
    NA.append(dict(property=id, reason=reason))


SERIAL = 'The stable tests run one process; the msehtt implementation, and everything with more than one rank, is never executed by them.'
SEARCH = 'deterministic simulation: seeded search over schedules, rank counts and inputs'
FAULTS = 'deterministic simulation: seeded search over schedules, crash points and I/O faults'
D = os.path.dirname(os.path.abspath(__file__))
exec(open(os.path.join(D, 'props.py')).read())

MECH = 'exploration'
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for d, _, _ in sorted(P, key=lambda t: t[0]['id']):
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
nas = {x['property'] for x in NA}
checks = []
for d, technique, note in sorted(P, key=lambda t: t[0]['id']):
    if d['id'] in nas:
        continue
    i = d['id']
    checks.append(dict(property=i, quick_cmd=f'/opt/venv/bin/python check.py {i} --tier quick', thorough_cmd=f'/opt/venv/bin/python check.py {i} --tier thorough',
                       evidence_file=f'evidence/{i}.json', technique=technique, level='exploration', level_note=note))
m = dict(version=1, setup_cmd='/opt/venv/bin/python setup_check.py',
         hooks=dict(guard='PHYEM_DSIM', enable='no hook is needed: every seam (the mpi4py module, clocks, file calls, process information) is put in '
                    'place from outside, by the module trees of dsim/trees.py and dsim/seams.py; the variable is read by nothing in /repo',
                    source_commits=[]),
         checks=checks, not_applicable=NA,
         notes='Deterministic simulation with fault injection: see DESIGN.md. Replay a violation with: /opt/venv/bin/python check.py replay FILE')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(NA), 'not applicable')

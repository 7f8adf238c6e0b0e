#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the entries below (vp/entries/*.py)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PR, CH, NA = [], [], []
TECH = 'contract-based deductive verification of the real C sources (CBMC code contracts / obligations, no bound on the inputs)'
TECHCC = 'contract-based deductive verification of the real C++ sources via mechanical LLVM-IR extraction (CBMC obligations)'
def prop(id, title, statement, qtext, why, files, mech, over=('inputs',), state=(), observe=(), level='proof', note='', tech=TECH, na=None):
    assert len(title) <= 80, title
    PR.append({'id': id, 'title': title, 'statement': statement,
               'quantifier': {'over': list(over), 'text': qtext}, 'why_tests_cant': why,
               'anchors': {'files': list(files), 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                           'mechanism': [dict(zip(('name', 'where'), m)) for m in mech], 'observe_at': list(observe), 'hook_needed': None}})
    if na:
        NA.append({'property': id, 'reason': na})
    else:
        CH.append({'property': id, 'quick_cmd': 'python3 vp/run.py ' + id, 'thorough_cmd': 'VERIF_TIER=thorough python3 vp/run.py ' + id,
                   'technique': tech, 'level': level, 'level_note': note})
for f in sorted(glob.glob(os.path.join(V, 'vp/entries/*.py'))):
    exec(compile(open(f).read(), f, 'exec'))
PR.sort(key=lambda p: p['id']); CH.sort(key=lambda p: p['property']); NA.sort(key=lambda p: p['property'])
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PR:
        f.write(json.dumps(p) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 vp/setup.py',
     'hooks': {'guard': 'VP_CPROVER', 'enable': 'no hook in /repo: the checks compile /repo unmodified; VP_CPROVER is only used inside /verif', 'source_commits': []},
     'checks': CH, 'not_applicable': NA}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(PR), 'properties', len(CH), 'checks')
try:
    import jsonschema
    ps = json.load(open('/root/.vp/PROPERTIES.schema.json')); ms = json.load(open('/root/.vp/MANIFEST.schema.json'))
    for p in PR: jsonschema.validate(p, ps)
    jsonschema.validate(m, ms)
    print('schemas ok')
except ImportError:
    print('jsonschema not available')

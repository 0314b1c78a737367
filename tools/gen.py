#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property tables."""
import json, os, sys, glob, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'tools'), os.path.join(V, 'lib')]
import jobs
props, na = [], []
for f in sorted(glob.glob(os.path.join(V, 'tools', 'props_*.py'))):
    m = importlib.import_module(os.path.basename(f)[:-3])
    props += m.PROPS
    na += getattr(m, 'NOT_APPLICABLE', [])
props.sort(key=lambda p: p[0])
TECH = 'symbolic execution of the real code (LLVM IR), every path and assertion decided by an SMT solver'
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for (i, title, st, over, q, why, files, mech, obs) in props:
        assert len(title) <= 80, (i, len(title))
        for x in files:
            assert os.path.exists('/repo/' + x), x
        f.write(json.dumps({'id': i, 'title': title, 'statement': st, 'quantifier': {'over': over, 'text': q}, 'why_tests_cant': why,
                            'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech], 'observe_at': obs, 'hook_needed': None}}) + '\n')
nas = {x for x, _ in na}
man = {'version': 1, 'setup_cmd': './setup.sh', 'checks': [], 'not_applicable': [{'property': a, 'reason': b} for a, b in na],
       'notes': 'No hooks in /repo are needed: the harness crates in /verif/ws include the sources of /repo by path.'}
for p in props:
    i = p[0]
    if i in nas:
        continue
    j = jobs.PROPS[i]
    man['checks'].append({'property': i, 'quick_cmd': './check.py %s' % i, 'thorough_cmd': './check.py %s --tier thorough' % i,
        'technique': TECH, 'level': 'model_checking',
        'level_note': 'All values within the bounds, no sampling. Bounds: %s. Outside: %s. Trusts rustc, the executor (cross-checked natively every run), z3/cvc5%s.' % (j['bounds'], j['outside'], j.get('trust', ', and injectivity of SHA-256'))})
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
assert set(jobs.PROPS) == {p[0] for p in props} - nas, set(jobs.PROPS) ^ ({p[0] for p in props} - nas)
print(len(props), 'properties', len(man['checks']), 'checks')

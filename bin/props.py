#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: run bin/props.py after editing."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'bin'))
from checks import CHECKS
P = []
A = 'geometrix/algorithm/'


def prop(id, title, statement, over, text, why, files, mech, note='', state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'hook_needed': None}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append(({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
               'why_tests_cant': why, 'anchors': a}, note))


exec(open(os.path.join(ROOT, 'bin', 'properties_src.py')).read())

TECH = 'TLA+ specification; TLC model checking of it plus TLC trace validation of the real code'
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p, n in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
man = {'version': 1, 'setup_cmd': 'python3 bin/setup.py',
       'checks': [{'property': p['id'], 'quick_cmd': 'python3 bin/check.py %s --tier quick' % p['id'],
                   'thorough_cmd': 'python3 bin/check.py %s --tier thorough' % p['id'],
                   'technique': CHECKS[p['id']].get('technique', TECH), 'level': 'model_checking',
                   'level_note': (n or 'The specification is checked by TLC; the code is bound to it by validating every recorded call against it. '
                                  'Assurance for the code is bounded by the scenes generated (exhaustive small grids plus seeded random ones).')}
                  for p, n in P if p['id'] in CHECKS],
       'not_applicable': [{'property': p['id'], 'reason': 'no check built yet'} for p, n in P if p['id'] not in CHECKS],
       'notes': 'TLA+ with TLC. See DESIGN.md.'}
json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)

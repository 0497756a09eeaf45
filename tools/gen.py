#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py and rules/catalogue.py"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from rules import RULES
from tools.props import PROPS, NA

with open(HERE + '/properties.jsonl', 'w') as fh:
    for p in PROPS:
        pid, title, statement, over, qtext, why, files, mech = p
        assert len(title) <= 80, title
        fh.write(json.dumps({'id': pid, 'title': title, 'statement': statement,
                             'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
                             'anchors': {'files': files,
                                         'mechanism': [{'name': n, 'where': w} for n, w in mech]}}) + '\n')
na = [{'property': k, 'reason': r} for k, r in NA]
checks = []
for p in PROPS:
    if p[0] in dict(NA):
        continue
    r = RULES[p[0]]
    checks.append({'property': p[0], 'quick_cmd': 'python3 check.py %s' % p[0],
                   'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s thorough' % p[0],
                   'technique': r['technique'], 'level': 'other',
                   'level_note': 'Static. Rule: %s. Assumes: %s.' % (r['rule'], '; '.join(r['assumptions']) or
                                                                      'the modelled Python semantics')})
json.dump({'version': 1, 'setup_cmd': 'python3 -c "import ast, sys; assert sys.version_info >= (3, 8)"',
           'checks': checks, 'not_applicable': na,
           'notes': 'Static analysis only: every check re-reads the syntax trees of /repo. See DESIGN.md.'},
          open(HERE + '/MANIFEST.json', 'w'), indent=1)
print(len(PROPS), 'properties', len(checks), 'checks', len(na), 'not applicable')

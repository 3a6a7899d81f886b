#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the checks present."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
T = {
    'kernel': 'explicit-state exploration of the implementation: every draw outcome enumerated by re-execution, exact '
              'transition laws compared with a reference model in every reachable state',
    'hist': 'stateless model checking of the implementation: all operation sequences up to a depth, compared with a '
            'reference model after each',
}
TECH = json.load(open(os.path.join(HERE, 'techniques.json')))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl')) if l.strip()]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'checks', i.lower() + '.py')):
        t = TECH[i]
        checks.append({'property': i, 'quick_cmd': 'python3 run.py %s' % i,
                       'thorough_cmd': 'VERIF_TIER=thorough python3 run.py %s' % i,
                       'technique': T.get(t[0], t[0]), 'level': 'model_checking', 'level_note': t[1]})
    else:
        na.append({'property': i, 'reason': TECH.get(i, ['', 'no check yet'])[1]})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not applicable')

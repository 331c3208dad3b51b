#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per scen/pNN.py, the rest of properties.jsonl not applicable."""
import importlib
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl'), encoding='utf-8'):
    p = json.loads(line)
    pid = p['id']
    path = os.path.join(HERE, 'scen', pid.lower() + '.py')
    if pid not in NA and os.path.exists(path):
        src = open(path, encoding='utf-8').read()
        ns = {}
        m = re.search(r"^BOUNDS = \{.*?^\}", src, re.S | re.M)
        exec(m.group(0), ns)
        checks.append({
            'property': pid,
            'quick_cmd': 'python3 check.py %s --tier quick' % pid,
            'thorough_cmd': 'python3 check.py %s --tier thorough' % pid,
            'technique': 'symbolic execution of the real Python source (bit-precise normal '
                         'forms), obligations and path feasibility decided by z3, '
                         'counterexamples replayed on the real code',
            'level': 'model_checking',
            'level_note': 'Bounds: ' + ns['BOUNDS']['quick'],
            'evidence_file': 'evidence/%s.json' % pid,
        })
    else:
        na.append({'property': pid, 'reason': NA.get(pid, 'no check yet')})
man = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8') as fh:
    json.dump(man, fh, indent=1)
    fh.write('\n')

#!/usr/bin/env python3
"""replay.py <file>: runs a recorded counterexample on the real code in /repo."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
rec = json.load(open(sys.argv[1], encoding='utf-8'))
p = subprocess.run([PY, os.path.join(HERE, 'symx', 'concrete.py')],
                   input=json.dumps([rec['job']]), capture_output=True, text=True, check=False)
out = json.loads(p.stdout)[0]
print(rec['scenario'])
for label, detail in out['violations']:
    print('  %s: %s' % (label, detail))
print('violation reproduced' if out['violations'] else 'not reproduced')
sys.exit(1 if out['violations'] else 0)

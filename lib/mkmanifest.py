#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from check import MODULES
PARSE = ('TLA+ model checking (TLC) of the command line machine, test vectors replayed in the real parser, recorded random runs '
         'validated against the TLA+ trace specification')
NOTE = ('Every command line over the stated alphabets up to the stated length is enumerated by TLC and replayed in the real '
        'parser; the design invariants hold on all of them; seeded random programs and command lines are recorded and accepted '
        'by the trace specification. Assumes: behaviour beyond the bounds is like within; the harness reads option variables, '
        'is_option_set, exception types, output and exit codes through the public API.')
TEXT = {p: (PARSE, NOTE) for p in MODULES if MODULES[p] == 'parse'}
sys.path.insert(0, os.path.join(ROOT, 'lib'))
for p, mod in MODULES.items():
    if mod != 'parse':
        TEXT[p] = __import__(mod).TEXT[p]
NOT_YET = {}
checks, na = [], []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    i = json.loads(line)['id']
    if i in TEXT:
        checks.append(dict(property=i, quick_cmd=f'python3 check.py {i} quick', thorough_cmd=f'python3 check.py {i} thorough',
                           evidence_file=f'evidence/{i}.json', technique=TEXT[i][0], level='model_checking', level_note=TEXT[i][1]))
    else:
        na.append(dict(property=i, reason='no check yet (work in progress)'))
json.dump(dict(version=1, setup_cmd='python3 setup.py', checks=checks, not_applicable=na,
               notes='TLA+ with TLC; see DESIGN.md. No hooks are needed in /repo: the drivers in harness/ use the public API and '
                     'link-time interposition of libc functions.'),
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)

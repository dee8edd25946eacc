#!/usr/bin/env python3
"""writes MANIFEST.json from the registered checks"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
TECH = {}
NOTE = {}
CTX = 'TLA+ (Context.tla) checked with TLC; TLC behaviours replayed in the real library'
CTXN = ('TLC checks the invariants of the specification exhaustively within small bounds; every transition of that state graph and '
        'long random behaviours of the specification are executed by the real library and every observation compared. Trusted: '
        'TLC, the replay harness, x86_64 Linux with gcc; only behaviours within the bounds reported in the evidence.')
from modelinfo import INFO
checks = []
na = []
for p in props:
    i = p['id']
    if i in INFO:
        t, n = INFO[i]
        checks.append(dict(property=i, quick_cmd='python3 tools/check.py ' + i, thorough_cmd='env VERIF_TIER=thorough python3 tools/check.py ' + i,
                           technique=t or CTX, level='model_checking', level_note=n or CTXN))
    else:
        na.append(dict(property=i, reason='check not built yet'))
m = dict(version=1, setup_cmd='bash tools/setup.sh', checks=checks, not_applicable=na,
         notes='Specifications in spec/ (TLA+, TLC), conformance harnesses in harness/, entry point tools/check.py. See DESIGN.md.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)

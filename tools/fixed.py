#!/usr/bin/env python3
"""tools/fixed.py PROPERTY COMMIT TEXT: append a repaired defect to known_findings.json"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
d = json.load(open(p))
a = sys.argv[1:]
for prop, commit, text in zip(a[::3], a[1::3], a[2::3]):
    d['fixed'].append(f'fixed: property={prop} {commit} {text}')
json.dump(d, open(p, 'w'), indent=1)

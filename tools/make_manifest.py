"""Writes MANIFEST.json from properties.jsonl, the checks present and NOT_APPLICABLE below."""
import glob
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOT_APPLICABLE = {}
NOTES = {}
props = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i not in NOT_APPLICABLE and glob.glob(f'{ROOT}/checks/{i.lower()}_*.py'):
        checks.append({
            'property': i, 'quick_cmd': f'./run.sh {i} quick', 'thorough_cmd': f'./run.sh {i} thorough', 'evidence_file': f'evidence/{i}.json',
            'technique': 'symbolic execution of the real functions, obligations decided by z3 (SMT), counterexamples replayed on the real code',
            'level': 'model_checking',
            'level_note': NOTES.get(i, 'Bounded: every feasible path of the real code within the bounds listed in the evidence is executed symbolically and its obligations are '
                                       'decided for all values; real arithmetic instead of floating point; stubs and interpreted libraries are listed per harness.')})
    else:
        na.append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'the check for this property is not built yet')})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: the machinery patches module globals at run time. See DESIGN.md.'}, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')

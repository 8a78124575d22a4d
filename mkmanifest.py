#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and registry.py."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
from registry import REG
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl') if l.strip()]
try:
    from registry import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = {}
checks, na = [], []
for i in ids:
    if i in REG:
        checks.append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + i, evidence_file='evidence/%s.json' % i,
                           technique='symbolic execution of the compiled implementation (LLVM IR of /repo/src) with SMT solving; counterexamples replayed on a sanitizer build',
                           level='model_checking', level_note='exhaustive within bounds: ' + REG[i]['bounds']))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='make -C engine', hooks=dict(guard='', enable='', source_commits=[]), checks=checks, not_applicable=na,
         notes='No hooks: the checks compile the unmodified sources. Library models used in the symbolic build are listed in DESIGN.md.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')

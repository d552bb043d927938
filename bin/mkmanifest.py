#!/usr/bin/env python3
"""Writes MANIFEST.json from passes.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'bin'))
from passes import PASSES, LEVEL_RULES
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for d in props:
    p = d['id']
    if p not in PASSES:
        na.append({'property': p, 'reason': 'the monitor of this property is not finished'})
        continue
    r = LEVEL_RULES[p]
    checks.append({'property': p, 'quick_cmd': 'python3 bin/check.py %s --tier quick' % p, 'thorough_cmd': 'python3 bin/check.py %s --tier thorough' % p,
                   'evidence_file': 'evidence/%s.json' % p, 'technique': r['technique'], 'level': r['level'],
                   'level_note': 'Holds on the executions that were monitored, not for all. ' + r['rule'] + ' Trusted: ' + '; '.join(r['assumptions']) + '.'})
m = {'version': 1, 'setup_cmd': 'python3 bin/setup.py', 'hooks': {'guard': 'none', 'enable': 'No hooks are needed: the monitors use the public interface, subclasses, interposed system calls and real programs; the checks compile the sources of /repo with sanitizers.', 'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'Every check is bin/check.py, which builds the sources of /repo in a temporary directory with the sanitizers of bin/passes.py and runs the harness in harness/. known_findings.txt lists the open finding and the defects that were fixed.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')

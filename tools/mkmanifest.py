#!/usr/bin/env python3
"""writes MANIFEST.json from sa/registry.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/sa')
import registry
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    c = registry.CHECKS.get(p['id'])
    if c:
        checks.append({'property': p['id'], 'quick_cmd': './check ' + p['id'], 'thorough_cmd': './check %s thorough' % p['id'],
                       'evidence_file': 'evidence/%s.json' % p['id'],
                       'technique': c.get('technique', 'static analysis: path-sensitive provenance dataflow (abstract interpretation) over rustc MIR'), 'level': 'other',
                       'level_note': c.get('note') or ('Static, for all inputs: ' + c['rule'] + '. Trusts rustc MIR and ' + '; '.join(c.get('assume', [])) +
                                     '. An obligation the analysis cannot settle is listed as undecided, not reported.')})
    else:
        na.append({'property': p['id'], 'reason': registry.NA.get(p['id'], 'No static check for it has been finished.')})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: the checks read the compiled program of /repo through a rustc driver, nothing in /repo is instrumented.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)

#!/usr/bin/env python3
"""MANIFEST.json from checks.json and properties.jsonl"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cfg = json.load(open(V + '/checks.json'))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks = []
na = []
for p in props:
    i = p['id']
    c = cfg['properties'].get(i)
    if c is None:
        na.append({'property': i, 'reason': cfg['not_applicable'].get(i, 'not built yet')})
        continue
    checks.append({'property': i, 'quick_cmd': './check %s quick' % i, 'thorough_cmd': './check %s thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
                   'technique': c.get('technique', 'contract-based deductive verification of the extracted source (Verus/Z3), with a bounded search on the real crate for replayable inputs'),
                   'level': c.get('level', 'proof'), 'level_note': c['note']})
m = {'version': 1, 'setup_cmd': './setup', 'hooks': {'guard': 'none', 'enable': 'no hooks are needed: the source is read, and the crate is used through its public interface', 'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'See DESIGN.md. known-findings.txt lists the repaired defects.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)

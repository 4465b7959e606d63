#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and harness/checks.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'harness'))
import checks as C
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='bash setup.sh',
         hooks=dict(guard='none', enable='no hooks: the checks observe public attributes, arguments, results, log records and files', source_commits=[]),
         checks=[], not_applicable=[],
         notes='Specification in TLA+ (spec/), checked with TLC; every recorded execution of the real code is validated by TLC against it. See DESIGN.md.')
for p in props:
    if p in C.CHECKS:
        m['checks'].append(dict(property=p, quick_cmd='python3 check.py ' + p, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + p,
            evidence_file='evidence/%s.json' % p, technique=C.TECH.get(p, C.TECH['*']), level='model_checking',
            level_note=C.NOTE[p] + ' ' + C.NOTE['*']))
    else:
        m['not_applicable'].append(dict(property=p, reason='specification and conformance check not built yet'))
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'claimed,', len(m['not_applicable']), 'not')

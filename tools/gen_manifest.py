#!/usr/bin/env python3
"""Generates MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
from checks import CHECKS, DEFAULT
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
hooks = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h', '--grep=^verif:'], capture_output=True, text=True).stdout.split()
m = dict(version=1,
         setup_cmd='python3 tools/setup.py',
         hooks=dict(guard='verif', enable='go build -race -tags verif (build tag verif turns vpoint.At into a delay point)', source_commits=hooks[::-1]),
         checks=[], not_applicable=[],
         notes='All checks: python3 check.py <id>; VERIF_SEED and VERIF_TIER select seed and depth. See DESIGN.md.')
for p in props:
    c = CHECKS.get(p['id'])
    if not c:
        m['not_applicable'].append(dict(property=p['id'], reason='check under construction'))
        continue
    c = dict(DEFAULT, **c)
    m['checks'].append(dict(property=p['id'], quick_cmd='python3 check.py %s' % p['id'],
                            thorough_cmd='VERIF_TIER=thorough python3 check.py %s' % p['id'],
                            evidence_file='evidence/%s.json' % p['id'],
                            technique=c['technique'], level=c['level'], level_note=c['note']))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(m['checks']), 'checks')

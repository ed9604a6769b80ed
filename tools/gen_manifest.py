#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that the harness knows, the rest not_applicable."""
import json, subprocess
V = '/verif'
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
have = set(l.strip() for l in subprocess.check_output([V + '/target/release/vharness', 'list'], text=True).splitlines() if not l.startswith(' '))
TECH = json.load(open(V + '/tools/techniques.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i in have or i in TECH.get('_special', []):
        checks.append({'property': i,
                       'quick_cmd': 'VERIF_TIER=quick python3 run.py check ' + i,
                       'thorough_cmd': 'VERIF_TIER=thorough python3 run.py check ' + i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': TECH.get(i, TECH['_default']),
                       'level': 'exploration',
                       'level_note': TECH.get('_note_' + i, TECH['_note'])})
    else:
        na.append({'property': i, 'reason': TECH.get('_na_' + i, 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 run.py setup',
           'hooks': {'guard': 'none', 'enable': 'no hooks are needed: the monitors observe the public interface', 'source_commits': []},
           'checks': checks, 'not_applicable': na,
           'notes': 'Runtime monitors with independent reference models, sanitizers and Miri. See DESIGN.md.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(na), 'not applicable')

#!/usr/bin/env python3
"""writes MANIFEST.json from the registered checks"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(os.path.join(V, 'lib', 'registry.py')).read()
ids = sorted(set(re.findall(r"'(C\d\d)'", src)))
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
NOTE = open(os.path.join(V, 'tools', 'level_notes.json')).read()
NOTE = json.loads(NOTE)
m = dict(version=1, setup_cmd='python3 tools/setup.py',
         checks=[dict(property=p, quick_cmd=f'python3 check.py {p}', thorough_cmd=f'python3 check.py {p} --tier thorough', evidence_file=f'evidence/{p}.json',
                      technique=NOTE[p][0], level='model_checking', level_note=NOTE[p][1]) for p in ids],
         not_applicable=[dict(property=p, reason='check under construction') for p in props if p not in ids])
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)

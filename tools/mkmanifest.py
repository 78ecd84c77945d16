#!/usr/bin/env python3-vt
import sys, json
sys.path[:0] = ['/verif/engine', '/verif/specs']
import props
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks = []
for i in ids:
    if i in props.PROPS:
        p = props.PROPS[i]
        checks.append(dict(property=i, quick_cmd='VERIF_TIER=quick python3-vt check.py %s' % i,
                           thorough_cmd='VERIF_TIER=thorough python3-vt check.py %s' % i,
                           technique=p.get('technique', 'contracts on the real functions; VC generation from clang IR, discharged by z3'),
                           level=p['level'], level_note=p.get('note', '')))
na = [dict(property=i, reason=props.NA.get(i, 'not yet built')) for i in ids if i not in props.PROPS]
json.dump(dict(version=1, setup_cmd='python3-vt tools/setup.py', hooks=dict(guard='none', enable='no hooks in /repo', source_commits=[]),
               checks=checks, not_applicable=na), open('/verif/MANIFEST.json', 'w'), indent=1)

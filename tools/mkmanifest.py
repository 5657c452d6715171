#!/usr/bin/env python3
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'tools'))
import config
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
checks = []
for p in props:
    c = config.PROPS.get(p['id'])
    if not c:
        continue
    checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s' % p['id'],
                       thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
                       evidence_file='evidence/%s.json' % p['id'],
                       technique=c.get('technique', 'runtime monitoring: seeded workloads over instrumented transports, oracle over the recorded executions'),
                       level=c['level'], level_note=c.get('note', 'Held on the executions listed in the evidence; nothing is claimed beyond them.')))
na = [dict(property=p['id'], reason=config.NOT_APPLICABLE.get(p['id'], 'no check built yet')) for p in props if p['id'] not in config.PROPS]
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')

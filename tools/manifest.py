#!/usr/bin/env python3
"""writes MANIFEST.json from the plans"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plans
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in plans.PLANS:
        title, level, f = plans.PLANS[i]
        t, n = plans.NOTES[i]
        checks.append(dict(property=i, quick_cmd='python3 tools/check.py %s quick' % i, thorough_cmd='python3 tools/check.py %s thorough' % i,
                           technique=t, level=level, level_note=n))
    else:
        na.append(dict(property=i, reason='no check yet'))
m = dict(version=1, setup_cmd='bash tools/setup.sh',
         hooks=dict(guard='verif', enable="go build -tags verif -overlay (tools/zk.py build_cli): adds phase1.SetBatchSize and phase2.SetBatchSize",
                    source_commits=['a0c1efd5ec479c04f0024619058da674302e5485']),
         checks=checks, not_applicable=na,
         notes='TLA+ specification in spec/, checked with TLC; bound to the code by replaying its vectors and by validating traces of the real commands. See DESIGN.md.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')

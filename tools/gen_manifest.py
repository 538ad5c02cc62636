#!/usr/bin/env python3
"""Regenerates MANIFEST.json from props.py and properties.jsonl."""
import json, os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import props
ids = [json.loads(l)['id'] for l in open(H + '/properties.jsonl')]
hooks = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--grep=^hook'], capture_output=True, text=True).stdout.split()
checks = []
for i in ids:
    if i not in props.PROPS: continue
    p = props.PROPS[i]
    checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
        evidence_file='evidence/%s.json' % i,
        technique=p.get('technique', 'runtime monitoring: reference-model oracle over seeded workloads of the real code, built with AddressSanitizer and UndefinedBehaviorSanitizer'),
        level='exploration', level_note=p.get('note', p['rule'])[:900]))
m = dict(version=1, setup_cmd='true', hooks=dict(guard='CT_VERIF_HOOKS', enable='-DCT_VERIF_HOOKS (check.py passes it to every harness it compiles)', source_commits=hooks),
    checks=checks, not_applicable=[dict(property=i, reason=props.NA.get(i, 'no check built yet')) for i in ids if i not in props.PROPS],
    notes='check.py compiles the harnesses in harness/ against /repo and runs them; props.py lists them; tools/gen_manifest.py regenerates this file.')
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)

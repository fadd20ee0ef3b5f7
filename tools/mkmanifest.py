#!/usr/bin/env python3
"""writes MANIFEST.json from plan.py"""
import sys, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H); import plan
ch = []
for p, P in sorted(plan.PLAN.items()):
    ch.append(dict(property=p, quick_cmd='VERIF_TIER=quick ./check.py ' + p, thorough_cmd='VERIF_TIER=thorough ./check.py ' + p, technique=P.get('technique', plan.TECH), level=P['level'], level_note=P.get('note', plan.NOTE)))
M = dict(version=1, setup_cmd='./setup.sh', checks=ch, not_applicable=[dict(property=k, reason=v) for k, v in plan.NOT_APPLICABLE.items()], notes='See DESIGN.md. Open findings: none; repaired defects are listed in known_findings.txt.')
json.dump(M, open(H + '/MANIFEST.json', 'w'), indent=1)

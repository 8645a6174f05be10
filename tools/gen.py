#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py (one source for both)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NOT_APPLICABLE
root = os.path.dirname(here)
ids = set()
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NOT_APPLICABLE:
        assert p['id'] not in ids, p['id']
        ids.add(p['id'])
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
checks = [{
    'property': p['id'],
    'quick_cmd': './run.sh ' + p['id'],
    'thorough_cmd': './run.sh ' + p['id'],
    'technique': p['technique'],
    'level': 'other',
    'level_note': p['note'],
} for p in PROPS]
m = {
    'version': 1,
    'setup_cmd': 'cd checker && GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=vendor go vet . && GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=vendor go build -o /dev/null .',
    'checks': checks,
    'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NOT_APPLICABLE],
    'notes': 'All checks are one static analyser (/verif/checker): SSA-based path-sensitive abstract interpretation with value numbering; it never runs the repository. No hooks in /repo are needed.',
}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)

#!/usr/bin/env python3
"""Writes DESIGN.md (see its first lines for the sources)."""
import os, re, sys, json, glob, runpy
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS, NOT_APPLICABLE
src = {f: open(f).read() for f in sorted(glob.glob(root + '/checker/r_*.go'))}
run, where = {}, {}
for f, s in src.items():
    for m in re.finditer(r'rules\["(\w+)"\] = propRule\{run: (\w+)', s):
        run[m[1]], where[m[1]] = m[2], os.path.basename(f)
def rules(pid):
    s = src[root + '/checker/' + where[pid]]
    m = re.search(r'^func %s\(.*?^}' % run[pid], s, re.M | re.S)
    return re.findall(r'r\.rule\("((?:[^"\\]|\\.)*)"\)', m[0]) if m else []
known = [l.rstrip('\n') for l in open(root + '/known-findings.txt')]
seeds = {}
for d in sorted(glob.glob(root + '/seeded/*/meta.json')):
    seeds[os.path.basename(os.path.dirname(d))] = json.load(open(d))
o = [open(here + '/design_head.md').read()]
o.append('## 2. Properties and how each is decided\n')
for p in sorted(PROPS, key=lambda p: p['id']):
    o.append('### %s %s\n' % (p['id'], p['title']))
    o.append('*Property.* %s\n' % p['statement'])
    o.append('*Over:* %s. *Why tests do not settle it:* %s\n' % (p['quantifier']['text'], p['why_tests_cant']))
    o.append('*Decided by* %s (`checker/%s`). The rules, each an obligation per construct on all paths:\n' % (p['technique'], where[p['id']]))
    for r in rules(p['id']):
        o.append('- ' + r.replace('\\"', '"').replace('\\\\', '\\'))
    o.append('\n*Oracle, bounds, not decided:* %s\n' % p['note'])
    own = [i for i, m in seeds.items() if m['property'] == p['id']]
    if own:
        o.append('*Planted bugs caught:* ' + ', '.join(own) + '.\n')
o.append('## 3. Not applicable\n')
for p in NOT_APPLICABLE:
    o.append('- **%s %s**: %s' % (p['id'], p['title'], p['reason']))
o.append(open(here + '/design_tail.md').read())
o.append('## 6. Findings\n\nDefects of the repository that the checks (or reading for them) showed. Known findings, not repaired:\n')
for l in known:
    m = re.match(r'KNOWN property=(\w+) key=\[(.*?)\] (.*)', l)
    if m: o.append('- **%s** (`%s`): %s' % m.groups())
o.append('\nRepaired in /repo, one commit each; the check of the property is quiet on the repaired tree and reports the defect on the original:\n')
for l in known:
    m = re.match(r'fixed: property=(\w+) (\w+) (.*)', l)
    if m: o.append('- **%s** %s: %s' % m.groups())
o.append('\n## 7. Planted bugs\n\nEach in `seeded/<id>` with a demonstration that fails only with the change; "caught" is the check that reports it.\n\n| id | property | needs | caught by |\n|---|---|---|---|')
for i, m in seeds.items():
    o.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), m.get('caught_by', m['property'])))
n = {}
for d in ('refactor', 'mutants'):
    n[d] = sum(len(runpy.run_path(f)['EDITS']) for f in glob.glob('%s/%s/*.py' % (root, d)) if not f.endswith('run.py'))
o.append('\nBesides, %d mutants (`mutants/`, run with `mutants/run.py`) that each break one property are reported by its check, and %d edits that keep the behaviour (`refactor/`) leave all checks quiet.\n' % (n['mutants'], n['refactor']))
open(root + '/DESIGN.md', 'w').write('\n'.join(o))

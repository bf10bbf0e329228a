#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py (development tool)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(root + '/properties.jsonl', 'w') as f:
    for p in props.PROPS:
        d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                 quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['tests'],
                 anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))
        if p.get('observe'):
            d['anchors']['observe_at'] = p['observe']
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
checks, na = [], []
for p in props.PROPS:
    if p.get('na'):
        na.append(dict(property=p['id'], reason=p['na']))
        continue
    checks.append(dict(property=p['id'], quick_cmd='bash check.sh ' + p['id'],
                       thorough_cmd='VERIF_TIER=thorough bash check.sh ' + p['id'],
                       technique=p.get('technique', props.TECH), level=p.get('level', 'proof'), level_note=p['note']))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na), open(root + '/MANIFEST.json', 'w'), indent=1)

# DESIGN.md: per-property section and table of planted bugs
import glob
D = root + '/DESIGN.md'
s = open(D).read()


def put(s, tag, body):
    a, b = '<!-- %s -->' % tag, '<!-- /%s -->' % tag
    if a not in s:
        s += '\n%s\n%s\n' % (a, b)
    i, j = s.index(a) + len(a), s.index(b)
    return s[:i] + '\n' + body + '\n' + s[j:]


o = ['## Properties', '']
for p in props.PROPS:
    o.append('### %s %s' % (p['id'], p['title']))
    if p.get('na'):
        o += ['', 'Not applicable: ' + p['na'], '']
        continue
    o += ['', 'For %s. Under contract: %s.' % (p['quant'], '; '.join('%s (%s)' % m for m in p['mech'])), p.get('design', p['note']),
          'Tests cannot settle it: %s' % p['tests'], '']
s = put(s, 'props', '\n'.join(o))
res = {}
if os.path.exists(root + '/tools/seeds.txt'):
    for ln in open(root + '/tools/seeds.txt'):
        if ln.strip():
            res[ln.split()[0]] = ln.split(None, 1)[1].strip()
o = ['## Planted bugs', '', '| id | property | breaks | needs | check |', '|---|---|---|---|---|']
for m in sorted(glob.glob(root + '/seeded/*/meta.json')):
    k = m.split('/')[-2]
    d = json.load(open(m))
    o.append('| %s | %s | %s | %s | %s |' % (k, d['property'], d['what_it_breaks'], d['needs'], res.get(k, 'not run')))
s = put(s, 'seeds', '\n'.join(o))
kf = [l.strip() for l in open(root + '/known_findings.txt') if l.strip() and not l.startswith('#')]
s = put(s, 'defects', '## Defects found\n\nRepaired (commits in /repo) and recorded findings, as in known_findings.txt:\n\n' + '\n'.join('- ' + l for l in kf))
open(D, 'w').write(s)

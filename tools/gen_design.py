#!/usr/bin/env python3
"""Rewrites the generated parts of DESIGN.md (between the markers) from checks/specs.py, properties.jsonl, known-findings.txt and tools/oracles.json."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'lib'), os.path.join(V, 'checks')]
sys.dont_write_bytecode = True
import specs
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
extra = json.load(open(os.path.join(V, 'tools', 'oracles.json')))
o = []
for p in props:
    s = specs.SPECS[p['id']]
    x = extra.get(p['id'], {})
    o.append('### %s %s\n' % (p['id'], p['title']))
    o.append('* *Enumerated*: %s.' % s['rule'])
    o.append('* *Bounds*: %s.' % s['bounds'])
    o.append('* *Deciding method*: %s.' % s['technique'])
    o.append('* *Oracle*: %s' % x.get('oracle', ''))
    o.append('* *Beyond the tests*: %s' % x.get('reach', ''))
    o.append('* *Limits*: %s\n' % s['note'])
f = os.path.join(V, 'DESIGN.md')
t = open(f).read()
a, b = '<!-- properties -->\n', '<!-- /properties -->\n'
t = t[:t.index(a) + len(a)] + '\n'.join(o) + t[t.index(b):]
fx = [l[len('fixed: property='):].strip().split(' ', 2) for l in open(os.path.join(V, 'known-findings.txt')) if l.startswith('fixed: property=')]
fx.sort(key=lambda r: r[0])
a, b = '<!-- fixes -->\n', '<!-- /fixes -->\n'
t = t[:t.index(a) + len(a)] + '| property | commit | what failed |\n|---|---|---|\n' + ''.join('| %s | %s | %s |\n' % tuple(x.replace('|', '\\|') for x in r) for r in fx) + t[t.index(b):]
rows = []
for d, S in sorted((d, os.path.join(V, q)) for q in ('seeded', 'seeded_more') for d in os.listdir(os.path.join(V, q))):
    m = json.load(open(os.path.join(S, d, 'meta.json')))
    rows.append('| %s | %s | %s | %s |\n' % (d, m['property'], m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/')))
a, b = '<!-- seeds -->\n', '<!-- /seeds -->\n'
t = t[:t.index(a) + len(a)] + '| change | caught by | needs | breaks |\n|---|---|---|---|\n' + ''.join(rows) + t[t.index(b):]
open(f, 'w').write(t)

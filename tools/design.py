#!/usr/bin/env python3
"""Rewrites the generated part of DESIGN.md (after the marker) from the checks, the evidence and the seeded changes."""
import glob, importlib, json, os, sys
sys.dont_write_bytecode = True
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.join(V, 'tools')); sys.path.insert(0, V)
import props
MARK = '<!-- generated by tools/design.py below this line -->'
NOTES = {}
exec(open(os.path.join(V, 'tools', 'notes.py')).read(), NOTES)
caught = json.load(open(os.path.join(V, 'tools', 'caught.json')))
mani = json.load(open(os.path.join(V, 'MANIFEST.json')))
na = {x['property']: x['reason'] for x in mani['not_applicable']}
out = [MARK, '', '## Properties', '']
for d in props.P:
    i = d['id']
    out.append('### %s %s' % (i, d['title']))
    if i in na:
        out += ['Not applicable: ' + na[i], '']
        continue
    m = importlib.import_module('checks.' + i.lower())
    out.append('*Decided by.* ' + ' '.join(m.EXPLAIN.split()))
    e = os.path.join(V, 'evidence', i + '.json')
    if os.path.exists(e):
        c = json.load(open(e))
        q = c.get('coverage', {})
        k = {a: b for a, b in q.items() if isinstance(b, (int, float))}
        out.append('*Bounds.* ' + ('; '.join(NOTES['BOUNDS'][i].split('\n')) if i in NOTES['BOUNDS'] else 'none beyond the abstraction: inputs are symbolic') + '. *Cost.* about %d s; %s.' % (max(1, round(c.get('wall_s', 1))), ', '.join('%s %d' % (a.replace('_', ' '), b) for a, b in sorted(k.items()))))
    if getattr(m, 'ASSUME', None):
        out.append('*Assumed.* ' + '; '.join(m.ASSUME) + '.')
    out.append('*Beyond the tests.* ' + d['why_tests_cant'])
    out.append('')
out += ['## Planted changes', '', '| seeded | property | needs | caught by |', '|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    n = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    out.append('| %s | %s | %s | %s |' % (n, m['property'], m['needs'].replace('|', '/'), caught.get(n, 'not recorded')))
out += ['', '## Findings', '']
seen = {}
for l in open(os.path.join(V, 'known_findings.txt')):
    l = l.strip()
    if l.startswith('fixed:'):
        out.append('* ' + l)
    elif l.startswith('finding:'):
        p = l.split('property=')[1].split()[0]
        seen.setdefault((p, l.split(':: ', 1)[-1] if p != 'P06' else ''), []).append(l)
for (p, t), ls in sorted(seen.items()):
    out.append('* finding (recorded, not repaired): %s %s' % (p, t or '%d memoised quantities of subhalo classes keep the value of the previous infall redshift when set_infall_redshift is called after they were read' % len(ls)))
p = os.path.join(V, 'DESIGN.md')
s = open(p).read().split(MARK)[0].rstrip() + '\n\n' + '\n'.join(out) + '\n'
open(p, 'w').write(s)

#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run: python3 tools/manifest.py)."""
import importlib, json, os, sys
sys.dont_write_bytecode = True
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.join(V, 'tools')); sys.path.insert(0, V)
import props
NA = {}
if os.path.exists(os.path.join(V, 'tools', 'na.py')):
    import na
    NA = na.NA
checks, nas = [], []
for d in props.P:
    i = d['id']
    f = os.path.join(V, 'checks', i.lower() + '.py')
    if os.path.exists(f) and i not in NA:
        m = importlib.import_module('checks.' + i.lower())
        checks.append(dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i,
                           technique=getattr(m, 'TECHNIQUE', 'static analysis: abstract interpretation of the source into gated value terms, compared with specification terms by normal form and case splitting'),
                           level='other', level_note=' '.join(m.EXPLAIN.split())))
    else:
        nas.append(dict(property=i, reason=NA.get(i, 'no check has been built for this property yet')))
m = dict(version=1, setup_cmd='python3 -c "import ast,sys; sys.exit(0 if sys.version_info >= (3, 9) else 1)"', checks=checks, not_applicable=nas)
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1); f.write('\n')
print(len(checks), 'checks;', len(nas), 'not applicable')

"""Writes the per-property part of DESIGN.md between its markers, from the
docstrings and bounds of mc/cNN.py (run: python3 tools_design.py)."""
import ast
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
out = []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    f = os.path.join(HERE, 'mc', p['id'].lower() + '.py')
    if not os.path.exists(f):
        continue
    tree = ast.parse(open(f).read())
    c = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in (
                'BOUNDS', 'ASSUMPTIONS', 'RULE'):
            c[n.targets[0].id] = ast.literal_eval(n.value)
    doc = ast.get_docstring(tree).split('\n\n', 1)[1]
    out.append('### %s %s\n' % (p['id'], p['title']))
    out.append(doc + '\n')
    for tier in ('quick', 'thorough'):
        out.append('- Bounds (%s): %s.' % (tier, '; '.join(
            '%s: %s' % kv for kv in c['BOUNDS'][tier].items())))
    out.append('- %s.' % c.get('RULE', '').capitalize())
    if c.get('ASSUMPTIONS'):
        out.append('- Assumes: %s.' % '; '.join(c['ASSUMPTIONS']))
    out.append('- Beyond the tests: %s\n' % p['why_tests_cant'])
name = os.path.join(HERE, 'DESIGN.md')
s = open(name).read()
a, b = '<!-- properties -->\n', '<!-- end of properties -->\n'
i, j = s.index(a) + len(a), s.index(b)
with open(name, 'w') as f:
    f.write(s[:i] + '\n' + '\n'.join(out) + '\n' + s[j:])

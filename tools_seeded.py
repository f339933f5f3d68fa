"""Write the table of planted changes of DESIGN.md from seeded/*/meta.json
(a documentation tool; no check uses it)."""
import glob
import json
import os
import re

ROOT = os.path.dirname(os.path.abspath(__file__))
# checks that were strengthened because they missed the change at first
MISSED_FIRST = {
    'C07-names-kept': 'groups of one hierarchy converted after another',
    'C08-concept': 'concept records without the records they refer to',
    'C08-unknown-type': 'element types the library does not know',
    'C14-disconnect': 'disconnect over sets and kinds with shared nodes',
    'C15-complex-real': 'complex results with zero imaginary part',
    'C16-position': 'attribute queries for sets with unordered members',
    'C01-split': 'records that fill the last line exactly (`full=`)',
    'C17-freqs-by-ref': 'reference numbers that differ from the order',
    'C17-near-freqs': 'axes whose values lie close together',
    'C18-second-body-sections': 'section forces of the second body',
    'C25-at-header': 'input/output error at every operation, not only every second',
    'C21-unsupported': 'a call with a piece that is refused',
}
rows = ['', '| change | property | needs | caught by |', '|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    name = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    by = m['property']
    if name in MISSED_FIRST:
        by += ' (missed at first; added: %s)' % MISSED_FIRST[name]
    rows.append('| %s | %s | %s | %s |' % (
        name, m['property'], m['needs'].replace('|', '/'), by))
rows += ['', 'Changes that the existing tests notice, and changes that turned '
         'out to keep the behaviour, were dropped.', '']
p = os.path.join(ROOT, 'DESIGN.md')
s = open(p).read()
s = re.sub(r'(<!-- seeded -->\n).*(<!-- end of seeded -->)',
           lambda m: m.group(1) + '\n'.join(rows) + m.group(2), s,
           flags=re.S)
open(p, 'w').write(s)

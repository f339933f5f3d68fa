"""Writes MANIFEST.json: one check per module mc/cNN.py, the properties
without one are listed as not applicable (run: python3 tools_manifest.py)."""
import ast
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python -m mc.run '

TECH = ('explicit-state / stateless model checking: bounded exhaustive '
        'enumeration of %s executed on the real code against an independent '
        'reference model')

WHAT = {
    'C01': 'record sequences and physical layouts',
    'C02': 'record sequences',
    'C03': 'interleavings of supported and unsupported records',
    'C04': 'record selections',
    'C05': 'conversion histories',
    'C06': 'conversion histories of one target file (BFS over its states)',
    'C07': 'superelement hierarchies and subsets of missing files',
    'C08': 'cut-off points and invalid records (fault enumeration)',
    'C09': 'hierarchies, levels, indices and matrices',
    'C10': 'open/close/query sequences',
    'C11': 'sets of stored data sets',
    'C12': 'set definitions and selections',
    'C13': 'small meshes and selections',
    'C14': 'small result files and queries',
    'C15': 'small result files and queries',
    'C16': 'property tables, record orders and selections',
    'C17': 'hydrodynamic result layouts',
    'C18': 'body, matrix and panel configurations',
    'C19': 'query sequences (with modification of returned data)',
    'C20': 'piece and data block configurations',
    'C21': 'call sequences (BFS over the writer states)',
    'C22': 'stress tensors of a lattice and array shapes',
    'C23': 'value arrays and small meshes',
    'C24': 'file kinds, names and queries',
    'C25': 'failing file operations (fault injection at every point)',
    'C26': 'write and read calls on sequential files',
    'C27': 'file names and ways to name a path',
    'C28': 'sequences of opening, closing and converting',
}

checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    mod = os.path.join(HERE, 'mc', i.lower() + '.py')
    if not os.path.exists(mod):
        na.append({'property': i, 'reason': 'no check built yet'})
        continue
    tree = ast.parse(open(mod).read())
    c = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in (
                'BOUNDS', 'ASSUMPTIONS'):
            c[n.targets[0].id] = ast.literal_eval(n.value)
    b = c['BOUNDS']['quick']
    note = ('Every execution within the bounds is run on the code itself '
            'and compared step by step with the reference model. Bounds '
            '(quick): %s. Assumes: %s.' % (
                '; '.join('%s: %s' % kv for kv in b.items()),
                '; '.join(c.get('ASSUMPTIONS', [])) or
                'behaviour outside the bounds follows the small scope '
                'hypothesis'))
    checks.append({
        'property': i, 'quick_cmd': PY + i,
        'thorough_cmd': PY + i + ' --tier thorough',
        'evidence_file': 'evidence/%s.json' % i,
        'technique': TECH % WHAT[i],
        'level': 'model_checking',
        'level_note': re.sub(r'\s+', ' ', note)})
out = {'version': 1,
       'setup_cmd': '/opt/venv/bin/python -c "import mc.core; '
                    'mc.core.import_freesif()"',
       'checks': checks, 'not_applicable': na,
       'notes': 'The code under test is imported from /repo as it is; no '
                'hooks. See DESIGN.md.'}
json.dump(out, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')

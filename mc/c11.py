"""C11: a File is a faithful mapping of the data sets stored on it.

Space: all sequences of appending conversions of up to k sources (all kinds of
data, hierarchies of models and results, prefixes that resemble other names)
into one file, with the file opened (twice at the same time, and again after
closing) after each of them.  Every way of looking at the mapping is compared
with the set of data sets of the model.
"""
import os
import shutil

import numpy as np
import tables as tb

from . import c06, hier, hydro, mesh, records, sesam
from .common import fs, must_convert, write_file
from .core import Violation

PROPERTY = 'C11'
BOUNDS = {
    'quick': {'sequences': 'all sequences of <=3 out of 11 sources with '
              'different group names', 'openings': 'opened 3 times, two of '
              'them at the same time'},
    'thorough': {'sequences': 'all sequences of <=4 out of 14 sources',
                 'openings': 'as quick'},
}
RULE = ('state = set of data sets of a file with their kinds; transition = '
        'one look at the mapping')
ASSUMPTIONS = ['files were written by sif2hdf5 only']

UNKNOWN = ('T', 'R1', 'T1/T1', 'R10/', '/R10', 'R10/R1', '', 'R1_1', 'x')


def _single(d, name, seed, no, letter='T'):
    return write_file(os.path.join(d, name), c06.lean(seed, no),
                      sesam.Layout(fmt='F'))


def _hydro(name, seed):
    return lambda d: write_file(os.path.join(d, name), hydro.simple(1, seed),
                                sesam.Layout(fmt='F'))


def _lean(name, seed, no):
    fmt = 'U' if name.endswith('SIU') else 'F'
    return lambda d: write_file(os.path.join(d, name), c06.lean(seed, no),
                                sesam.Layout(fmt=fmt))


def _hier(shape, letter, prefix='', missing=()):
    return lambda d: hier.write(d, hier.SHAPES[shape], letter, 'F',
                                missing=missing, prefix=prefix)


def lean_numbers(seed):
    return [10 * seed + i for i in range(seed % 3 + 1)]


def hier_data(shape, letter, prefix='', missing=()):
    """[(key, class, expected node numbers or None)]"""
    shp = hier.SHAPES[shape]
    out = []
    for g, (a, recs) in hier.expected(shp, letter, missing, prefix).items():
        cls = {'TOPLEVEL': 'TopLevelData', 'INTERLEVEL': 'InterLevelData',
               'FIRSTLEVEL': 'FirstLevelData'}[a['LEVEL']]
        nod = None
        if cls == 'FirstLevelData':
            nod = [int(r.head[0]) for r in recs if r.name == 'GNODE']
        out.append((g[1:], cls, nod, a['SELTYP']))
    return out


F1 = 'FirstLevelData'
SRC = {
    'T1': (_lean('T1.FEM', 11, 1), [('T1', F1, lean_numbers(11), 1)]),
    'xT1': (_lean('xT1.FEM', 13, 1), [('xT1', F1, lean_numbers(13), 1)]),
    'R1': (_lean('R1.SIU', 16, 1), [('R1', F1, lean_numbers(16), 1)]),
    'T12': (_lean('T12.FEM', 15, 12), [('T12', F1, lean_numbers(15), 12)]),
    'G1': (_hydro('G1.SIF', 3), [('G1', 'HydroData', .375, None)]),
    'T1_G1': (_hydro('T1_G1.SIF', 5),
              [('T1_G1', 'HydroData', .625, None)]),
    'L1': (_lean('L1.FEM', 20, 1), [('L1', F1, lean_numbers(20), 1)]),
    'R10': (_hier('two_level', 'R'), hier_data('two_level', 'R')),
    'a-R10': (_hier('two_same', 'R', 'a-', (2,)),
              hier_data('two_same', 'R', 'a-', (2,))),
    'T100': (_hier('three_bf', 'T'), hier_data('three_bf', 'T')),
    'R7': (_hier('one_level', 'R'), hier_data('one_level', 'R')),
    # thorough
    'zT200': (_hier('four', 'T', 'z'), hier_data('four', 'T', 'z')),
    'R100': (_hier('mixed', 'R'), hier_data('mixed', 'R')),
    'T10': (_hier('two_level', 'T', '', (1, 2, 3)),
            hier_data('two_level', 'T', '', (1, 2, 3))),
}
QUICK = list(SRC)[:11]


def scenarios(tier):
    names, depth = (QUICK, 3) if tier == 'quick' else (list(SRC), 4)
    for a in names:
        for b in names:
            if a != b:
                yield {'first': a, 'second': b, 'names': names,
                       'depth': depth}


def look(env, f, model, what, other=None):
    """compare every view of the mapping with the model"""
    keys = sorted(k for k, _, _, _ in model)
    env.step(6)

    def bad(s):
        raise Violation('%s: %s' % (what, s))

    if sorted(f.keys()) != keys:
        bad('keys are %s, expected %s' % (sorted(f.keys()), keys))
    items = list(f.items())
    if sorted(k for k, _ in items) != keys:
        bad('items have keys %s' % sorted(k for k, _ in items))
    d = dict(items)
    for name, seq in (('values', f.values()), ('iteration', f)):
        seq = list(seq)
        if len(seq) != len(keys) or set(map(id, seq)) != \
                set(map(id, d.values())):
            bad('%s differ from the items' % name)
    for k, cls, mark, seltyp in model:
        obj = f[k]
        if obj is not d[k] or f.get(k) is not obj or \
                f.get(k, 5) is not obj or k not in f:
            bad('views of %r differ' % k)
        if type(obj).__name__ != cls:
            bad('%r is a %s, expected %s' % (k, type(obj).__name__, cls))
        if obj.file is not f or obj.name != k.split('/')[-1]:
            bad('%r has name %r and file %r' % (k, obj.name, obj.file))
        if cls == F1:
            got = [int(x) for x in obj.get_nodenumbers()]
            if got != mark:
                bad('%r has the nodes %s, expected %s' % (k, got, mark))
        elif cls == 'HydroData':
            got = float(obj.get_angular_freqs()[0])
            if got != mark:
                bad('%r has first frequency %s, expected %s' % (
                    k, got, mark))
        elif obj.get_setnames() is not None:
            bad('%r has sets' % k)
        word = {'TopLevelData': 'toplevel', 'InterLevelData': 'interlevel',
                'FirstLevelData': 'firstlevel',
                'HydroData': 'hydrodynamic'}[cls]
        lines = [x for x in str(f).splitlines() if repr(k) in x]
        if len(lines) != 1 or word not in lines[0].lower():
            bad('str has lines %r for %r (%s)' % (lines, k, cls))
        if str(obj) not in lines[0]:
            bad('str of %r is %r, in the file %r' % (k, str(obj), lines))
        if repr(obj) not in repr(f) or obj.name not in repr(obj):
            bad('repr of %r is %r, of the file %r' % (k, repr(obj), repr(f)))
    for s in (str(f), repr(f)):
        if len([x for x in s.splitlines() if x.strip()]) != len(keys):
            bad('%r has not one line per data set' % s)
    for k in UNKNOWN:
        if k in keys:
            continue
        if k in f:
            bad('%r is in the file' % k)
        if f.get(k) is not None or f.get(k, 7) != 7:
            bad('get(%r) gives %r' % (k, f.get(k)))
        try:
            x = f[k]
        except KeyError:
            pass
        else:
            bad('[%r] gives %r' % (k, x))
    if other is not None and any(other[k] is f[k] for k in keys):
        bad('two openings share data sets')
    env.state(sorted((k, c) for k, c, _, _ in model))


def check(env, h5name, model, what):
    m = fs().open_hdf5(h5name)
    look(env, m, model, what + ', first opening')
    n = fs().open_hdf5(h5name, 'r')
    look(env, n, model, what + ', second opening', m)
    look(env, m, model, what + ', first opening again', n)
    m.close()
    look(env, n, model, what + ', second opening after closing the first')
    n.close()
    from freesif.data.file import File
    q = File(tb.open_file(h5name, 'r'))
    look(env, q, model, what + ', opened from a tables file')
    q.close()
    env.trace()
    env.outcome('%d data sets' % len(model))


def run(p, env):
    src = {}
    for n in p['names']:
        src[n] = SRC[n][0](env.path())
    d = env.path()

    def go(seq, cur, model):
        n = seq[-1]
        new = os.path.join(d, '_'.join(seq) + '.h5')
        if cur:
            shutil.copy(cur, new)
        must_convert(env, src[n], new, append=True)
        model = model + SRC[n][1]
        if len(seq) != 1 or p['second'] == min(
                x for x in p['names'] if x != seq[0]):
            check(env, new, model, 'file with %s' % ', '.join(seq))
        if len(seq) < p['depth']:
            for m in [p['second']] if len(seq) == 1 else p['names']:
                if m not in seq:
                    go(seq + [m], new, model)
        os.unlink(new)

    go([p['first']], None, [])

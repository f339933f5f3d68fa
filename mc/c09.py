"""C09: node coordinates are transformed by exactly the requested
transformation.

Space: all hierarchies of a bounded grammar and a set of named ones (up to
four levels, first level superelements on different depths), models and
results; for every first level data set every level (and levels that do not
exist), every index (and ones that do not exist), with and without transformation
records; all kinds of selections; matrices out of a catalogue.  All numbers
are small integers so that the expected coordinates are exact.
"""
import os

import numpy as np

from . import c07, hier, mesh, records, sesam
from .common import fs, must_convert, write_file
from .core import Violation

PROPERTY = 'C09'
BOUNDS = {
    'quick': {'hierarchies': 'grammar with top level sequences of <=2 (see '
              'C07), depth and breadth first, both index orders; 9 named '
              'ones; models and results',
              'requests': 'levels -1..top+1, "top", indices 1..n+2, unknown '
              'superelement types',
              'matrices': '24 matrices x 4 selections, 6 invalid shapes, '
              '12 values that are neither level nor matrix'},
    'thorough': {'hierarchies': 'grammar with top level sequences of <=3',
                 'requests': 'as quick', 'matrices': 'as quick'},
}
RULE = ('state = (hierarchy, request, outcome); transition = one query')
ASSUMPTIONS = ['on level 1 the transformation is the identity for any index']


def scenarios(tier):
    for shape in hier.SHAPES:
        for letter in 'RT':
            for tran in (True, False):
                for rtran in (True, False) if letter == 'R' else (True,):
                    yield {'kind': 'named', 'shape': shape, 'letter': letter,
                           'tran': tran, 'rtran': rtran}
    for top in (10, 100):
        for letter in 'RT':
            for share in (None, 1, 2):
                yield {'kind': 'several', 'top': top, 'letter': letter,
                       'share': share}
    for share in (1, 2, 3):
        for letter in 'RT':
            yield {'kind': 'shared', 'share': share, 'letter': letter}
    yield {'kind': 'matrix'}
    yield {'kind': 'single'}
    block = []
    for top, subs in c07.shapes(2 if tier == 'quick' else 3):
        block.append([list(top), sorted([k, list(v)]
                                        for k, v in subs.items())])
        if len(block) == 6:
            yield {'kind': 'grammar', 'block': block}
            block = []
    if block:
        yield {'kind': 'grammar', 'block': block}


def apply(xyz, m):
    out = []
    for p in xyz:
        v = list(p) + [1.]
        out.append([sum(v[k] * m[k][c] for k in range(4)) for c in range(3)])
    return out


def same(got, want):
    got = np.asarray(got)
    return got.shape == (len(want), 3) and np.array_equal(
        got, np.array(want, dtype='f4').reshape(-1, 3))


def query(env, what, want, fn, *args, **kw):
    """want: expected coordinates, or None if it has to fail"""
    env.step()
    try:
        got = fn(*args, **kw)
    except Exception as e:
        if want is not None:
            raise Violation('%s failed: %s: %s' % (what, type(e).__name__, e))
        env.outcome('error ' + type(e).__name__)
        env.state((what, 'error'))
        return
    if want is None:
        raise Violation('%s gives %r, there is no such transformation' % (
            what, np.asarray(got)[:2].tolist()))
    if not same(got, want):
        raise Violation('%s gives %r, expected %r' % (
            what, np.asarray(got).tolist(), want))
    env.outcome('coordinates')
    env.state((what, want[:1]))


def conv(env, shape, letter, tran=True, rtran=True):
    d = env.path()
    fmt = 'FU'[len(shape) % 2]
    src = hier.write(d, shape, letter, fmt, tran=tran)
    if not rtran:
        for k, base in hier.lower_files(shape, letter):
            write_file(os.path.join(d, base + '.' + hier.ext_of(letter, fmt)),
                       hier.lower_records(shape, letter, k, rtran=False),
                       sesam.Layout(fmt=fmt))
    return must_convert(env, src, os.path.join(d, 'out.h5'), what=str(shape))


def check_hierarchy(env, shape, letter, tran=True, rtran=True, brief=False):
    name = conv(env, shape, letter, tran, rtran)
    f = fs().open_hdf5(name)
    try:
        check_open(env, f, shape, letter, tran, rtran, brief)
        if len(shape) > 1 and tran:
            toplevel(env, f, shape, letter)
    finally:
        f.close()
    env.trace()


def check_open(env, f, shape, letter, tran=True, rtran=True, brief=False,
               prefix='', keep=None):
    """all first level data sets of one hierarchy in an open file; `keep` is
    a dictionary of data objects that are used again"""
    top = shape[0][2]
    levels = list(range(-1, top + 2)) + ['top', 'Top']
    for k, base in hier.lower_files(shape, letter):
        typ, ind, lev, par = shape[k]
        if lev != 1:
            continue
        key = '%s%s%d/%s%d' % (prefix, letter, shape[0][0], letter, typ)
        if letter == 'R':
            key += '_%d' % ind
        if keep is None:
            data = f[key]
        else:
            data = keep.setdefault((id(f), key), f[key])
        n = 3 if letter == 'R' else 3 + k % 3
        xyz = hier.coords(hier.seed_of(k), n)
        what = '%s of %s%s: get_nodes(' % (
            key, shape, '' if tran else ' without HSUPTRAN')
        query(env, what + ')', xyz, data.get_nodes)
        maxind = max(r[1] for r in shape if r[0] == typ)
        for level in levels:
            for i in [None] + list(range(1, maxind + 3)):
                own = ind if letter == 'R' else (i or 1)
                w = what + 'trans=%r, index=%s)' % (level, i)
                kw = {} if i is None else {'index': i}
                if level == 'top' and letter == 'R' and rtran:
                    want = apply(xyz, hier.matrix(k))
                elif level == 1 and not tran:
                    continue
                elif level == 'Top' or not tran:
                    want = None
                else:
                    if level == 1 and letter == 'T' and i and i > maxind:
                        continue
                    m = hier.transformation(shape, typ, own, level)
                    want = apply(xyz, m) if m else None
                query(env, w, want, data.get_nodes, trans=level, **kw)
                if i is None and not isinstance(level, str):
                    query(env, w + ' (numpy)', want, data.get_nodes,
                          trans=np.int64(level))
                if i == 1 and not brief:
                    sel = dict(kind='beam', disconnected=True)
                    w2 = None
                    if want is not None:
                        w2 = []
                        for j in range(n - 1):
                            w2 += [want[j], want[j+1]]
                    query(env, w + ' beams', w2, data.get_nodes,
                          trans=level, index=i, **sel)


def toplevel(env, f, shape, letter, prefix=''):
    t = f['%s%s%d' % (prefix, letter, shape[0][0])]
    top = shape[0][2]
    for typ in sorted(set(r[0] for r in shape)) + [777]:
        for i in range(0, 4):
            for level in list(range(-1, top + 2)) + ['top']:
                have = any(r[:2] == (typ, i) for r in shape)
                row = [r for r in shape if r[:2] == (typ, i)]
                if level == 1 and (not have or row[0][2] != 1):
                    continue
                if have and row[0][2] != 1:
                    continue     # not a first level superelement
                m = hier.transformation(shape, typ, i, level)
                env.step()
                w = 'get_transformation(%s, %s, %r) of %s' % (
                    typ, i, level, shape)
                try:
                    got = t.get_transformation(typ, i, level)
                except Exception as e:
                    if m is not None:
                        raise Violation('%s failed: %s: %s' % (
                            w, type(e).__name__, e))
                    continue
                if m is None:
                    raise Violation('%s gives %s' % (w, got.tolist()))
                if not np.array_equal(got, np.array(m)):
                    raise Violation('%s gives %s, expected %s' % (
                        w, got.tolist(), m))
                if level == 'top':
                    g2 = t.get_transformation(typ, i)
                    if not np.array_equal(g2, got):
                        raise Violation(w + ': default level is not the top')


MATRICES = [hier.matrix(k) for k in range(14)] + [
    hier.IDENTITY, hier.mul(hier.matrix(1), hier.matrix(3)),
    hier.mul(hier.matrix(3), hier.matrix(1)),
    [[0.] * 4] * 4, [[2., 0, 0, 0], [0, -3., 0, 0], [0, 0, .5, 0],
                     [0, 0, 0, 1.]],
    [[0, 0, 1., 0], [1., 0, 0, 0], [0, 1., 0, 0], [7, 8, 9, 1.]],
    [[1., 2, 3, 0], [4, 5, 6, 0], [7, 8, 9, 0], [0, 0, 0, 1]],
    # last column is not used for coordinates
    [[1., 0, 0, 5], [0, 1, 0, 6], [0, 0, 1, 7], [1, 1, 1, 9]],
    [[1., 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]],
    [[0, 1., 0, 0], [1., 0, 0, 0], [0, 0, -1., 0], [.5, .25, -.125, 1]]]


def run(p, env):
    if p['kind'] == 'named':
        shape = hier.SHAPES[p['shape']]
        if len(shape) > 1:
            check_hierarchy(env, shape, p['letter'], p['tran'], p['rtran'])
        return
    if p['kind'] == 'grammar':
        for top, subs in p['block']:
            for order in ('df', 'bf'):
                for rev in (False, True):
                    shape = c07.grammar(top, dict((k, v) for k, v in subs),
                                        order, rev)
                    for letter in 'RT':
                        check_hierarchy(env, shape, letter, brief=True)
        return
    if p['kind'] == 'shared':
        hier.SHARE = p['share']
        for name in sorted(hier.SHAPES):
            if len(hier.SHAPES[name]) > 1:
                check_hierarchy(env, hier.SHAPES[name], p['letter'],
                                brief=True)
        return
    if p['kind'] == 'several':
        return several(env, p['top'], p['letter'], p['share'])
    if p['kind'] == 'matrix':
        return matrices(env)
    single(env)


def several(env, top, letter, share):
    """hierarchies with equal top level numbers, in one file and in several
    files that are open at the same time, queried in turn"""
    names = sorted(n for n in hier.SHAPES if hier.SHAPES[n][0][0] == top)
    members = [(hier.SHAPES[n], 3 * j) for j, n in enumerate(names)]
    members.append((members[0][0], 3 * len(names)))
    hier.SHARE = share
    files = []
    for order in (1, -1):
        d = env.path()
        target = os.path.join(d, 'all.h5')
        for j, (shape, shift) in list(enumerate(members))[::order]:
            hier.SHIFT = shift
            sub = os.path.join(d, str(j))
            os.mkdir(sub)
            src = hier.write(sub, shape, letter, prefix='abcde'[j] + '_')
            must_convert(env, src, target, append=os.path.exists(target),
                         what=str(shape))
        files.append([(target, 'abcde'[j] + '_', m)
                      for j, m in enumerate(members)])
    for shape, shift in members:
        hier.SHIFT = shift
        files.append([(conv(env, shape, letter), '', (shape, shift))])
    opened = {}
    keep = {}
    try:
        for name in [x[0][0] for x in files]:
            opened[name] = fs().open_hdf5(name)
        allof = [m for x in files for m in x]
        # every pair of a hierarchy and the next one to be asked
        for turn in (allof, allof[::-1], allof[::2] + allof[1::2]):
            for name, prefix, (shape, shift) in turn:
                hier.SHIFT = shift
                check_open(env, opened[name], shape, letter, brief=True,
                           prefix=prefix, keep=keep)
                toplevel(env, opened[name], shape, letter, prefix)
                env.trace()
    finally:
        for f in opened.values():
            f.close()


def matrices(env):
    model = mesh.demo()
    name = must_convert(env, write_file(env.path('T5.FEM'), model.records(),
                                        sesam.Layout()),
                        os.path.join(env.path(), 'm.h5'))
    h = conv(env, hier.SHAPES['two_level'], 'T')
    r = conv(env, hier.SHAPES['two_level'], 'R')
    f, fh, fr = (fs().open_hdf5(x) for x in (name, h, r))
    sels = [{}, dict(disconnected=True), dict(kind='beam'),
            dict(sets=model.sets[0][0], disconnected=True)]
    for data, mod in ((f['T5'], model), (fh['T10/T1'], None),
                      (fr['R10/R1_2'], None)):
        for sel in sels:
            if mod is None and ('sets' in sel or 'kind' in sel):
                continue
            env.step()
            plain = np.asarray(data.get_nodes(**sel)).tolist()
            for k, m in enumerate(MATRICES):
                for dt in ('f8', 'f4', 'i8'):
                    if dt == 'i8' and np.any(np.array(m) % 1):
                        continue
                    for fo in 'CF':
                        a = np.array(m, dtype=dt, order=fo)
                        b = a.copy()
                        query(env, '%s get_nodes(%s, matrix %d %s)' % (
                            data.name, sel, k, dt), apply(plain, m),
                            data.get_nodes, trans=a, **sel)
                        if not np.array_equal(a, b):
                            raise Violation('the matrix has been modified')
            for shp in ((3, 3), (4, 3), (3, 4), (16,), (4, 4, 1), (1, 4, 4)):
                query(env, '%s matrix of shape %s' % (data.name, shp), None,
                      data.get_nodes, trans=np.ones(shp), **sel)
            for bad in (2., 1.5, 0.5, np.float64(1), b'top', 2j, (), (1, 2),
                        [1., 2., 3., 4.], [1] * len(plain), [[2.]],
                        [[1., 0, 0, 0]] * 3):
                query(env, '%s trans=%r' % (data.name, bad), None,
                      data.get_nodes, trans=bad, **sel)
            query(env, 'plain', plain, data.get_nodes, **sel)
        env.trace()
    for x in (f, fh, fr):
        x.close()


def single(env):
    """superelements that are not part of a hierarchy"""
    xyz = hier.coords(11)
    head = [records.irecsize(), records.hier_row(1, 4, 1, 1),
            records.iend(1), records.irecsize()]
    for letter in 'TR':
        for rs in (False, True) if letter == 'R' else (False,):
            recs = (head if letter == 'R' else []) + [records.ident(4)] + \
                hier.mesh(11) + ([hier.rsuptran(3)] if rs else []) + \
                [records.iend()]
            ext = '.FEM' if letter == 'T' else '.SIF'
            name = must_convert(env, write_file(
                env.path(letter + '4' + ext), recs, sesam.Layout()),
                os.path.join(env.path(), 's.h5'))
            f = fs().open_hdf5(name)
            data = f[letter + '4']
            for level in (-1, 0, 1, 2, 3, 'top', 'x'):
                for i in (1, 2):
                    want = None
                    if rs and level == 'top':
                        want = apply(xyz, hier.matrix(3))
                    query(env, 'single %s (RSUPTRAN %s): trans=%r, index=%d' %
                          (letter, rs, level, i), want, data.get_nodes,
                          trans=level, index=i)
            query(env, 'single: plain', xyz, data.get_nodes)
            query(env, 'single: matrix', apply(xyz, MATRICES[5]),
                  data.get_nodes, trans=np.array(MATRICES[5]))
            f.close()
            env.trace()

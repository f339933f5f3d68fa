"""C20: a vtu file contains exactly the data that was written to it.

Space: (a) all sequences of up to k elements of the six types, connected and
disconnected, with data per point, cell and element node; (b) the product of
data types, shapes, memory layouts and kinds of data, with the extreme values
of each type; (c) names and component names; (d) all sequences of up to 3
pieces of a set.  Files are decoded by an independent reader.
"""
import itertools

import numpy as np

from . import mesh, vtu
from .common import fs
from .core import Violation

PROPERTY = 'C20'
BOUNDS = {
    'quick': {'cells': 'all sequences of <=5 elements of 6 types, connected '
              'and disconnected', 'arrays': '10 data types x 7 shapes x 8 '
              'memory layouts x 3 kinds of data', 'names': '24 names, all '
              'pairs as (name, component name)',
              'pieces': 'all sequences of <=3 out of 5 pieces; 1 to 13 '
              'pieces with as many arrays of as many named components',
              'sizes': 'meshes of 100, 9000 and 20000 elements'},
    'thorough': {'cells': 'all sequences of <=6', 'arrays': 'as quick',
                 'names': 'as quick', 'pieces': 'all sequences of <=4'},
}
RULE = 'state = distinct file content; transition = one call of the writer'
ASSUMPTIONS = ['at least one cell per piece; names consist of characters that '
               'XML can represent; arrays have one row per point, cell or '
               'element node']

TYPES = (15, 23, 24, 25, 26, 28)


def cells(types, disconnected, dt=('i4', 'i4', 'i4')):
    con, off = [], []
    for i, t in enumerate(types):
        n = mesh.NN[t]
        con += [len(con) + j if disconnected else (7 * j + 3 * i) % 11
                for j in range(n)]
        if disconnected:
            con[-n:] = range(len(con) - n, len(con))
        off.append(len(con))
    npts = len(con) if disconnected else 11
    return npts, (np.array(con, dt[0]), np.array(off, dt[1]),
                  np.array(types, dt[2]))


def pts(n, dt='f4'):
    return (np.arange(3 * n).reshape(n, 3) * 1.25 - 7).astype(dt)


def frozen(arrs):
    return [(a, a.dtype, a.shape, a.tobytes()) for a in arrs]


def unchanged(fz, what):
    for a, dt, shape, b in fz:
        if a.dtype != dt or a.shape != shape or a.tobytes() != b:
            raise Violation('%s: an array of the caller was changed' % what)


def scenarios(tier):
    n = 5 if tier == 'quick' else 6
    for a in TYPES:
        for b in TYPES:
            yield {'kind': 'cells', 'first': [a, b], 'n': n}
    for dt in DTYPES:
        yield {'kind': 'arrays', 'dtype': dt}
    for k in range(len(NAMES)):
        yield {'kind': 'names', 'k': k}
    for n in (100, 9000, 20000):
        yield {'kind': 'large', 'n': n}
    yield {'kind': 'many'}
    for k in range(5):
        yield {'kind': 'pieces', 'first': k,
               'n': 3 if tier == 'quick' else 4}


def run(p, env):
    globals()['run_' + p['kind']](p, env)


def write(env, path, calls, what):
    """calls: [(method, args)]; the caller's arrays must not change"""
    arrs = []
    for _, args in calls:
        for a in args:
            arrs += [x for x in (a if isinstance(a, tuple) else [a])
                     if isinstance(x, np.ndarray)]
    fz = frozen(arrs)
    w = fs().utils.VtuWriter(path)
    for name, args in calls:
        env.step()
        try:
            getattr(w, name)(*args)
        except Exception as e:
            raise Violation('%s: %s: %s: %s' % (
                what, name, type(e).__name__, e))
    w.close()
    unchanged(fz, what)
    env.trace()
    try:
        out = vtu.read(path)
    except Violation as e:
        raise Violation('%s: %s' % (what, e))
    env.state(open(path, 'rb').read())
    return out


def block(d, k, tag, n, what):
    if len(d['blocks']) <= k or d['blocks'][k][0] != tag or \
            len(d['blocks'][k][1]) != n:
        raise Violation('%s: blocks are %s' % (
            what, [(t, len(a)) for t, a in d['blocks']]))
    return d['blocks'][k][1]


def run_cells(p, env):
    path = env.path('x.vtu')
    seqs = [p['first']]
    if p['first'][1] == TYPES[0]:
        seqs.append(p['first'][:1])
    for n in range(1, p['n'] - 1):
        seqs += [p['first'] + list(t)
                 for t in itertools.product(TYPES, repeat=n)]
    for k, types in enumerate(seqs):
        for disc in (False, True):
            dt = (('i4', 'i8', 'i4'), ('i8', 'i4', 'i8'))[k % 2]
            npts, c = cells(types, disc, dt)
            what = 'cells %s disconnected %s' % (types, disc)
            points = pts(npts, ('f4', 'f8')[k % 2])
            pd = np.arange(2 * npts).reshape(-1, 2) * .5
            cd = np.arange(len(types)) * 3
            er = np.arange(3 * len(c[0]), dtype='f4').reshape(-1, 3)
            e1 = np.arange(len(c[0])) * 10
            if k % 3 == 0:
                for a in (points, pd, cd, er, e1) + c:
                    a.flags.writeable = False
            calls = [('new_piece', (points, c)), ('start_pointdata', ()),
                     ('add_data', (pd, 'point'))]
            if disc:
                calls += [('add_data_cellpoints', (er, 'enode')),
                          ('add_data_cellpoints', (e1, 'enode1'))]
            calls += [('start_celldata', ()), ('add_data', (cd, 'cell'))]
            out = write(env, path, calls, what)
            if len(out) != 1:
                raise Violation('%s: %d pieces' % (what, len(out)))
            vtu.same_piece(out[0], points, c, what)
            b = block(out[0], 0, 'PointData', 3 if disc else 1, what)
            vtu.same_array(b[0], 'point', pd, None, what)
            if disc:
                for got, name, arr in ((b[1], 'enode', er),
                                       (b[2], 'enode1', e1)):
                    vtu.same_array(got, name, arr, None, what, vtu.reorder(
                        arr.tolist(), c[1], c[2], vtu.RES))
            b = block(out[0], 1, 'CellData', 1, what)
            vtu.same_array(b[0], 'cell', cd, None, what)
            if len(out[0]['blocks']) != 2:
                raise Violation('%s: %d blocks' % (
                    what, len(out[0]['blocks'])))
    env.outcome('cells')


DTYPES = ['i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8', 'f4', 'f8']
SHAPES = [None, 1, 2, 3, 5, 6, 9]
LAYOUTS = ['C', 'F', 'strided', 'reversed', 'bigendian', 'transposed',
           'readonly', 'view']


def values(dt, n):
    """n values of the type, extremes first"""
    t = np.dtype(dt)
    if t.kind == 'f':
        f = np.finfo(t)
        v = [0., -0., 1.5, -1 / 3., f.max, f.min, f.tiny, np.inf, -np.inf,
             np.nan, 1e-40, 255., 2.**24 + 1]
    else:
        i = np.iinfo(t)
        v = [0, 1, i.max, i.min, i.max - 1, 10, 60, 38, 34, 62, 127]
    return np.array([v[k % len(v)] for k in range(n)], dt)


def layout(a, how):
    if how == 'C':
        return a.copy()
    if how == 'F':
        return np.asfortranarray(a)
    if how == 'strided':
        b = np.zeros((2 * len(a),) + a.shape[1:], a.dtype)
        b[::2] = a
        return b[::2]
    if how == 'reversed':
        return a[::-1].copy()[::-1]
    if how == 'bigendian':
        return a.astype(a.dtype.newbyteorder('>'))
    if how == 'transposed':
        return a.T.copy().T
    if how == 'readonly':
        b = a.copy()
        b.flags.writeable = False
        return b
    b = np.zeros((len(a) + 2,) + tuple(x + 1 for x in a.shape[1:]), a.dtype)
    b[(slice(1, -1),) + (slice(1, None),) * (a.ndim - 1)] = a
    return b[(slice(1, -1),) + (slice(1, None),) * (a.ndim - 1)]


def run_arrays(p, env):
    dt = p['dtype']
    path = env.path('x.vtu')
    types = [26, 24, 28]
    npts, c = cells(types, True)
    points = pts(npts)
    for shape in SHAPES:
        for lay in LAYOUTS:
            calls = [('new_piece', (layout(points, lay), c))]
            arrs = []
            for n in (npts, len(types), npts):
                a = values(dt, n * (shape or 1))
                if shape:
                    a = a.reshape(n, shape)
                arrs.append(layout(a, lay))
            what = '%s arrays of %s components, %s' % (dt, shape, lay)
            calls += [('start_celldata', ()), ('add_data', (arrs[1], 'c')),
                      ('start_pointdata', ()), ('add_data', (arrs[0], 'p')),
                      ('add_data_cellpoints', (arrs[2], 'e'))]
            out = write(env, path, calls, what)
            vtu.same_piece(out[0], points, c, what)
            b = block(out[0], 0, 'CellData', 1, what)
            vtu.same_array(b[0], 'c', arrs[1], None, what)
            b = block(out[0], 1, 'PointData', 2, what)
            vtu.same_array(b[0], 'p', arrs[0], None, what)
            rows = vtu.reorder(list(np.asarray(arrs[2])), c[1], c[2], vtu.RES)
            vtu.same_array(b[1], 'e', arrs[2], None, what,
                           [r.astype(r.dtype.newbyteorder('='))
                            for r in rows])
    # points and cells in all layouts and types
    if np.dtype(dt).kind == 'f':
        for lay in LAYOUTS:
            q = layout(pts(npts, dt), lay)
            out = write(env, path, [('new_piece', (q, c))], 'points')
            vtu.same_piece(out[0], q.astype(dt), c, 'points ' + lay)
    else:
        for lay in LAYOUTS:
            cc = tuple(layout(x.astype(dt), lay) for x in c)
            out = write(env, path, [('new_piece', (points, cc))], 'cells')
            vtu.same_piece(out[0], points, cc, 'cells ' + lay)
    env.outcome('arrays ' + dt)


NAMES = ['x', 'a b', '<', '>', '&', '"', "'", '"\'', '&lt;', '<!--', ']]>',
         u'\xe6\xf8\xe5', u'\u03c3xx', u'\U0001f600', 'a\nb', 'a\tb', 'a\rb',
         ' lead', 'trail ', '', '1', '%s', '\\n', '/>']


def run_names(p, env):
    path = env.path('x.vtu')
    npts, c = cells([24, 15], False)
    points = pts(npts)
    a = NAMES[p['k']]
    for b in NAMES:
        what = 'names %r %r' % (a, b)
        pd = np.arange(2 * npts, dtype='f4').reshape(-1, 2)
        cd = np.arange(2, dtype='i4')
        out = write(env, path, [
            ('new_piece', (points, c)), ('start_pointdata', ()),
            ('add_data', (pd, a, (b, a))), ('add_data', (pd, b, [b, 'y'])),
            ('start_celldata', ()), ('add_data', (cd, a, [b]))], what)
        got = block(out[0], 0, 'PointData', 2, what)
        vtu.same_array(got[0], a, pd, [b, a], what)
        vtu.same_array(got[1], b, pd, [b, 'y'], what)
        got = block(out[0], 1, 'CellData', 1, what)
        vtu.same_array(got[0], a, cd, [b], what)
    env.outcome('names')


def run_pieces(p, env):
    path = env.path('x.vtu')
    pool = [([15], True), ([26, 28], True), ([24, 25], False),
            ([23, 15, 23], False), ([28, 26, 26], True)]
    seqs = [[p['first']] + list(t) for n in range(p['n'])
            for t in itertools.product(range(5), repeat=n)]
    for seq in seqs:
        calls, exp = [], []
        for pos, k in enumerate(seq):
            types, disc = pool[k]
            npts, c = cells(types, disc)
            points = pts(npts) + np.float32(pos)
            er = np.arange(len(c[0])) + 100 * pos
            pd = np.arange(npts) * (pos + 2.)
            cd = np.arange(len(types), dtype='u2') + pos
            calls.append(('new_piece', (points, c)))
            want = []
            if (k + pos) % 3 != 0:
                calls += [('start_pointdata', ()), ('add_data', (pd, 'p'))]
                want.append(('PointData', [('p', pd, None)]))
                if disc:
                    calls.append(('add_data_cellpoints', (er, 'e')))
                    want[-1][1].append(('e', er, vtu.reorder(
                        er.tolist(), c[1], c[2], vtu.RES)))
            if (k + pos) % 2:
                calls += [('start_celldata', ()), ('add_data', (cd, 'c'))]
                want.append(('CellData', [('c', cd, None)]))
            exp.append((points, c, want))
        what = 'pieces %s' % seq
        out = write(env, path, calls, what)
        if len(out) != len(exp):
            raise Violation('%s: %d pieces' % (what, len(out)))
        for pos, (d, (points, c, want)) in enumerate(zip(out, exp)):
            w = '%s, piece %d' % (what, pos)
            vtu.same_piece(d, points, c, w)
            if len(d['blocks']) != len(want):
                raise Violation('%s: blocks %s' % (w, d['blocks']))
            for i, (tag, arrs) in enumerate(want):
                got = block(d, i, tag, len(arrs), w)
                for g, (name, arr, rows) in zip(got, arrs):
                    vtu.same_array(g, name, arr, None, w, rows)
    env.outcome('pieces')


def run_large(p, env):
    """meshes with many elements of all types in a mixed order"""
    path = env.path('x.vtu')
    n = p['n']
    types = [TYPES[(k * k + k // 7) % 6] for k in range(n)]
    for disc in (True, False):
        npts, c = cells(types, disc, ('i8', 'i4', 'i4'))
        if not disc:
            npts = len(c[0]) // 2
            c = (c[0] * 7919 % npts,) + c[1:]
        what = '%d elements, disconnected %s' % (n, disc)
        points = pts(npts, 'f8')
        pd = np.arange(npts * 6, dtype='f4').reshape(-1, 6)
        er = np.arange(5 * len(c[0]), dtype='i4').reshape(-1, 5)
        e1 = np.arange(len(c[0])) * .25
        cd = np.arange(n)
        calls = [('new_piece', (points, c)), ('start_pointdata', ()),
                 ('add_data', (pd, 'point'))]
        if disc:
            calls += [('add_data_cellpoints', (er, 'er')),
                      ('add_data_cellpoints', (e1, 'e1'))]
        calls += [('start_celldata', ()), ('add_data', (cd, 'cell'))]
        out = write(env, path, calls, what)
        vtu.same_piece(out[0], points, c, what)
        b = block(out[0], 0, 'PointData', 3 if disc else 1, what)
        vtu.same_array(b[0], 'point', pd, None, what)
        if disc:
            for got, name, arr in ((b[1], 'er', er), (b[2], 'e1', e1)):
                vtu.same_array(got, name, arr, None, what, vtu.reorder(
                    arr.tolist(), c[1], c[2], vtu.RES))
        b = block(out[0], 1, 'CellData', 1, what)
        vtu.same_array(b[0], 'cell', cd, None, what)
    env.outcome('large')


def run_many(p, env):
    """many pieces, arrays and named components"""
    path = env.path('x.vtu')
    npts, c = cells([26, 15], True)
    points = pts(npts)
    for n in range(1, 14):
        calls, exp = [], []
        for k in range(n):
            calls.append(('new_piece', (points + np.float32(k), c)))
            want = []
            for tag, m in (('start_pointdata', npts), ('start_celldata', 2)):
                calls.append((tag, ()))
                want.append([])
                for j in range(n):
                    a = (np.arange(m * n) + 100 * j + k).reshape(m, n) * 1.
                    cn = ['comp %d of %d' % (i, j) for i in range(n)]
                    calls.append(('add_data', (a, 'array %d' % j, cn)))
                    want[-1].append(('array %d' % j, a, cn))
            exp.append(want)
        what = '%d pieces, arrays and components' % n
        out = write(env, path, calls, what)
        if len(out) != n:
            raise Violation('%s: %d pieces' % (what, len(out)))
        for k, want in enumerate(exp):
            vtu.same_piece(out[k], points + np.float32(k), c, what)
            for i, tag in enumerate(('PointData', 'CellData')):
                got = block(out[k], i, tag, n, what)
                for g, (name, a, cn) in zip(got, want[i]):
                    vtu.same_array(g, name, a, cn, what)
    env.outcome('many')

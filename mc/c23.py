"""C23: extreme values and element node positions are found correctly.

Space: (a) all small arrays of a few values, of several shapes and types, over
every axis; (b) all models of up to k elements with all pairs of (element,
node) numbers, existing or not, looked up one by one, in all ordered pairs and
all together, for several selections.
"""
import itertools

import numpy as np

from . import mesh
from .core import Violation

PROPERTY = 'C23'
BOUNDS = {
    'quick': {'extreme values': 'all arrays of shape (1), (2), (3), (2,2), '
              '(1,3), (3,2), (2,1,2) with 5 values; 5 data types with their '
              'limits; every axis and pair of axes; all triples of 14 values '
              'that are close to each other or extreme; 3 arrays of 70000 '
              'values',
              'lookup': 'all sequences of <=3 elements out of 8 templates; '
              'all (element, node) pairs, in ordered pairs; 3 meshes of up '
              'to 20000 elements, pairs next to powers of 2 and at the ends'},
    'thorough': {'extreme values': 'also (2,2,2) and (4) with 5 values, '
                 '(3,3) with 3', 'lookup': 'all sequences of <=4 elements'},
}
RULE = ('state = distinct array or model; transition = one evaluation or '
        'lookup')
ASSUMPTIONS = ['element and node numbers are unique; data are disconnected']

TYPES = ['f8', 'f4', 'i8', 'i1', 'u1']


def vals(dt, n):
    t = np.dtype(dt)
    if t.kind == 'f':
        return [0., -1.5, 1.5, 2., -3.][:n]
    i = np.iinfo(t)
    if t.kind == 'u':
        return [0, 1, 2, i.max, i.max - 1][:n]
    return [0, i.min, i.max, -1, -i.max][:n] if dt == 'i1' else \
        [0, -2, 2, 3, -4][:n]


def axes(nd):
    return [None] + list(range(-nd, nd)) + list(
        itertools.combinations(range(nd), 2))


SHAPES = [((1,), 5), ((2,), 5), ((3,), 5), ((2, 2), 5), ((1, 3), 5),
          ((3, 2), 5), ((2, 1, 2), 5)]
TSHAPES = [((2, 2, 2), 4), ((4,), 5), ((3, 3), 3), ((2, 4), 4)]


def scenarios(tier):
    for shape, n in SHAPES + (TSHAPES if tier == 'thorough' else []):
        for dt in TYPES:
            for first in range(n):
                yield {'kind': 'absmax', 'shape': list(shape), 'n': n,
                       'dtype': dt, 'first': first}
    yield {'kind': 'close'}
    for shape in ([70000], [300, 250], [2, 3, 12000]):
        yield {'kind': 'large', 'shape': shape}
    for n in (300, 9000, 20000):
        yield {'kind': 'manyelems', 'n': n}
    for a in range(len(TEMPL)):
        for b in range(len(TEMPL)):
            yield {'kind': 'lookup', 'first': [a, b],
                   'n': 3 if tier == 'quick' else 4}


def run(p, env):
    globals()['run_' + p['kind']](p, env)


def expected(values):
    """signed value with the largest magnitude"""
    best = None
    for v in values:
        if best is None or abs(v) > abs(best) or (
                abs(v) == abs(best) and v > best):
            best = v
    return best


def run_absmax(p, env):
    from freesif.calc import absmax
    dt = np.dtype(p['dtype'])
    v = vals(p['dtype'], p['n'])
    shape = tuple(p['shape'])
    n = int(np.prod(shape))
    py = float if dt.kind == 'f' else int
    for tail in itertools.product(v, repeat=n - 1):
        a = np.array((v[p['first']],) + tail, dt).reshape(shape)
        before = a.tobytes()
        env.state((p['dtype'], a.tolist()))
        for ax in axes(a.ndim):
            env.step()
            what = 'absmax(%s %s, axis=%r)' % (a.tolist(), dt, ax)
            try:
                got = np.asarray(absmax(a, ax) if ax is not None
                                 else absmax(a))
            except Exception as e:
                raise Violation('%s: %s: %s' % (what, type(e).__name__, e))
            red = set(range(a.ndim)) if ax is None else \
                set(x % a.ndim for x in (ax if isinstance(ax, tuple)
                                         else (ax,)))
            keep = [k for k in range(a.ndim) if k not in red]
            m = np.transpose(a, keep + sorted(red)).reshape(
                tuple(a.shape[k] for k in keep) + (-1,))
            if got.shape != m.shape[:-1]:
                raise Violation('%s has the shape %s' % (what, got.shape))
            for idx in np.ndindex(m.shape[:-1]):
                e = expected([py(x) for x in m[idx]])
                if py(got[idx]) != e:
                    raise Violation('%s is %s at %s, expected %s' % (
                        what, got[idx], idx, e))
        if a.tobytes() != before:
            raise Violation('absmax changes its input')
    env.trace()
    env.outcome('absmax %s' % dt)


# element types and node numbers, sharing nodes in different positions
TEMPL = [(15, [1, 2]), (24, [2, 3, 4, 1]), (25, [3, 2, 5]), (18, [4]),
         (28, [8, 7, 6, 5, 4, 3, 2, 1]), (23, [5, 1, 7]),
         (26, [1, 3, 5, 2, 4, 6]), (15, [2, 1])]
EXT = [71, 3, 50, 12, 8, 99, 5, 41]


def run_lookup(p, env):
    from freesif.calc import find_elemres_indices as find
    seqs = [p['first'] + list(t) for n in range(p['n'] - 1)
            for t in itertools.product(range(len(TEMPL)), repeat=n)]
    if p['first'][1] == 0:
        seqs.append(p['first'][:1])
    numbers = [12, 3, 50, 7]
    for k, seq in enumerate(seqs):
        con, off, typ, nodenumb = [], [], [], []
        for i, j in enumerate(seq):
            t, nod = TEMPL[j]
            for x in nod:
                con.append(len(con))
                nodenumb.append(EXT[x - 1])
            off.append(len(con))
            typ.append(t)
        elems = (np.array(con), np.array(off), np.array(typ))
        elnos = numbers[:len(seq)]
        check(env, find, elems, np.array(elnos), np.array(nodenumb),
              'elements %s' % [TEMPL[j] for j in seq], elnos + [99], EXT)
    # the same through queries
    m = mesh.Model(mesh.points(8), [
        (numbers[i], t, nod) for i, (t, nod) in enumerate(
            [TEMPL[p['first'][0]], TEMPL[p['first'][1]], TEMPL[2]])],
        [('S', 1, [[3, 1]], []), ('L', 2, [[3]], [])])
    f, d = m.open(env)
    for sets in (None, 'S', 'L'):
        for kind in (None, 'shell'):
            if not m.select(sets, kind):
                continue
            check(env, find, d.get_elements(sets, kind, True),
                  d.get_elementnumbers(sets, kind),
                  d.get_nodenumbers(sets, kind, True),
                  'model %s, sets %s kind %s' % (m.elems, sets, kind),
                  [e for e, _, _ in m.elems], [n for n, _ in m.nodes])
    f.close()
    env.outcome('lookup')


def check(env, find, elems, elemnumb, nodenumb, what, elnos, nodes):
    con, off, typ = elems
    env.state((off.tolist(), nodenumb.tolist()))
    pos = {}
    start = 0
    for e, stop in zip(elemnumb, off):
        for i in range(start, stop):
            pos[int(e), int(nodenumb[i])] = i
        start = stop
    pairs = list(itertools.product(elnos, nodes))
    good = [x for x in pairs if x in pos]
    bad = [x for x in pairs if x not in pos]

    def look(ps):
        env.step()
        w = '%s: find_elemres_indices(%s)' % (what, ps)
        try:
            got = [int(x) for x in find(ps, elems, elemnumb, nodenumb)]
        except Exception as e:
            if all(x in pos for x in ps):
                raise Violation('%s: %s: %s' % (w, type(e).__name__, e))
            return
        if any(x not in pos for x in ps):
            raise Violation('%s gives %s' % (w, got))
        exp = [pos[x] for x in ps]
        if got != exp:
            raise Violation('%s gives %s, expected %s' % (w, got, exp))

    look(good)
    look(good[::-1])
    for x in pairs:
        look([x])
    for x in good[:6]:
        for y in good[-6:]:
            look([x, y])
    for x in bad[:4]:
        look([good[0], x])
        look([x, good[0]])
    env.trace()


CLOSE = [1., -1., 1. + 1e-12, -1. - 1e-12, 1e-300, -1e-300, -2e-300, 0., -0.,
         1e300, -1e300, 1e-8, -1.1e-8, float('-inf')]


def run_close(p, env):
    """values that hardly differ, very small and very large ones"""
    from freesif.calc import absmax
    for t in itertools.product(CLOSE, repeat=3):
        a = np.array(t)
        env.step(2)
        e = expected(t)
        for what, got in (('absmax(%s)' % (t,), absmax(a)),
                          ('absmax of column %s' % (t,),
                           absmax(a.reshape(3, 1), 0)[0])):
            if float(got) != e:
                raise Violation('%s is %s, expected %s' % (what, got, e))
        env.state(t)
    env.trace()
    env.outcome('close')


def run_large(p, env):
    from freesif.calc import absmax
    shape = tuple(p['shape'])
    n = int(np.prod(shape))
    for dt in ('f4', 'f8', 'i8'):
        a = ((np.arange(n) * 7919 % 100003) - 50001.).astype(dt)
        a = a.reshape(shape)
        # the largest magnitude at different places of the array
        for at in (0, n // 2, n - 1, min(65536, n - 1)):
            for v in (200000, -200000):
                b = a.copy()
                b.reshape(-1)[at] = v
                for ax in [None] + list(range(-len(shape), len(shape))):
                    env.step()
                    got = np.asarray(absmax(b, ax) if ax is not None
                                     else absmax(b))
                    c = b.reshape(-1) if ax is None else np.moveaxis(b, ax, -1)
                    hi, lo = c.max(-1), c.min(-1)
                    e = np.where(np.abs(lo) > hi, lo, hi)
                    if got.shape != e.shape or not np.array_equal(got, e):
                        raise Violation('absmax of %s %s, axis %s, with %d at '
                                        '%d is wrong' % (shape, dt, ax, v, at))
                env.state((shape, dt, at, v))
    env.trace()
    env.outcome('large')


def run_manyelems(p, env):
    """a strip of quadrilaterals (with beams in between), all nodes shared"""
    from freesif.calc import find_elemres_indices as find
    n = p['n']
    nodes, off, typ, elno = [], [], [], []
    for k in range(n):
        a = 2 * k
        nodes += [a, a + 1] if k % 5 == 3 else [a, a + 2, a + 3, a + 1]
        off.append(len(nodes))
        typ.append(15 if k % 5 == 3 else 24)
        elno.append((k * 7) % (7 * n) + 100000 - k // 3)
    ext = [1 + (x * 3) for x in range(2 * n + 2)]
    nodenumb = np.array([ext[x] for x in nodes])
    elems = (np.arange(len(nodes)), np.array(off), np.array(typ))
    if len(set(elno)) != n:
        raise Exception('numbers are not unique')
    ks = sorted(set(x for x in [0, 1, 2, n // 2, n - 2, n - 1] +
                    [2 ** b // d + s for b in range(5, 18) for d in (1, 3, 4)
                     for s in (-1, 0, 1)] if 0 <= x < n))
    pairs, want, miss = [], [], []
    for k in ks:
        start = off[k - 1] if k else 0
        for i in range(start, off[k]):
            pairs.append((elno[k], int(nodenumb[i])))
            want.append(i)
        own = set(nodes[start:off[k]])
        for x in (2 * k - 2, 2 * k - 1, 2 * k + 2, 2 * k + 3, 2 * k + 4):
            if 0 <= x < len(ext) and x not in own:
                miss.append((elno[k], ext[x]))
    numb = np.array(elno)
    got = [int(x) for x in find(pairs, elems, numb, nodenumb)]
    env.step(len(pairs))
    if got != want:
        j = [i for i in range(len(got)) if got[i] != want[i]][0]
        raise Violation('%d elements: pair %s is at %d, expected %d' % (
            n, pairs[j], got[j], want[j]))
    for x in miss:
        env.step()
        try:
            got = find([x], elems, numb, nodenumb)
        except Exception:
            continue
        raise Violation('%d elements: %s, which is no node of the element, '
                        'is at %s' % (n, x, got))
    env.state(n)
    env.trace()
    env.outcome('manyelems')

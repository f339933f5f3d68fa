"""C14: nodal results belong to the right run, result case and node.

Space: all assignments of up to k result cases to 2 runs, real or complex,
with different numberings of the cases (external numbers restarted per run or
repeated in opposite order, internal numbers not sorted); on each model all
selections of cases (every subset, in several forms and orders) x selections
of the mesh x result types.  One model is large (node numbers and positions
of values beyond 16 bits).
"""
import itertools

import numpy as np

from . import mesh
from .core import Violation

PROPERTY = 'C14'
BOUNDS = {
    'quick': {'cases': 'all (run, real/complex) assignments of <=3 cases and '
              'the real ones of 4, 3 numberings', 'selections': 'all subsets '
              'of the cases of a run in up to 7 forms, x 11 mesh selections, '
              'x 3 result types, x 38 mesh selections for one type',
              'many cases': '65 and 130 in 2 runs, real and complex',
              'large model': '15000 nodes with 2 cases (180000 values), 4 '
              'selections'},
    'thorough': {'cases': 'all assignments of <=4 cases, 3 numberings',
                 'selections': 'as quick', 'large model': '40000 nodes'},
}
RULE = ('state = distinct result (values); transition = one query')
ASSUMPTIONS = ['results are stored case by case in internal node order, for '
               'all nodes, and result references in the same order',
               'six components per node']

PTS = mesh.points(8, 1)
ELEMS = [(9, 15, [7, 2]), (4, 24, [5, 2, 8, 3]), (6, 18, [4]),
         (2, 25, [8, 7, 2])]
SETS = [('A', 3, [[1, 4]], []), ('B', 8, [[2], [3]], [[1]]),
        ('C', 2, [[3]], [])]
MESH = [(None, None, False), (None, None, True), ('A', None, False),
        ('A', None, True), (None, 'beam', False), (None, 'shell', True),
        (['B', 'C'], None, False), (['C', 'A'], 'shell', False),
        (['B', 'A'], 'shell', True), ('C', None, True),
        (['A', 'B'], None, True)]
FULL = MESH + [m for m in itertools.product(
    (None, 'A', 'B', 'C', ('B', 'C'), ['C', 'A']), (None, 'beam', 'shell'),
    (False, True)) if m not in MESH]
TYPES = [('displacement', 'RVNODDIS', 0), ('velocity', 'RVNODVEL', 1),
         ('acceleration', 'RVNODACC', 2)]


def value(ires, node, comp, typ, part):
    return float(((ires * 10 + node) * 10 + comp) * 4 + typ + .25 * part +
                 (.5 if part else 0)) * (-1 if (node + comp) % 3 == 0 else 1)


def numbering(cases, how):
    """[(ires, run, external number, complex)]"""
    n = len(cases)
    out = []
    for k, (run, cx) in enumerate(cases):
        before = sum(1 for r, _ in cases[:k] if r == run)
        total = sum(1 for r, _ in cases if r == run)
        if how == 0:
            out.append((k + 1, run, before + 1, cx))
        elif how == 1:   # reverse numbers
            out.append((n - k, run, 10 + total - before, cx))
        else:
            out.append(([5, 2, 7, 3][k], run, [4, 9, 1, 6][k], cx))
    return out


def model(cases, by_type):
    m = mesh.Model(PTS, ELEMS, SETS, letter='R')
    ex = [mesh.resref(i, run, e, cx) for i, run, e, cx in cases]
    res = []
    for c, (ires, run, e, cx) in enumerate(cases):
        for t, (_, rec, ti) in enumerate(TYPES):
            for nod in range(1, len(PTS) + 1):
                v = []
                for comp in range(6):
                    for part in range(cx + 1):
                        v.append(value(ires, nod, comp, ti, part))
                res.append(((t, c) if by_type else (c, t),
                            mesh.rvnod(rec, ires, nod, v)))
    res.sort(key=lambda x: x[0])
    m.extra = ex + [r for _, r in res]
    return m


def scenarios(tier):
    seqs = []
    for n in (1, 2, 3, 4):
        for s in itertools.product([(1, 0), (1, 1), (2, 0), (2, 1)],
                                   repeat=n):
            if n == 4 and tier == 'quick' and any(cx for _, cx in s):
                continue
            if n == 4 and not any(r == 1 for r, _ in s):
                continue
            seqs.append([list(x) for x in s])
    yield {'big': 15000 if tier == 'quick' else 40000}
    for ncase in (65, 130):
        for cx in (0, 1):
            yield {'many': ncase, 'cx': cx}
    for k, s in enumerate(seqs):
        for how in (0, 1, 2):
            yield {'cases': s, 'how': how, 'types': (k + how) % 3}


def forms(sub, total):
    sub = list(sub)
    yield sub
    yield tuple(reversed(sub))
    yield np.array(sub)
    if len(sub) == 1:
        yield sub[0]
        yield np.int64(sub[0])
        yield [np.int32(sub[0])]
    if len(sub) == total:
        yield None


def run_big(p, env):
    n = p['big']
    pts = [(16700000 - 3 * i, (1. * i, .5, -2.)) for i in range(n)]
    el = [(k + 1, (15, 24)[k % 2], [
        1 + (k * 7 + 4999 * j) % n for j in range((2, 4)[k % 2])])
        for k in range(n // 4)]
    m = mesh.Model(pts, el, [('A', 3, [list(range(900, 1, -1))], [])],
                   letter='R')
    cases = [(40000, 1, 70000, 0), (20000, 1, 9, 0)]
    m.extra = [mesh.resref(*c) for c in cases]

    def val(ires, i):
        return np.float32(ires / 1000. + i / 8.) + np.arange(6) * 4096.
    for c in cases:
        m.extra += [mesh.rvnod('RVNODDIS', c[0], i + 1, val(c[0], i))
                    for i in range(n)]
    f, d = m.open(env, 'U')
    for rc, ms in ((None, (None, None, False)), (9, (None, 'shell', False)),
                   ([9, 70000], (None, None, True)),
                   (70000, ('A', None, False))):
        env.step()
        w = 'large model: cases %r, sets, kind, disconnected %s' % (rc, ms)
        try:
            got = d.get_noderesults('displacement', 1, rc, *ms)
        except Exception as e:
            raise Violation('%s: %s: %s' % (w, type(e).__name__, e))
        rows = m.node_rows(*ms)
        sel = [c for c in cases if rc is None or c[2] in np.atleast_1d(rc)]
        exp = np.array([[val(c[0], i) for i in rows] for c in sel])
        if len(sel) == 1:
            exp = exp[0]
        if got.shape != exp.shape:
            raise Violation('%s: shape is %s, expected %s' % (
                w, got.shape, exp.shape))
        if not np.array_equal(got, exp.astype(np.float32)):
            bad = np.argwhere(got != exp.astype(np.float32))[0]
            raise Violation('%s: value at %s is %s, expected %s' % (
                w, bad.tolist(), got[tuple(bad)], exp[tuple(bad)]))
    f.close()
    env.trace()
    env.outcome('large')


def run_many(p, env):
    """many cases, also numbers beyond 16 bits; two runs"""
    n = p['many']
    cases = [(1 + (k * 37) % n + (k % 3) * n, 1 + k % 2,
              (1, 1000, 70000)[k % 3] + k // 2, p['cx']) for k in range(n)]
    m = model(cases, 1)
    f, d = m.open(env, 'FU'[p['cx']])
    what = '%d cases' % n
    for run in (1, 2):
        mine = [c for c in cases if c[1] == run]
        nums = [c[2] for c in mine]
        subs = [nums[i:] for i in range(0, len(nums), 7)] + \
            [nums[:i] for i in range(1, len(nums), 5)] + [nums[::2],
                                                          nums[1::3]]
        for i, sub in enumerate(subs):
            sel = [c for c in mine if c[2] in sub]
            for form in (sub, tuple(sub[::-1]), np.array(sub)):
                for ms in MESH[:4] if not i else MESH[:1]:
                    check(env, d, m, TYPES[i % 3], run, form, sel, ms, what)
        for c in mine:
            check(env, d, m, TYPES[0], run, c[2], [c], MESH[0], what)
        check(env, d, m, TYPES[1], run, None, mine, MESH[1], what)
    f.close()
    env.trace()
    env.outcome('many cases')


def run(p, env):
    if 'many' in p:
        return run_many(p, env)
    if 'big' in p:
        return run_big(p, env)
    cases = numbering([tuple(c) for c in p['cases']], p['how'])
    m = model(cases, p['how'] == 1)
    f, d = m.open(env, 'FU'[p['how'] % 2])
    what = 'cases (ires, run, number, complex) %s' % (cases,)
    for run in (1, 2):
        mine = [c for c in cases if c[1] == run]
        nums = [c[2] for c in mine]
        for k in range(1, len(mine) + 1):
            for sub in itertools.combinations(nums, k):
                for i, form in enumerate(forms(sub, len(mine))):
                    sel = [c for c in mine if c[2] in sub]
                    for t in range(3):
                        # all forms for one result type, all types for one
                        if i and t != p['types']:
                            continue
                        for ms in (FULL if t == p['types'] else MESH) \
                                if not i else MESH[:2]:
                            check(env, d, m, TYPES[t], run, form, sel, ms,
                                  what)
        for t, rec, _ in TYPES:
            nothing(env, d, t, run, mine, what)
    for bad in ('displacements', 'disp', None, 'RVNODDIS'):
        try:
            d.get_noderesults(bad)
        except Exception:
            continue
        raise Violation('%s: result type %r accepted' % (what, bad))
    f.close()
    env.trace()
    env.outcome((len(cases), sum(c[3] for c in cases)))


def nothing(env, d, t, run, mine, what):
    """cases and runs that are not on the file"""
    for r, c in [(3, None), (run, [88]), (run, 99)] + (
            [] if mine else [(run, None)]):
        env.step()
        try:
            got = d.get_noderesults(t, r, c)
        except Exception:
            continue
        if np.size(got):
            raise Violation('%s: %s of run %r, cases %r gives %r' % (
                what, t, r, c, got))


def check(env, d, m, typ, run, form, sel, ms, what):
    from freesif.exceptions import ResultError
    name, _, ti = typ
    sets, kind, disc = ms
    w = '%s: %s of run %d, cases %r, sets=%r kind=%r disconnected=%r' % (
        what, name, run, form, sets, kind, disc)
    env.step()
    mixed = len(set(c[3] for c in sel)) > 1
    try:
        got = d.get_noderesults(name, run, form, sets, kind, disc)
    except ResultError as e:
        if mixed:
            return
        raise Violation('%s: %s' % (w, e))
    except Exception as e:
        if not m.node_rows(sets, kind, disc):    # empty selection
            return
        raise Violation('%s: %s: %s' % (w, type(e).__name__, e))
    if mixed:
        raise Violation('%s: real and complex cases were mixed' % w)
    rows = m.node_rows(sets, kind, disc)
    if not rows:
        if np.size(got):
            raise Violation('%s: %r' % (w, got))
        return
    cx = sel[0][3]
    exp = []
    for ires, _, _, _ in sel:
        exp.append([[value(ires, r + 1, c, ti, 0) +
                     (1j * value(ires, r + 1, c, ti, 1) if cx else 0)
                     for c in range(6)] for r in rows])
    exp = np.array(exp if len(sel) > 1 else exp[0])
    if np.iscomplexobj(got) != bool(cx):
        raise Violation('%s: type is %s' % (w, got.dtype))
    if got.shape != exp.shape:
        raise Violation('%s: shape is %s, expected %s' % (
            w, got.shape, exp.shape))
    if not np.array_equal(got, exp):
        bad = np.argwhere(got != exp)[0]
        raise Violation('%s: value at %s is %s, expected %s' % (
            w, bad.tolist(), got[tuple(bad)], exp[tuple(bad)]))
    env.state((got.shape, got.tobytes()))

"""C15: element results belong to the right element, node and component.

Space: (a) for every element type with results, every stored value as a unit
impulse (real and imaginary), which determines the whole linear map from
stored to returned values, for every result type; (b) all sequences of up to k
elements (beams, shells of one family, elements without results) x
constellations of result cases x all selections of cases and sets.  Expected
values are computed from the position of points and nodes in the element, by
interpolation polynomials.  One model of each family is large (positions of
values beyond 16 bits).
"""
import itertools

import numpy as np

from . import mesh
from .core import Violation

PROPERTY = 'C15'
BOUNDS = {
    'quick': {'impulses': 'every stored value of 6 element types, real and '
              'imaginary, 3 result types',
              'models': 'all sequences of <=3 elements out of 3 families of 4 '
              'kinds, x 6 constellations of cases, all subsets of cases, 7 '
              'set selections',
              'many cases': '65 and 130 in 2 runs, real and complex',
              'large models': '2400 elements with 2 cases, 3 families'},
    'thorough': {'impulses': 'as quick, also all pairs of stored values',
                 'models': 'as quick, with all sequences of <=4',
                 'large models': '6000 elements'},
}
RULE = 'state = distinct result (values); transition = one query'
ASSUMPTIONS = ['results are stored case by case in internal element order, '
               'for all elements of a kind; thin and thick shells are not in '
               'the same query; one result type (ir) per element type, equal '
               'to the element type',
               'values are compared with relative tolerance 1e-5']

G = 1 / np.sqrt(3.)


def poly_matrix(points, nodes, terms):
    """values at nodes as a linear map of values at points, through the
    polynomial with the given terms"""
    a = np.array([terms(*np.atleast_1d(p)) for p in points])
    b = np.array([terms(*np.atleast_1d(p)) for p in nodes])
    return b.dot(np.linalg.inv(a))


LINE = poly_matrix([-G, G], [-1., 0., 1.], lambda x: [1., x])
THICK = poly_matrix([-G, G], [-1., 1.], lambda x: [1., x])
TRI = poly_matrix([(1/6., 1/6.), (2/3., 1/6.), (1/6., 2/3.)],
                  [(0, 0), (.5, 0), (1, 0), (.5, .5), (0, 1), (0, .5)],
                  lambda x, y: [1., x, y])
QUAD = poly_matrix([(-G, -G), (G, -G), (-G, G), (G, G)],
                   [(-1, -1), (0, -1), (1, -1), (1, 0), (1, 1), (0, 1),
                    (-1, 1), (-1, 0)], lambda x, y: [1., x, y, x * y])
FIRST = {24: ([0, 1, 4, 3], 5), 25: ([0, 1, 3], 4)}


def at_nodes(typ, restype, v):
    """v: (points, components)"""
    v = np.asarray(v)
    if typ == 15:
        return v[[0, 2]]
    if typ == 23:
        return LINE.dot(v)
    if typ in FIRST:
        pts, up = FIRST[typ]
        low = v[pts]
        upp = v[[p + up for p in pts]]
        if restype == 'generalstress':
            return np.stack([low, upp], axis=1)
        return np.hstack([(low + upp) / 2, (upp - low) / 2])
    plane = TRI if typ == 26 else QUAD
    n = plane.shape[1]
    lower, upper = v[:n], v[n:]
    low = THICK[0, 0] * lower + THICK[0, 1] * upper
    upp = THICK[1, 0] * lower + THICK[1, 1] * upper
    if restype == 'generalstress':
        low, upp = low.copy(), upp.copy()
        low[:, 3:] = 0
        upp[:, 3:] = 0
        return np.stack([plane.dot(low), plane.dot(upp)], axis=1)
    d = np.hstack([(low[:, :3] + upp[:, :3]) / 2,
                   (upp[:, :3] - low[:, :3]) / 2, 1.5 * lower[:, 3:]])
    return plane.dot(d)


PTS = mesh.points(12, 3)
FAMILIES = {'thin': (15, 24, 25, 18), 'thick': (23, 26, 28, 16),
            'mixed': (23, 15, 28, 24)}
# constellations: [(run, external number, complex)]
CASES = {
    '1': [(1, 1, 0)], '1c': [(1, 1, 1)],
    '2': [(1, 1, 0), (1, 2, 0)], '2c': [(1, 5, 1), (1, 3, 1)],
    'mix': [(1, 1, 0), (1, 2, 1), (2, 1, 0)],
    '4': [(2, 1, 1), (1, 1, 0), (1, 4, 0), (2, 2, 1), (1, 2, 0)],
}


def kindof(t):
    return 'beam' if t in mesh.BEAM else 'shell' if t in mesh.SHELL else None


def value(ires, elno, k, part):
    """distinct values"""
    x = (ires * 7 + elno) * 64 + k
    if part and ires % 2 == 0:     # imaginary parts may be relatively small
        return float((x * 41) % 1019 - 300) * 2 ** -16
    return float((x * 37) % 1021 - 400 + .5 * part) * (1 if x % 2 else -1)


def model(types, cases, val=value):
    elems = []
    for i, t in enumerate(types):
        n = mesh.NN[t]
        elems.append((80 + (i * 29) % 17, t,
                      [1 + (5 * j + 3 * i) % 12 for j in range(n)]))
    n = len(elems)
    sets = [('A', 4, [[1]], []), ('Z', 2, [[n]], []),
            ('all', 3, [list(range(n, 0, -1))], []),
            ('odd', 9, [[i] for i in range(1, n + 1, 2)], [[1]])]
    m = mesh.Model(PTS, elems, sets, letter='R')
    ex = []
    for rec, kind in (('RDFORCES', 'beam'), ('RDSTRESS', 'shell')):
        for t in sorted(set(t for t in types if kindof(t) == kind)):
            ex.append(mesh.rdcomp(rec, t))
    for i, t in enumerate(types):
        if kindof(t):
            ex.append(mesh.rdpoints(i + 1, t))
    for k, (run, e, cx) in enumerate(cases):
        ex.append(mesh.resref(k + 1, run, e, cx))
    for k, (run, e, cx) in enumerate(cases):
        for rec, kind in (('RVFORCES', 'beam'), ('RVSTRESS', 'shell')):
            for i, t in enumerate(types):
                if kindof(t) == kind:
                    npt, nc = mesh.STORED[t]
                    v = []
                    for j in range(npt * nc):
                        v += [val(k + 1, i + 1, j, p) for p in range(cx + 1)]
                    ex.append(mesh.rvelm(rec, k + 1, i + 1, t, v))
    m.extra = ex
    return m


def expected(m, restype, cases, sel, sets, val=value):
    kind = 'beam' if restype == 'beamforce' else 'shell'
    idx = m.select(sets, kind)
    if not idx:
        return None
    out = []
    for k in sel:
        cx = cases[k][2]
        rows = []
        for i in idx:
            t = m.elems[i][1]
            npt, nc = mesh.STORED[t]
            v = np.array([val(k + 1, i + 1, j, 0) +
                          (1j * val(k + 1, i + 1, j, 1) if cx else 0)
                          for j in range(npt * nc)]).reshape(npt, nc)
            rows.append(at_nodes(t, restype, v))
        out.append(np.concatenate(rows))
    return np.array(out if len(sel) > 1 else out[0])


def scenarios(tier):
    for t in mesh.STORED:
        yield {'kind': 'impulse', 'typ': t, 'pairs': tier == 'thorough'}
    k = 0
    for fam, types in (('thin', [15, 24, 18, 25]), ('thick', [23, 28, 16, 26]),
                       ('beams', [23, 15])):
        yield {'kind': 'big', 'types': types,
               'n': 2400 if tier == 'quick' else 6000}
    for types in ([15, 24, 25], [23, 28, 26]):
        for n in (65, 130):
            for cx in (0, 1):
                yield {'kind': 'manycases', 'types': types, 'n': n, 'cx': cx}
    for fam in sorted(FAMILIES):
        for n in range(1, 4 if tier == 'quick' else 5):
            for types in itertools.product(FAMILIES[fam], repeat=n):
                s = set(types) & {24, 25, 26, 28}
                if s & {24, 25} and s & {26, 28}:
                    continue
                if not any(kindof(t) for t in types):
                    continue
                k += 1
                yield {'kind': 'model', 'types': list(types),
                       'fmt': 'FU'[k % 2]}


def run(p, env):
    globals()['run_' + p['kind']](p, env)


def compare(env, got, exp, w, ncases):
    got = np.asarray(got)
    if np.iscomplexobj(got) != np.iscomplexobj(exp):
        raise Violation('%s: type is %s' % (w, got.dtype))
    if got.shape != exp.shape:
        raise Violation('%s: shape is %s, expected %s' % (
            w, got.shape, exp.shape))
    for part in ('real', 'imag') if np.iscomplexobj(exp) else ('real',):
        g, e = getattr(got, part), getattr(exp, part)
        # (per result case)
        for gc, ec in zip(g, e) if ncases > 1 else [(g, e)]:
            compare_part(gc, ec, '%s (%s)' % (w, part))
    env.state((got.shape, np.round(got, 3).tobytes()))


def compare_part(got, exp, w):
    tol = 1e-5 * np.abs(exp).max()
    if not np.all(np.abs(got - exp) <= tol):
        bad = np.argwhere(~(np.abs(got - exp) <= tol))[0]
        raise Violation('%s: value at %s is %s, expected %s' % (
            w, bad.tolist(), got[tuple(bad)], exp[tuple(bad)]))


def run_impulse(p, env):
    t = p['typ']
    npt, nc = mesh.STORED[t]
    n = npt * nc
    one = [(i,) for i in range(n)]
    if p['pairs']:
        one += list(itertools.combinations(range(n), 2))
    for part in (0, 1):
        # one result case for each impulse
        def val(ires, elno, k, q):
            hot = one[ires - 1]
            return 3. * (k in hot) * (q == part)
        cases = [(1 + i // 50, 1 + i % 50, part) for i in range(len(one))]
        m = model([t], cases, val)
        f, d = m.open(env)
        for rt in ['beamforce'] if kindof(t) == 'beam' else \
                ['generalstress', 'decomposedstress']:
            w = 'element type %d, impulses (%s), %s' % (
                t, 'imaginary' if part else 'real', rt)
            for run in sorted(set(c[0] for c in cases)):
                sel = [k for k, c in enumerate(cases) if c[0] == run]
                env.step()
                got = d.get_elementresults(rt, run=run)
                exp = expected(m, rt, cases, sel, None, val)
                compare(env, got, exp, w, len(sel))
                if run == 1:
                    for k in sel:
                        env.step()
                        compare(env, d.get_elementresults(
                            rt, 'nodes', 1, cases[k][1]),
                            expected(m, rt, cases, [k], None, val),
                            '%s, case %d' % (w, k), 1)
        f.close()
    env.outcome('impulses %d' % t)
    env.trace()


def run_model(p, env):
    from freesif.exceptions import ResultError
    for cname in sorted(CASES):
        cases = CASES[cname]
        m = model(p['types'], cases)
        f, d = m.open(env, p['fmt'])
        what = 'elements %s, cases %s' % (p['types'], cases)
        for rt in ('beamforce', 'generalstress', 'decomposedstress'):
            kind = 'beam' if rt == 'beamforce' else 'shell'
            if not any(kindof(t) == kind for t in p['types']):
                env.step()
                try:
                    got = d.get_elementresults(rt)
                except Exception:
                    continue
                if np.size(got):
                    raise Violation('%s: %s gives %r' % (what, rt, got))
                continue
            for run in (1, 2):
                mine = [k for k, c in enumerate(cases) if c[0] == run]
                for n in range(1, len(mine) + 1):
                    for sel in itertools.combinations(mine, n):
                        nums = [cases[k][1] for k in sel]
                        fs = [nums, tuple(nums[::-1])]
                        if n == 1:
                            fs += [nums[0], np.int64(nums[0])]
                        if n == len(mine):
                            fs.append(None)
                        mixed = len(set(cases[k][2] for k in sel)) > 1
                        for j, form in enumerate(fs):
                            for sets in (None, 'A', 'Z', 'all', 'odd',
                                         ['A', 'Z'], ['odd', 'Z', 'A']) \
                                    if not j else (None,):
                                w = '%s: %s run %d cases %r sets %r' % (
                                    what, rt, run, form, sets)
                                exp = expected(m, rt, cases, sel, sets)
                                env.step()
                                try:
                                    got = d.get_elementresults(
                                        rt, run=run, rescases=form, sets=sets)
                                except ResultError as e:
                                    if mixed or exp is None:
                                        continue
                                    raise Violation('%s: %s' % (w, e))
                                except Exception as e:
                                    if exp is None:
                                        continue
                                    raise Violation('%s: %s: %s' % (
                                        w, type(e).__name__, e))
                                if exp is None:
                                    if np.size(got):
                                        raise Violation('%s: %r' % (w, got))
                                    continue
                                if mixed:
                                    raise Violation(
                                        '%s: real and complex mixed' % w)
                                compare(env, got, exp, w, len(sel))
                                nn = d.get_nodes(sets, kind, True)
                                if len(nn) != got.shape[len(sel) > 1]:
                                    raise Violation('%s: shape %s for %d nodes'
                                                    % (w, got.shape, len(nn)))
        for bad in ('stress', 'beamforces', None):
            try:
                d.get_elementresults(bad)
            except Exception:
                continue
            raise Violation('%s: result type %r accepted' % (what, bad))
        f.close()
        env.trace()
    env.outcome(tuple(sorted(set(p['types']))))


def run_manycases(p, env):
    n = p['n']
    cases = [(1 + k % 2, (1, 1000, 70000)[k % 3] + k // 2, p['cx'])
             for k in range(n)]
    types = p['types']
    m = model(types, cases)
    f, d = m.open(env, 'FU'[p['cx']])
    for rt in ('beamforce', 'generalstress', 'decomposedstress'):
        for run in (1, 2):
            mine = [k for k, c in enumerate(cases) if c[0] == run]
            subs = [mine[i:] for i in range(0, len(mine), 9)] + \
                [mine[:i] for i in range(1, len(mine), 6)] + \
                [mine[::2], mine[1::3]]
            for j, sel in enumerate(subs):
                nums = [cases[k][1] for k in sel]
                for form in (nums, tuple(nums[::-1]), np.array(nums)):
                    for sets in (None, 'odd', 'Z') if not j else (None,):
                        env.step()
                        w = '%d cases, %s run %d: %d cases, sets %r' % (
                            n, rt, run, len(nums), sets)
                        try:
                            got = d.get_elementresults(
                                rt, run=run, rescases=form, sets=sets)
                        except Exception as e:
                            if expected(m, rt, cases, sel, sets) is None:
                                continue
                            raise Violation('%s: %s: %s' % (
                                w, type(e).__name__, e))
                        exp = expected(m, rt, cases, sel, sets)
                        if exp is None:
                            if np.size(got):
                                raise Violation('%s: %r' % (w, got))
                            continue
                        compare(env, got, exp, w, len(sel))
    f.close()
    env.trace()
    env.outcome('many cases')


def run_big(p, env):
    types = [p['types'][(i * 7 // 3) % len(p['types'])]
             for i in range(p['n'])]
    cases = [(1, 40000, 0), (1, 7, 0)]
    m = model(types, cases)
    m.sets = [('A', 4, [list(range(p['n'], p['n'] - 900, -1))], [])]
    f, d = m.open(env, 'U')
    for rt in ('beamforce', 'generalstress', 'decomposedstress'):
        kind = 'beam' if rt == 'beamforce' else 'shell'
        if not any(kindof(t) == kind for t in types):
            continue
        for rc, sel, sets in ((None, [0, 1], None), (7, [1], None),
                              ([7, 40000], [0, 1], 'A')):
            env.step()
            w = 'large model of %s: %s cases %r sets %r' % (
                p['types'], rt, rc, sets)
            try:
                got = d.get_elementresults(rt, run=1, rescases=rc, sets=sets)
            except Exception as e:
                raise Violation('%s: %s: %s' % (w, type(e).__name__, e))
            compare(env, got, expected(m, rt, cases, sel, sets), w, len(sel))
    f.close()
    env.trace()
    env.outcome('large')

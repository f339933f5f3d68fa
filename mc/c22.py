"""C22: derived stresses satisfy their defining equations.

Space: lattices of stress states (all combinations of component values), x
scales x data types x array shapes, memory layouts and additional components.
Expected values come from scalar formulas and a symmetric eigenvalue solver
that is applied position by position.
"""
import itertools
import math

import numpy as np

from .core import Violation

PROPERTY = 'C22'
BOUNDS = {
    'quick': {'plane stress': 'all 11^3 combinations of 11 component values, '
              'x 6 scales x 3 types', 'thick shells': 'all 5^5 combinations '
              'of 5 values, x 5 scales x 2 types', 'shapes': '9 shapes x 6 '
              'layouts x 0 to 3 additional components',
              'magnitudes': 'all combinations of components out of 0, 1e-5, '
              '-1, 300, -1e6 (and 8 more)', 'large arrays':
              '70000 positions in 3 shapes'},
    'thorough': {'plane stress': 'all 25^3', 'thick shells': 'all 8^5',
                 'shapes': 'as quick'},
}
RULE = 'state = distinct stress state; transition = one evaluated position'
ASSUMPTIONS = ['squares of the components fit into the data type',
               'values are compared with tolerance 1e-5 (single) or 1e-9 '
               '(double) relative to the largest component',
               'where two eigenvalues are smallest in magnitude, either may '
               'be removed']

V2 = [-3., -2., -1., -.5, 0., .25, 1., 1.5, 2., 3., 7.]
V2T = [x * .5 for x in range(-12, 13)]
V3 = [-2., -.5, 0., 1., 3.]
V3T = [-3., -2., -.5, 0., .25, 1., 1.5, 4.]
SHAPES = [(), (1,), (2,), (4,), (2, 3), (1, 2), (3, 1), (2, 1, 2), (2, 2, 3)]
MAGN = [0., 1e-5, -1., 300., -1e6]
MORE_MAGN = [-1e-5, 1e-3, 1., -2., 30., -4e3, 1e6, 5e-1]
LARGE = [(70000,), (35, 2000), (2000, 5, 7)]
LAYOUTS = ['C', 'F', 'strided', 'reversed', 'readonly', 'view']


def scenarios(tier):
    for a in V2 if tier == 'quick' else V2T:
        yield {'kind': 'plane', 'first': a, 'values': V2 if tier == 'quick'
               else V2T}
    vs = V3 if tier == 'quick' else V3T
    for a in vs:
        for b in vs:
            yield {'kind': 'thick', 'first': [a, b], 'values': vs}
    for lay in LAYOUTS:
        yield {'kind': 'shapes', 'layout': lay}
    for a in MAGN:
        yield {'kind': 'plane', 'first': a, 'values': MAGN + MORE_MAGN}
        for b in MAGN:
            yield {'kind': 'thick', 'first': [a, b], 'values': MAGN}
    for shape in LARGE:
        yield {'kind': 'large', 'shape': shape}


def run(p, env):
    globals()['run_' + p['kind']](p, env)


def calc():
    import freesif.calc as c
    return c


def plane(s):
    m = (s[0] + s[1]) / 2
    r = math.hypot((s[0] - s[1]) / 2, s[2])
    return [m + r, m - r]


def mises(s):
    return math.sqrt(max(0., s[0] * s[0] + s[1] * s[1] - s[0] * s[1] +
                         3 * s[2] * s[2]))


def thick(s):
    """admissible [largest, smallest] pairs"""
    t = np.array([[s[0], s[2], s[3]], [s[2], s[1], s[4]], [s[3], s[4], 0.]])
    p = sorted(np.linalg.eigvalsh(t))
    scale = max(abs(x) for x in p) or 1.
    lo = min(abs(x) for x in p)
    out = []
    for k in range(3):
        if abs(p[k]) - lo <= 1e-4 * scale:
            rest = p[:k] + p[k+1:]
            out.append([rest[1], rest[0]])
    return out


def close(a, b, scale, tol):
    return all(abs(x - y) <= tol * scale for x, y in zip(a, b))


def call(fn, arr, what):
    arr = np.asarray(arr)
    before = (arr.dtype, arr.shape, arr.tobytes())
    try:
        out = fn(arr)
    except Exception as e:
        raise Violation('%s: %s: %s' % (what, type(e).__name__, e))
    if (arr.dtype, arr.shape, arr.tobytes()) != before:
        raise Violation('%s changes its input' % what)
    return np.asarray(out)


TOL = {'f4': 1e-5, 'f8': 1e-9, 'i4': 1e-9}


def check2d(env, arr, dt, what):
    c = calc()
    pr = call(c.principal2d, arr, 'principal2d, ' + what)
    vm = call(c.vonmises2d, arr, 'vonmises2d, ' + what)
    if pr.shape != arr.shape[:-1] + (2,) or vm.shape != arr.shape[:-1]:
        raise Violation('%s: shapes are %s and %s' % (
            what, pr.shape, vm.shape))
    for idx in np.ndindex(arr.shape[:-1]):
        s = [float(x) for x in arr[idx]]
        scale = max(abs(x) for x in s[:3])
        env.step(2)
        if not close(pr[idx], plane(s), scale, TOL[dt]):
            raise Violation('%s: principal2d of %s is %s, expected %s' % (
                what, s, pr[idx], plane(s)))
        if pr[idx][0] < pr[idx][1]:
            raise Violation('%s: principal2d of %s is %s' % (what, s, pr[idx]))
        if not close([vm[idx]], [mises(s)], scale, TOL[dt] * 3):
            raise Violation('%s: vonmises2d of %s is %s, expected %s' % (
                what, s, vm[idx], mises(s)))


def check3d(env, arr, dt, what):
    pr = call(calc().principal_thickshell, arr, 'principal_thickshell, ' +
              what)
    if pr.shape != arr.shape[:-1] + (2,):
        raise Violation('%s: shape is %s' % (what, pr.shape))
    for idx in np.ndindex(arr.shape[:-1]):
        s = [float(x) for x in arr[idx]]
        scale = max(abs(x) for x in s[:5])
        env.step()
        adm = thick(s)
        if not any(close(pr[idx], a, scale, max(TOL[dt], 1e-7) * 5)
                   for a in adm):
            raise Violation('%s: principal_thickshell of %s is %s, expected '
                            '%s' % (what, s, pr[idx], adm))


def run_plane(p, env):
    v = p['values']
    lat = np.array([[p['first'], a, b] for a in v for b in v])
    for scale in (1., 1e-9, 1e-3, 2.5e2, 1e6, 1e12):
        for dt in ('f4', 'f8', 'i4'):
            if dt == 'i4' and (scale not in (1., 2.5e2) or
                               abs(lat * scale).max() > 1e4):
                continue
            arr = (lat * scale).astype(dt)
            check2d(env, arr, dt, 'type %s' % dt)
            # one by one and in a square: no position depends on another
            check2d(env, arr.reshape(len(v), len(v), 3), dt, 'square')
        for row in lat:
            env.state(tuple(row * scale))
    env.trace()
    env.outcome('plane')


def run_thick(p, env):
    v = p['values']
    lat = np.array([p['first'] + list(t)
                    for t in itertools.product(v, repeat=3)])
    for scale in (1., 1e-9, 1e-3, 2e5, 1e12):
        for dt in ('f4', 'f8'):
            check3d(env, (lat * scale).astype(dt), dt, 'type %s' % dt)
        for row in lat:
            env.state(tuple(row * scale))
    check3d(env, lat.reshape(len(v), -1, 5).astype('f8'), 'f8', 'square')
    env.trace()
    env.outcome('thick')


def layout(a, how):
    if how == 'C':
        return a.copy()
    if how == 'F':
        return np.asfortranarray(a)
    if how == 'strided':
        b = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), a.dtype) + 9
        b[..., ::2] = a
        return b[..., ::2]
    if how == 'reversed':
        return a[..., ::-1].copy()[..., ::-1]
    if how == 'readonly':
        b = a.copy()
        b.flags.writeable = False
        return b
    b = np.zeros(tuple(x + 1 for x in a.shape), a.dtype) + 5
    b[tuple(slice(1, None) for _ in a.shape)] = a
    return b[tuple(slice(1, None) for _ in a.shape)]


def run_shapes(p, env):
    for shape in SHAPES:
        for extra in range(4):
            for nc, chk in ((3, check2d), (5, check3d)):
                for dt in ('f4', 'f8'):
                    n = int(np.prod(shape, dtype=int)) * (nc + extra)
                    a = np.array([((k * 7 + 3) % 23 - 9) * .5 + .125 * (k % 4)
                                  for k in range(n)], dt)
                    a = layout(a.reshape(shape + (nc + extra,)), p['layout'])
                    what = 'shape %s, %d components, %s, %s' % (
                        shape, nc + extra, dt, p['layout'])
                    chk(env, a, dt, what)
                    env.state(what)
                    env.trace()
    env.outcome('shapes')


def run_large(p, env):
    """many positions at once, against formulas for the whole array"""
    shape = tuple(p['shape'])
    n = int(np.prod(shape))
    k = np.arange(n * 6)
    flat = ((k * 7919 % 100003) / 1000. - 50).reshape(n, 6)
    for dt, tol in (('f4', 2e-5), ('f8', 1e-9)):
        a = flat.astype(dt).reshape(shape + (6,))
        x = flat.astype(dt).astype('f8')
        sx, sy, t = x[:, 0], x[:, 1], x[:, 2]
        r = np.hypot((sx - sy) / 2, t)
        exp = {'principal2d': np.stack([(sx + sy) / 2 + r,
                                        (sx + sy) / 2 - r], -1),
               'vonmises2d': np.sqrt(sx * sx + sy * sy - sx * sy + 3 * t * t)}
        m = np.zeros((n, 3, 3))
        m[:, 0, 0], m[:, 1, 1] = sx, sy
        m[:, 0, 1] = m[:, 1, 0] = t
        m[:, 0, 2] = m[:, 2, 0] = x[:, 3]
        m[:, 1, 2] = m[:, 2, 1] = x[:, 4]
        e = np.linalg.eigvalsh(m)
        i = np.abs(e).argmin(1)
        exp['principal_thickshell'] = np.stack(
            [np.where(i == 2, e[:, 1], e[:, 2]),
             np.where(i == 0, e[:, 1], e[:, 0])], -1)
        two = np.sort(np.abs(e), 1)
        clear = two[:, 1] - two[:, 0] > 1e-3
        for name, want in exp.items():
            fn = getattr(calc(), name)
            out = call(fn, a, '%s of %s' % (name, shape))
            if out.shape != shape + want.shape[1:]:
                raise Violation('%s of %s: shape is %s' % (name, shape,
                                                           out.shape))
            bad = np.abs(out.reshape(want.shape) - want) > tol * 100
            if name == 'principal_thickshell':
                bad &= clear[:, None]
            if bad.any():
                j = int(np.argwhere(bad)[0][0])
                raise Violation('%s, shape %s: position %d of %s is %s, '
                                'expected %s' % (
                                    name, shape, j, x[j],
                                    out.reshape(want.shape)[j], want[j]))
            env.step(n)
        env.state((shape, dt))
    env.trace()
    env.outcome('large')

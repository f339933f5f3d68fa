"""C17: hydrodynamic results sit at the right direction, frequency and
component.

Space: all grids of up to n directions and frequencies with the values in all
orders, x constellations of bodies (internal numbers that differ from the
external ones, interleaved results), sections and points x real/complex x
order of the reference types; time domain files with all sequences of time
instants.  On each file all axes and all results are compared value by value.
"""
import itertools

import numpy as np

from . import hydro, records, sesam
from .common import fs, must_convert, write_file
from .core import Violation

PROPERTY = 'C17'
BOUNDS = {
    'quick': {'grids': 'all (directions, frequencies) up to 3 x 3, values in '
              'all orders; 64 grids with nearly equal values; 3 sequences of '
              'reference numbers', 'configurations': '5 of bodies x 3 of sections '
              'and points x real/complex, all with each other on grids up to '
              '2 x 2, one half on larger grids',
              'large grids': '36 x 30 with 11 sections and 12 points, 270 x 3, '
              '2 x 300; 70 sections and 150 points on small grids',
              'equal': 'points and sections at one or two positions',
              'time': 'all sequences of <=3 out of 3 time instants',
              'models': '8 without results'},
    'thorough': {'grids': 'up to 4 x 3', 'configurations': 'all with each '
                 'other', 'large grids': 'as quick', 'time': 'all sequences of <=4 out of 4'},
}
RULE = 'state = distinct result (values); transition = one query'
ASSUMPTIONS = ['results are stored by direction, then frequency; section '
               'forces by section first; points and panels in number order',
               'values are compared exactly, elevations and angles with '
               'relative tolerance 1e-6']

DIRS = (0., .5, 2.75, 1.25)
FREQS = (.25, 1.5, .75, 2.)
BODIES = [[(1, 1)], [(7, 2)], [(1, 1), (2, 2)], [(2, 1), (1, 2)],
          [(3, 5), (5, 3), (1, 1)]]
# reference numbers of directions and frequencies
REFS = [(1, 2, 3, 4), (3, 1, 4, 2), (20, 10, 7, 15)]
# values that are close to each other
CLOSE = [((0., 1e-4, .50001, .5), (1., 1.00001, .5, .4999)),
         ((-.5, .5, 3.1415927, -3.1415927), (1e-4, 1.1e-4, 50., 50.001))]
PARTS = [({}, 0), ('two', 1), ('mixed', 3), ('many', 12), ('alike', 3),
         ('most', 150)]


def build(dirs, freqs, nb, part, cx, types, order, refs=0):
    bodies = BODIES[nb]
    what, npts = PARTS[part]
    if what == 'two':
        sections = dict((b, 2) for _, b in bodies)
    elif what == 'many':
        sections = dict((b, 11 - k) for k, (_, b) in enumerate(bodies))
    elif what == 'most':
        sections = dict((b, 70 - k) for k, (_, b) in enumerate(bodies))
    elif what in ('mixed', 'alike'):
        sections = dict((b, 1 + (k + nb) % 3) for k, (_, b) in
                        enumerate(bodies) if k % 2 == 0)
    else:
        sections = {}
    return hydro.Hydro(dirs, freqs, bodies, sections, npts, cx=cx,
                       types=types, order=order,
                       dirno=numbers(REFS[refs], len(dirs)),
                       freqno=numbers(REFS[refs - 1], len(freqs)))


def numbers(ref, n):
    return ref[:n] if n <= len(ref) else [ref[0] + 3 * k for k in range(n)]


def grids(nd, nf):
    for a in range(1, nd + 1):
        for b in range(1, nf + 1):
            for d in itertools.permutations(DIRS[:a]):
                for f in itertools.permutations(FREQS[:b]):
                    yield d, f


def scenarios(tier):
    for nd, nf, nb, part in ((36, 30, 2, 3), (270, 3, 1, 1), (2, 300, 0, 2)):
        yield {'kind': 'freq', 'radix': [12, nd, nf], 'files': [
            [[((k * 7) % nd) / 64. - 1 for k in range(nd)],
             [((k * 11) % nf) / 32. + .5 for k in range(nf)], nb, part, 1,
             nb, part % 2]]}
    for nb in range(len(BODIES)):
        # many points and sections; points and sections at equal positions
        yield {'kind': 'freq', 'radix': [150, 4, 4], 'files': [
            [DIRS[:1 + (nb + o) % 3], FREQS[:3 - nb % 3], nb, 5, cx, nb % 3, o]
            for cx in (0, 1) for o in (0, 1)]}
        for alike in (1, 2):
            yield {'kind': 'freq', 'alike': alike, 'radix': [12, 4, 4],
                   'files': [[DIRS[:nd], FREQS[:nf], nb, part, cx, nb % 3, o]
                             for nd in (1, 2, 3) for nf in (1, 2, 3)
                             for part in (4, 1, 3) for cx, o in
                             ((0, 1), (1, 0))]}
    nd, nf = (3, 3) if tier == 'quick' else (4, 3)
    block = []
    k = 0
    for d, f in grids(nd, nf):
        for nb in range(len(BODIES)):
            for part in range(3):
                for cx in (0, 1):
                    k += 1
                    if tier == 'quick' and (len(d) > 2 or len(f) > 2) and \
                            (k + k // 7) % 2:
                        continue
                    block.append([d, f, nb, part, cx, k % 3, k % 2])
                    if len(block) == 24:
                        yield {'kind': 'freq', 'files': block}
                        block = []
    for dirs, freqs in CLOSE:
        for a in range(1, 5):
            for b in range(1, 5):
                k += 1
                block.append([dirs[:a], freqs[:b], k % 5, k % 3, k % 2, k % 3,
                              (k // 2) % 2])
                block.append([dirs[:a][::-1], freqs[:b][::-1], k % 5, k % 3,
                              (k + 1) % 2, k % 3, (k // 3) % 2])
    if block:
        yield {'kind': 'freq', 'files': block}
    n = 3 if tier == 'quick' else 4
    for m in range(1, n + 1):
        yield {'kind': 'time', 'n': m, 'of': n}
    yield {'kind': 'nores'}


def run(p, env):
    globals()['run_' + p['kind']](p, env)


def opened(env, recs, fmt):
    lay = sesam.Layout(fmt=fmt)
    name = must_convert(env, write_file(
        env.path('G1.SIF' if fmt == 'F' else 'G1.SIU'), recs, lay),
        env.path('g.h5'))
    f = fs().open_hdf5(name)
    return f, f['G1']


def same(env, w, got, exp, tol=0.):
    env.step()
    got, exp = np.asarray(got), np.asarray(exp)
    if got.shape != exp.shape:
        raise Violation('%s: shape %s, expected %s' % (
            w, got.shape, exp.shape))
    ok = np.abs(got - exp) <= tol * np.abs(exp)
    if not np.all(ok):
        bad = tuple(np.argwhere(~ok)[0])
        raise Violation('%s: value at %s is %s, expected %s' % (
            w, [int(x) for x in bad], got[bad], exp[bad]))
    env.state((exp.shape, np.round(exp, 4).tobytes()))


def call(w, fn, *args):
    try:
        return fn(*args)
    except Exception as e:
        raise Violation('%s%r: %s: %s' % (w, args, type(e).__name__, e))


def refused(env, w, fn, *args):
    env.step()
    try:
        r = fn(*args)
    except Exception:
        return
    raise Violation('%s%r was not refused: %r' % (w, args, r))


def arr(h, what, a, b, ncomp, cx):
    """(component, direction, frequency)"""
    x = np.array([[[hydro.cvalue(what, a, b, i, j, c, cx)
                    for j in range(len(h.freqs))]
                   for i in range(len(h.dirs))] for c in range(ncomp)])
    return x


def check_axes(env, d, h, w):
    f4 = np.float32
    same(env, w + 'frequencies', call(w, d.get_angular_freqs), h.freqs)
    same(env, w + 'periods', call(w, d.get_periods),
         2 * np.pi / np.array(h.freqs), 1e-6)
    same(env, w + 'directions', call(w, d.get_directions, 'radians'), h.dirs)
    same(env, w + 'directions', call(w, d.get_directions, 'degrees'),
         np.degrees(h.dirs), 1e-6)
    same(env, w + 'directions', call(w, d.get_directions),
         np.degrees(h.dirs), 1e-6)
    refused(env, w + 'get_directions', d.get_directions, 'rad')
    for a, b in ((d.g, h.g), (d.ro, h.ro), (d.depth, h.depth)):
        if f4(a) != f4(b):
            raise Violation('%sg, ro, depth: %s, expected %s' % (w, a, b))


def run_freq(p, env):
    from freesif.exceptions import ResultError
    hydro.RADIX[:] = p.get('radix', [5, 4, 4])
    hydro.ALIKE = p.get('alike', 0)
    for k, (dirs, freqs, nb, part, cx, t, o) in enumerate(p['files']):
        h = build([float(np.float32(x)) for x in dirs],
                  [float(np.float32(x)) for x in freqs], nb, part, cx,
                  [(1, 2), (2, 1), (1, 2)][t],
                  ('body', 'iw')[o], (k + nb + part) % 3)
        f, d = opened(env, h.records(), 'FU'[k % 2])
        w = 'directions %.99s frequencies %.99s bodies %s sections %s points %d ' \
            'complex %d order %s: ' % (dirs, freqs, h.bodies, h.sections,
                                       h.npts, cx, h.order)
        check_axes(env, d, h, w)
        env.step()
        try:
            r = d.get_timesteps()
        except ResultError:
            pass
        else:
            raise Violation('%stime instants are %r' % (w, r))
        for ib, body in h.bodies:
            for name, meth, n, c in (
                    ('W1MOTION', 'get_motion_raos', 6, cx),
                    ('W1EXFORC', 'get_excitationforce_raos', 6, cx),
                    ('W2MDRIFT', 'get_meandrift', 6, 0),
                    ('W2HDRIFT', 'get_horiz_meandrift', 3, 0)):
                got = call(w + meth, getattr(d, meth), body)
                exp = arr(h, name, body, 0, n, c)
                same(env, '%s%s(%d)' % (w, meth, body), got,
                     exp if c else exp.real)
            ns = h.sections.get(body, 0)
            if ns:
                got = call(w + 'get_sectionforce_raos',
                           d.get_sectionforce_raos, body)
                same(env, '%sget_sectionforce_raos(%d)' % (w, body), got,
                     np.array([arr(h, 'W1SFORCE', body, s, 6, cx)
                               for s in range(ns)]))
                if body == 1:
                    same(env, w + 'get_sectionforce_raos()',
                         call(w, d.get_sectionforce_raos), got)
        if h.bodies[0][1] == 1:
            for meth in ('get_motion_raos', 'get_excitationforce_raos',
                         'get_meandrift', 'get_horiz_meandrift'):
                same(env, w + meth, getattr(d, meth)(), getattr(d, meth)(1))
        if h.npts:
            pr = np.array([arr(h, 'P', 0, q, 1, cx)[0]
                           for q in range(h.npts)])
            get = d.get_fluidkinematics_raos
            same(env, w + 'pressure', call(w, get, 'pressure'), pr)
            same(env, w + 'elevation', call(w, get, 'elevation'),
                 pr / h.ro / h.g, 1e-6)
            same(env, w + 'elevation', call(w, get), pr / h.ro / h.g, 1e-6)
            same(env, w + 'velocity', call(w, get, 'velocity'), np.array(
                [arr(h, 'V', 0, q, 3, cx) for q in range(h.npts)]))
            refused(env, w + 'get_fluidkinematics_raos', get, 'accel')
            same(env, w + 'points', call(w, d.get_points),
                 [h.point(q) for q in range(h.npts)])
        f.close()
        env.trace()
        env.outcome((len(dirs), len(freqs), len(h.bodies), part, cx))


FREQ_ONLY = ['get_angular_freqs', 'get_periods', 'get_motion_raos',
             'get_excitationforce_raos', 'get_sectionforce_raos',
             'get_fluidkinematics_raos', 'get_meandrift',
             'get_horiz_meandrift', 'get_pressure_panel_ids',
             'get_panel_pressures']


def run_nores(p, env):
    """models without results"""
    for n in range(8):
        npts, nsec, glob = n & 1, n >> 1 & 1, n >> 2
        h = hydro.Hydro((), (), [(3, 1)], {1: 2} if nsec else {}, 2 * npts)
        recs = [r for r in h.records() if glob or r.name != 'WGLOBDEF']
        f, d = opened(env, recs, 'FU'[n % 2])
        w = 'no results, %d points, %d sections: ' % (2 * npts, 2 * nsec)
        same(env, w + 'directions', call(w, d.get_directions), [])
        if npts:
            same(env, w + 'points', call(w, d.get_points),
                 [h.point(q) for q in range(2)])
        else:
            refused(env, w + 'get_points', d.get_points)
        if nsec:
            same(env, w + 'sections', call(w, d.get_sections)['isecty'],
                 [h.section(1, s)[2] for s in range(2)])
        else:
            refused(env, w + 'get_sections', d.get_sections)
        for m in FREQ_ONLY[2:]:
            refused(env, w + m, getattr(d, m))
        f.close()
        env.trace()
    env.outcome('no results')


def run_time(p, env):
    from freesif.exceptions import ResultError
    n = p['n']
    for seq in itertools.product((1.5, .25, 8., 0.)[:p['of']], repeat=n):
        for dirs in ([.5], [.5, 0.], [1.25, 2.75, 0.]):
            # without global constants for two directions
            glob = [hydro.wglobdef(9.75, 1024.)][:len(dirs) != 2]
            recs = [records.ident(1)] + glob + [hydro.wbodcon(3, 1)]
            iw = 0
            for i, di in enumerate(dirs):
                for j, t in enumerate(seq):
                    iw += 1
                    recs.append(hydro.wdresref(iw, [(1, [(i + 1, di)]),
                                                    (3, [(j + 1, t)])]))
            for k in range(iw):
                recs.append(hydro.wcommon('W1MOTION', 3, k + 1, 0,
                                          [float(k)] * 6))
            recs.append(records.iend())
            f, d = opened(env, recs, 'FU'[n % 2])
            w = 'time instants %s directions %s: ' % (seq, dirs)
            same(env, w + 'time instants', call(w, d.get_timesteps),
                 sorted(set(seq)))
            same(env, w + 'directions', call(w, d.get_directions, 'radians'),
                 dirs)
            got = [d.g, d.ro] if glob else [d.g, d.ro, d.depth]
            if got != ([9.75, 1024.] if glob else [None] * 3):
                raise Violation('%sg, ro, depth are %r' % (w, got))
            for m in FREQ_ONLY:
                env.step()
                try:
                    r = getattr(d, m)()
                except ResultError:
                    continue
                except Exception as e:
                    raise Violation('%s%s: %s: %s' % (
                        w, m, type(e).__name__, e))
                raise Violation('%s%s gives %r' % (w, m, r))
            f.close()
            env.trace()
    env.outcome('time')

"""C18: hydrodynamic body data refer to the right body, matrix type and panel.

Space: (a) all subsets of the six matrix types x bodies x orders of the
records x number of frequencies, with all types requested for all pairs of
bodies, including bodies that do not exist; (b) body properties, sections and
points for all subsets of bodies that have them; (c) panel pressures for
all small sets of panels and symmetry parts per body; forces and motions of
bodies that have none.
"""
import itertools

import numpy as np

from . import hydro, records
from .c17 import BODIES, arr, call, opened, refused, same
from .core import Violation
from .sesam import Rec

PROPERTY = 'C18'
BOUNDS = {
    'quick': {'matrices': 'all 64 subsets of types on a body pair x 5 '
              'constellations of <=3 bodies x 5 record orders, '
              'all (type, body, body) requested',
              'bodies': 'all subsets of bodies with properties, sections, '
              'motions; 2 record orders; different and equal properties', 'panels': 'all of <=3 panels and '
              '<=2 symmetry parts per body, real and complex, 2 x 2 grid',
              'sizes': '300 panels in 3 symmetry parts, 41 frequencies of '
              'all matrices between 5 bodies with large numbers'},
    'thorough': {'matrices': 'as quick with all pairs of subsets on the two '
                 'diagonal pairs', 'bodies': 'as quick', 'panels': 'as quick '
                 'with <=4 panels, <=3 parts, 3 grids'},
}
RULE = 'state = distinct result (values); transition = one query'
ASSUMPTIONS = ['one internal condition per body; panels are stored by '
               'symmetry part, then in increasing number, for all directions '
               'and frequencies; each frequency independent matrix once',
               'a body without sections, but section forces of others, may '
               'give an empty array or an error']

MTYPES = (11, 12, 21, 22, 31, 32)
NFREQ = 3
WRAP = [(11, 'get_bodymass'), (12, 'get_addedmass'),
        (21, 'get_potentialdamping'), (22, 'get_viscousdamping'),
        (31, 'get_hydrostatic_restoring'), (32, 'get_mooring_restoring')]


def matrix(mtyp, bi, bj, k):
    x = ((MTYPES.index(mtyp) * 4 + k) * 8 + bi) * 8 + bj
    return [[float(x * 40 + 6 * r + c) * (-1 if (r + c + x) % 3 else 1)
             for c in range(6)] for r in range(6)]


def matrix_recs(bodies, have, order, nfreq=NFREQ, matrix=matrix):
    """have: {(body, body): types}"""
    cond = dict((b, i) for i, b in bodies)
    out = []
    n = 0
    for (bi, bj), types in have.items():
        for t in types:
            for k in range(nfreq if t in (12, 21) else 1):
                m = [x for r in matrix(t, bi, bj, k) for x in r]
                key = {'pair': (bi, bj, t, k), 'type': (t, bi, bj, k),
                       'freq': (k, t, bj, bi), 'rev': (-t, -bj, -bi, k),
                       'mix': (k, -bi, t, bj)}[order]
                out.append((key, [cond[bi], cond[bj], k + 1 if
                                  t in (12, 21) else 0, t], m))
    out.sort(key=lambda x: x[0])
    recs = []
    for n, (_, h, m) in enumerate(out):
        recs.append(Rec('W1MATRIX', 'R', [42, n + 1, h[0], h[1]],
                        [[h[2], h[3]] + m], row={}))
    return recs


ORDERS = ('pair', 'type', 'freq', 'rev', 'mix')


def haves(bodies, tier):
    """which types each pair of bodies has"""
    bs = [b for _, b in bodies]
    subs = [[t for i, t in enumerate(MTYPES) if k >> i & 1]
            for k in range(64)]
    if tier == 'thorough' and len(bs) == 2:
        combos = itertools.product(range(64), range(64))
    else:
        combos = ((k, (k * 37 + 11) % 64) for k in range(64))
    for k, l in combos:
        have = {}
        for i, a in enumerate(bs):
            for j, b in enumerate(bs):
                n = k if i == j == 0 else l if i == j else \
                    (k * 5 + i * 21 + j * 10) % 64
                have[(a, b)] = subs[n]
        yield have


def scenarios(tier):
    for nb in range(len(BODIES)):
        for o in ORDERS:
            if tier == 'thorough' and nb in (2, 3):
                for part in range(16):
                    yield {'kind': 'matrix', 'bodies': nb, 'order': o,
                           'tier': tier, 'part': part, 'of': 16}
            else:
                yield {'kind': 'matrix', 'bodies': nb, 'order': o,
                       'tier': tier, 'part': 0, 'of': 1}
    for nb in range(len(BODIES)):
        for rev in (0, 1):
            for alike in (0, 1):
                yield {'kind': 'bodies', 'bodies': nb, 'rev': rev,
                       'alike': alike}
    for order in ('body', 'iw'):
        yield {'kind': 'manypanels', 'order': order}
    for order in ORDERS:
        yield {'kind': 'manymats', 'order': order}
    npan, nsym = (3, 2) if tier == 'quick' else (4, 3)
    for nb in range(len(BODIES)):
        for order in ('body', 'iw'):
            yield {'kind': 'panels', 'bodies': nb, 'order': order,
                   'npan': npan, 'nsym': nsym,
                   'grids': [[2, 2]] if tier == 'quick' else
                   [[2, 2], [1, 3], [3, 1]]}


def run(p, env):
    globals()['run_' + p['kind']](p, env)


def run_matrix(p, env):
    bodies = BODIES[p['bodies']]
    bs = [b for _, b in bodies]
    allh = list(haves(bodies, p['tier']))
    for n, have in enumerate(allh[p['part']::p['of']]):
        h = hydro.Hydro((0., .5), (.25, .5, .75), bodies,
                        extra=matrix_recs(bodies, have, p['order']), names=())
        f, d = opened(env, h.records(), 'FU'[n % 2])
        w = 'bodies %s matrices %s order %s: ' % (bodies, have, p['order'])
        for a in bs + [4, 0]:
            for b in bs + [4, 0]:
                if a in (4, 0) and b in (4, 0) and a != b:
                    continue
                for t, meth in WRAP:
                    if t not in have.get((a, b), ()):
                        refused(env, w + 'get_matrix', d.get_matrix, t, a, b)
                        if n % 8 == 0:
                            refused(env, w + meth, getattr(d, meth), a, b)
                        continue
                    if t in (12, 21):
                        exp = np.moveaxis(np.array(
                            [matrix(t, a, b, k) for k in range(NFREQ)]), 0, 2)
                    else:
                        exp = matrix(t, a, b, 0)
                    same(env, '%sget_matrix(%d, %d, %d)' % (w, t, a, b),
                         call(w, d.get_matrix, t, a, b), exp)
                    if n % 8 == 0 or (a, b) == (bs[0], bs[-1]):
                        same(env, '%s%s(%d, %d)' % (w, meth, a, b),
                             call(w, getattr(d, meth), a, b), exp)
                    if b == 1:
                        same(env, '%s%s(%d)' % (w, meth, a),
                             call(w, getattr(d, meth), a), exp)
                        same(env, '%sget_matrix(%d, %d)' % (w, t, a),
                             call(w, d.get_matrix, t, a), exp)
                        if a == 1:
                            same(env, '%sget_matrix(%d)' % (w, t),
                                 call(w, d.get_matrix, t), exp)
                            same(env, w + meth, call(w, getattr(d, meth)),
                                 exp)
        for t in (10, 13, 0, 33, '11', None):
            refused(env, w + 'get_matrix', d.get_matrix, t, bs[0], bs[0])
        f.close()
        env.trace()
    env.outcome('matrices %s' % bodies)


WBODY = ('clenb', 'bmass', 'wsarea', 'wparea', 'vol', 'xcg', 'ycg', 'zcg',
         'xcb', 'ycb', 'zcb', 'xrb', 'yrb', 'zrb')


def wbody(ib, body):
    if hydro.ALIKE:      # bodies with equal properties
        body = 1
    v = [body * 64 + k + .5 for k in range(14)]
    t = [float(body * 100 + k) for k in range(16)]
    return Rec('WBODY', 'R', [32, ib] + v[:2], [v[2:] + t], row={}), \
        dict(zip(WBODY, v)), np.array(t).reshape(4, 4)


BODY_METHODS = ['get_motion_raos', 'get_excitationforce_raos',
                'get_sectionforce_raos', 'get_meandrift',
                'get_horiz_meandrift', 'get_bodyproperties']


def run_bodies(p, env):
    bodies = BODIES[p['bodies']]
    n = len(bodies)
    hydro.ALIKE = p['alike']
    cond = dict((b, i) for i, b in bodies)
    for has in itertools.product((0, 1, 2, 3), repeat=n):
        # bit 0: properties and sections, bit 1: results
        have = [(i, b) for (i, b), x in zip(bodies, has) if x & 1]
        res = [(i, b) for (i, b), x in zip(bodies, has) if x & 2]
        recs = [wbody(i, b)[0] for i, b in have]
        if p['rev']:
            recs.reverse()
        h = hydro.Hydro((0., .5), (.25, .75), res,
                        dict((b, 1 + k % 2) for k, (_, b) in enumerate(have)),
                        npts=sum(has) % 3, extra=recs)
        out = h.records()
        # all bodies are defined, also those without results
        pos = [k for k, r in enumerate(out) if r.name == 'WBODCON']
        out = [r for r in out if r.name != 'WBODCON']
        at = pos[0] if pos else 2
        out[at:at] = [hydro.wbodcon(i, b) for i, b in bodies]
        sec = []
        for b, ns in h.sections.items():
            for s in range(ns):
                i, usr, ty, p1, p2, p3 = h.section(b, s)
                sec.append((usr, ty, p1, p2, p3))
                if (cond[b], b) not in res:   # section of body w/o results
                    at = [k for k, r in enumerate(out)
                          if r.name in ('WFKPOINT', 'WDRESREF')][0]
                    out.insert(at, Rec('WSECTION', 'R', [14, b, i, ty],
                                       [[usr] + p1 + p2 + p3], row={}))
        f, d = opened(env, out, 'FU'[sum(has) % 2])
        w = 'bodies %s, with properties %s, with results %s: ' % (
            bodies, have, res)
        for _, b in bodies:
            i = cond[b]
            if (i, b) in have:
                got = call(w + 'get_bodyproperties', d.get_bodyproperties, b)
                _, exp, t = wbody(i, b)
                if sorted(got) != sorted(list(exp) + ['t']):
                    raise Violation('%sbody properties of %d are %s' % (
                        w, b, sorted(got)))
                for k in exp:
                    if float(got[k]) != exp[k]:
                        raise Violation('%s%s of body %d is %s, expected %s' %
                                        (w, k, b, got[k], exp[k]))
                same(env, '%st of body %d' % (w, b), got['t'], t)
                if b == 1:
                    got = call(w, d.get_bodyproperties)
                    if float(got['bmass']) != exp['bmass']:
                        raise Violation('%sdefault body' % w)
            else:
                refused(env, w + 'get_bodyproperties', d.get_bodyproperties,
                        b)
            if (i, b) in res and h.sections.get(b):
                same(env, '%ssection forces of %d' % (w, b),
                     call(w, d.get_sectionforce_raos, b),
                     np.array([arr(h, 'W1SFORCE', b, s, 6, 1)
                               for s in range(h.sections[b])]))
            for meth in BODY_METHODS[:2] + BODY_METHODS[3:5]:
                if (i, b) in res:
                    n6 = 3 if 'horiz' in meth else 6
                    cx = 'mean' not in meth and 'horiz' not in meth
                    got = call(w + meth, getattr(d, meth), b)
                    e = arr(h, {'get_m': 'W1MOTION', 'get_e': 'W1EXFORC'}.get(
                        meth[:5], 'W2HDRIFT') if cx else
                        'W2HDRIFT' if n6 == 3 else 'W2MDRIFT', b, 0, n6, cx)
                    same(env, w + meth, got, e if cx else e.real)
                else:
                    refused(env, w + meth, getattr(d, meth), b)
        for b in (4, 0, 9, -1):
            for meth in BODY_METHODS + ['get_panel_pressures',
                                        'get_pressure_panel_ids']:
                if 'panel' in meth:
                    # nothing on the file: None, whatever the body
                    env.step()
                    try:
                        r = getattr(d, meth)(b)
                    except Exception:
                        continue
                    if r is not None:
                        raise Violation('%s%s(%d): %r' % (w, meth, b, r))
                    continue
                refused(env, w + meth, getattr(d, meth), b)
        if sec:
            got = call(w + 'get_sections', d.get_sections)
            order = [(usr, ty, p1, p2, p3) for r in out
                     if r.name == 'WSECTION'
                     for usr, ty, p1, p2, p3 in sec
                     if usr == r.cont[0][0]]
            if hydro.ALIKE:
                order = sec
            if len(got) != len(order):
                raise Violation('%s%d sections, expected %d' % (
                    w, len(got), len(order)))
            for g, e in zip(got, order):
                g = (int(g['secusr']), int(g['isecty'])) + tuple(
                    [float(x) for x in g[c]] for c in ('p1', 'p2', 'p3'))
                if g != e:
                    raise Violation('%ssection %s, expected %s' % (w, g, e))
        else:
            refused(env, w + 'get_sections', d.get_sections)
        if h.npts:
            same(env, w + 'points', call(w, d.get_points),
                 [h.point(k) for k in range(h.npts)])
        else:
            refused(env, w + 'get_points', d.get_points)
            refused(env, w + 'kinematics', d.get_fluidkinematics_raos)
        f.close()
        env.trace()
    env.outcome('bodies %s' % bodies)


def run_panels(p, env):
    bodies = BODIES[p['bodies']]
    sets = [((), ())] + [
        (ids, sym) for n in range(1, p['npan'] + 1) for ids in
        [tuple(range(1, n + 1)), (2, 7, 11, 40)[:n]]
        for sym in ((1,), (1, 2), (2, 5, 9))[:p['nsym']]]
    for n, first in enumerate(sets):
        for cx in (0, 1):
            for nd, nf in p['grids']:
                panels = {}
                for k, (_, b) in enumerate(bodies):
                    s = sets[(n + 3 * k) % len(sets)]
                    if s[0]:
                        panels[b] = s
                h = hydro.Hydro((0., .5, 1.)[:nd], (1.5, .25, .75)[:nf],
                                bodies, panels=panels, cx=cx,
                                order=p['order'], names=())
                f, d = opened(env, h.records(), 'FU'[cx])
                w = 'bodies %s panels %s complex %d order %s: ' % (
                    bodies, panels, cx, p['order'])
                for _, b in bodies:
                    ids = call(w + 'get_pressure_panel_ids',
                               d.get_pressure_panel_ids, b)
                    pr = call(w + 'get_panel_pressures',
                              d.get_panel_pressures, b)
                    env.step()
                    if b not in panels:
                        if ids is not None or pr is not None:
                            raise Violation('%sbody %d has panels %r' % (
                                w, b, ids))
                        continue
                    pan, sym = panels[b]
                    same(env, '%spanel ids of %d' % (w, b), ids,
                         [(x, s) for s in sym for x in pan])
                    exp = np.array([[[[hydro.cvalue('PANEL', b, k, i, j, s,
                                                    cx)
                                       for j in range(nf)] for i in range(nd)]
                                     for s in range(len(sym))]
                                    for k in range(len(pan))])
                    same(env, '%spanel pressures of %d' % (w, b), pr, exp)
                    if b == 1:
                        same(env, w + 'get_pressure_panel_ids()',
                             call(w, d.get_pressure_panel_ids), ids)
                        same(env, w + 'get_panel_pressures()',
                             call(w, d.get_panel_pressures), pr)
                f.close()
                env.trace()
    env.outcome('panels %s' % bodies)


def run_manypanels(p, env):
    """many panels with large numbers, on two of three bodies"""
    hydro.RADIX[:] = [301, 4, 4]
    bodies = [(1, 1), (3, 2), (2, 3)]
    panels = {1: (tuple(range(1, 301)), (1, 2, 4)),
              3: (tuple(range(70000, 70000 + 3 * 260, 3)), (1,))}
    for cx in (0, 1):
        h = hydro.Hydro((0., .5, 1.), (1.5, .25), bodies, panels=panels,
                        cx=cx, order=p['order'], names=())
        f, d = opened(env, h.records(), 'FU'[cx])
        for _, b in bodies:
            ids, pr = d.get_pressure_panel_ids(b), d.get_panel_pressures(b)
            if b not in panels:
                if ids is not None or pr is not None:
                    raise Violation('body %d has panels' % b)
                continue
            pan, sym = panels[b]
            w = '%d panels of body %d, complex %d' % (len(pan), b, cx)
            same(env, w + ': ids', ids, [(x, s) for s in sym for x in pan])
            same(env, w + ': pressures', pr, np.array(
                [[[[hydro.cvalue('PANEL', b, k, i, j, s, cx)
                    for j in range(2)] for i in range(3)]
                  for s in range(len(sym))] for k in range(len(pan))]))
        f.close()
        env.trace()
    env.outcome('manypanels')


def run_manymats(p, env):
    """all matrices of many frequencies between bodies with large numbers"""
    bodies = [(5, 12), (1, 300), (4, 7), (2, 1), (300, 66000)]
    bs = [b for _, b in bodies]
    nfreq = 41

    def mat(t, bi, bj, k):
        x = ((MTYPES.index(t) * 5 + bs.index(bi)) * 5 + bs.index(bj)) * 41 + k
        return [[float(x * 36 + 6 * r + c) for c in range(6)]
                for r in range(6)]
    have = {}
    for a in bs:
        for b in bs:
            have[a, b] = [t for k, t in enumerate(MTYPES)
                          if (bs.index(a) + 2 * bs.index(b) + k) % 3]
    h = hydro.Hydro((0., .5), [.25 + .125 * k for k in range(nfreq)], bodies,
                    extra=matrix_recs(bodies, have, p['order'], nfreq, mat),
                    names=())
    f, d = opened(env, h.records(), 'F')
    for a in bs:
        for b in bs:
            for t in MTYPES:
                w = 'get_matrix(%d, %d, %d)' % (t, a, b)
                if t not in have[a, b]:
                    refused(env, w, d.get_matrix, t, a, b)
                    continue
                exp = mat(t, a, b, 0)
                if t in (12, 21):
                    exp = np.moveaxis(np.array([mat(t, a, b, k) for k in
                                                range(nfreq)]), 0, 2)
                same(env, w, call(w, d.get_matrix, t, a, b), exp)
    for b in (0, 2, 3, 5, 4, 13, 301, 65536, 44, 464):
        refused(env, 'get_matrix', d.get_matrix, 11, b, b)
    f.close()
    env.trace()
    env.outcome('manymats')

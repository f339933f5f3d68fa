"""Small hydrodynamic files, see c17 and c18."""
from . import records
from .sesam import Rec


def wdresref(iw, pairs):
    """pairs: [(type, [(ref, value) ...])], type 1 direction, 2 frequency,
    3 time"""
    n = len(pairs[0][1]) if pairs else 0
    cont = []
    for t, vals in pairs:
        cont.append(t)
        for v in vals:
            cont += list(v)
    return Rec('WDRESREF', 'R', [4 + len(cont), iw, n, len(pairs)], [cont],
               row={})


def wglobdef(g, ro, depth=None):
    if depth is None:
        return Rec('WGLOBDEF', 'R', [4, g, ro, 0], [], row={})
    return Rec('WGLOBDEF', 'R', [5, g, ro, 1], [[depth]], row={})


def wbodcon(ibcond, ibody):
    return Rec('WBODCON', 'R', [4, ibcond, ibody, 0], [], row={})


def wcommon(name, ib, iw, cx, vals):
    return Rec(name, 'R', [4 + len(vals), ib, iw, cx], [vals], row={})


def simple(no=1, seed=1, ndir=2, nfreq=2):
    """one body, motions and excitation forces"""
    out = [records.ident(no), wglobdef(9.75, 1025., 50.), wbodcon(1, 1)]
    iw = 0
    for d in range(ndir):
        for f in range(nfreq):
            iw += 1
            out.append(wdresref(iw, [(1, [(d + 1, .5 * d)]),
                                     (2, [(f + 1, .25 * f + .125 * seed)])]))
    for name in ('W1EXFORC', 'W1MOTION'):
        for iw in range(1, ndir * nfreq + 1):
            out.append(wcommon(name, 1, iw, 1,
                               [float(seed * 1000 + iw * 20 + k +
                                      (500 if name == 'W1MOTION' else 0))
                                for k in range(12)]))
    return out + [records.iend()]


# ---complete models, see c17 and c18 -----------------------------------------

NDOF = {'W1MOTION': 6, 'W1EXFORC': 6, 'W2MDRIFT': 6, 'W2HDRIFT': 3}
CODE = {'W1MOTION': 1, 'W1EXFORC': 2, 'W2MDRIFT': 3, 'W2HDRIFT': 4,
        'W1SFORCE': 5, 'P': 6, 'V': 7, 'PANEL': 8}


RADIX = [5, 4, 4]    # numbers of sections or points, directions, frequencies


def value(what, a, b, i, j, comp, part=0):
    """distinct values (exact in single precision): a, b tell body, section,
    point or panel; i, j direction and frequency"""
    x = (((CODE[what] * 4 + a) * RADIX[0] + b) * RADIX[1] + i) * RADIX[2] + j
    return float((x * 8 + comp) * 2 + part) * (-1 if (x + comp) % 3 else 1)


def cvalue(what, a, b, i, j, comp, cx):
    re = value(what, a, b, i, j, comp, 0)
    return complex(re, value(what, a, b, i, j, comp, 1) if cx else 0.)


def _flat(vals, cx):
    out = []
    for v in vals:
        out.append(v.real)
        if cx:
            out.append(v.imag)
    return out


ALIKE = 0    # number of different positions of points and sections (0: all)


class Hydro(object):
    """dirs, freqs  values in file order
    bodies      [(ibcond, ibody)] in file order
    sections    {ibody: number of sections}
    npts        number of points, panels {ibody: (panel ids, symmetries)}
    cx          results are complex
    """
    g, ro, depth = 9.75, 1024., 50.

    def __init__(self, dirs, freqs, bodies=((1, 1),), sections=None, npts=0,
                 panels=None, cx=1, order='body', types=(1, 2), extra=(),
                 names=('W1MOTION', 'W1EXFORC', 'W2MDRIFT', 'W2HDRIFT'),
                 dirno=None, freqno=None):
        self.dirs, self.freqs = list(dirs), list(freqs)
        self.bodies = list(bodies)
        self.sections = dict(sections or {})
        self.npts = npts
        self.panels = dict(panels or {})
        self.cx = cx
        self.order = order
        self.types = types
        self.extra = list(extra)
        self.names = names
        # reference numbers of directions and frequencies
        self.dirno = dirno or range(1, len(self.dirs) + 1)
        self.freqno = freqno or range(1, len(self.freqs) + 1)

    @property
    def grid(self):
        """(i, j, iwres)"""
        k = 0
        for i in range(len(self.dirs)):
            for j in range(len(self.freqs)):
                k += 1
                yield i, j, k

    def section(self, body, s):
        """isect, secusr, isecty, points"""
        b = n = (10 if self.sections[body] < 10 else 100) * body + s
        if ALIKE:
            b, s = s % ALIKE, s % ALIKE
        return (n, 100 + b, 1 + s % 3, [float(b), .5, -1. * s],
                [float(b), 1.5, 2.], [0., float(s), -float(b)])

    def point(self, k):
        if ALIKE:
            k = k % ALIKE
        return [1.5 * k, -2. * k + 1, -float(k)]

    def records(self, no=1):
        out = [records.ident(no), wglobdef(self.g, self.ro, self.depth)]
        for ib, body in self.bodies:
            out.append(wbodcon(ib, body))
        for ib, body in self.bodies:
            for s in range(self.sections.get(body, 0)):
                i, usr, ty, p1, p2, p3 = self.section(body, s)
                out.append(Rec('WSECTION', 'R', [14, body, i, ty],
                               [[usr] + p1 + p2 + p3], row={}))
        for k in range(self.npts):
            p = self.point(k)
            out.append(Rec('WFKPOINT', 'R', [5, k + 1, p[0], p[1]],
                           [[p[2]]], row={}))
        for i, j, iw in self.grid:
            ref = {1: (1, [(self.dirno[i], self.dirs[i])]),
                   2: (2, [(self.freqno[j], self.freqs[j])])}
            out.append(wdresref(iw, [ref[t] for t in self.types]))
        out += self.results() + self.extra
        return out + [records.iend()]

    def results(self):
        res = []     # (sort key, record)
        cx = self.cx
        for n, name in enumerate(self.names):
            for b, (ib, body) in enumerate(self.bodies):
                for i, j, iw in self.grid:
                    v = [cvalue(name, body, 0, i, j, c,
                                cx and name[1] == '1')
                         for c in range(NDOF[name])]
                    if name[1] == '1':
                        r = wcommon(name, ib, iw, cx, _flat(v, cx))
                    else:
                        v = [x.real for x in v]
                        r = Rec(name, 'R', [3 + len(v), ib, iw, v[0]],
                                [v[1:]], row={})
                    res.append(((n, b, iw), (n, iw, b), r))
        n = len(self.names)
        for b, (ib, body) in enumerate(self.bodies):
            for s in range(self.sections.get(body, 0)):
                for i, j, iw in self.grid:
                    v = [cvalue('W1SFORCE', body, s, i, j, c, cx)
                         for c in range(6)]
                    f = _flat(v, cx)
                    res.append(((n, b, s, iw), (n, s, iw, b), Rec(
                        'W1SFORCE', 'R',
                        [5 + len(f), ib, self.section(body, s)[0], iw],
                        [[cx] + f], row={})))
        for i, j, iw in self.grid:
            for k in range(self.npts):
                v = [cvalue('P', 0, k, i, j, 0, cx)] + [
                    cvalue('V', 0, k, i, j, c, cx) for c in range(3)]
                f = _flat(v, cx)
                res.append(((n + 1, iw, k), (n + 1, iw, k), Rec(
                    'WFLUIDKN', 'R', [4 + len(f), iw, k + 1, cx], [f],
                    row={})))
        for b, (ib, body) in enumerate(self.bodies):
            ids, symms = self.panels.get(body, ((), ()))
            for i, j, iw in self.grid:
                for s, sym in enumerate(symms):
                    for k, pan in enumerate(ids):
                        v = cvalue('PANEL', body, k, i, j, s, cx)
                        f = _flat([v], cx)
                        res.append(((n + 2, b, iw, s, k),
                                    (n + 2, iw, s, k, b), Rec(
                            'W1PANPRE', 'R', [8 + len(f), ib, iw, k + 1],
                            [[sym, cx] + f + [pan, 0]], row={})))
        res.sort(key=lambda x: x[0 if self.order == 'body' else 1])
        return [r for _, _, r in res]

"""C21: any sequence of vtu writer calls gives a well-formed file or an error.

Space: all sequences of calls of the writer up to a depth, each followed by
close.  The reference model knows which calls are refused and which content
the document has to have.
"""
import itertools

import numpy as np

from . import c20, vtu
from .common import fs
from .core import Violation

PROPERTY = 'C21'
BOUNDS = {
    'quick': {'sequences': 'all sequences of <=6 out of 9 calls (two pieces, '
              'both kinds of blocks, data, data per element node, data and '
              'pieces that are refused, close)'},
    'thorough': {'sequences': 'all sequences of <=7'},
}
RULE = ('state = content of the document so far (pieces, blocks, arrays, '
        'closed); transition = one call')
ASSUMPTIONS = ['a call after close may raise any error']

CALLS = ['piece A', 'piece B', 'pointdata', 'celldata', 'data', 'celldata '
         'points', 'bad data', 'bad piece', 'close']
PIECES = {}
for _k, _t in (('A', [26]), ('B', [28, 15])):
    _n, _c = c20.cells(_t, True)
    PIECES[_k] = (c20.pts(_n), _c)


def scenarios(tier):
    n = 6 if tier == 'quick' else 7
    for a in range(len(CALLS)):
        for b in range(len(CALLS)):
            yield {'first': [a, b], 'n': n}


class Model(object):
    """content of the document"""

    def __init__(self):
        self.pieces = []        # [(kind, [(block, [array name])])]
        self.block = False
        self.closed = False
        # a piece was refused: the one before may be open or not
        self.unsure = False
        self.count = 0

    def allowed(self, call):
        """None: the call may be refused or not"""
        if self.closed:
            return call == 'close'
        if self.unsure and call in ('pointdata', 'celldata', 'data',
                                    'celldata points'):
            if call[-4:] == 'data' and call != 'data' and self.pieces:
                return None
            return None if self.block else False
        if call in ('pointdata', 'celldata'):
            return bool(self.pieces)
        if call in ('data', 'celldata points'):
            return self.block
        return not call.startswith('bad')

    def do(self, call):
        if call.startswith('piece'):
            self.pieces.append((call[-1], []))
            self.block = self.unsure = False
        elif call in ('pointdata', 'celldata'):
            tag = {'p': 'PointData', 'c': 'CellData'}[call[0]]
            self.pieces[-1][1].append((tag, []))
            self.block, self.unsure = True, False
        elif call in ('data', 'celldata points'):
            self.pieces[-1][1][-1][1].append((call, self.count))
        elif call == 'close':
            self.closed = True
            self.block = False


def data_for(m, call, count):
    k = m.pieces[-1][0] if m.pieces else 'A'
    n = len(PIECES[k][0])
    return np.arange(n, dtype='f4') + 1000 * count


def run(p, env):
    path = env.path('x.vtu')
    full = [list(t) for t in itertools.product(range(len(CALLS)),
                                               repeat=p['n'] - 2)]
    shorter = [[]] + [list(t) for n in range(1, p['n'] - 2)
                      for t in itertools.product(range(len(CALLS)), repeat=n)]
    for tail in shorter + full:
        sequence(env, path, p['first'] + tail)
    if p['first'][1] == 0:
        sequence(env, path, p['first'][:1])
    if p['first'] == [0, 0]:
        sequence(env, path, [])


def sequence(env, path, seq):
    from freesif.exceptions import VtkError
    w = fs().utils.VtuWriter(path)
    m = Model()
    what = 'calls %s' % [CALLS[i] for i in seq]
    content = None
    nclose = 0
    for i in seq:
        call = CALLS[i]
        m.count += 1
        env.step()
        ok = m.allowed(call)
        try:
            perform(w, m, call)
        except VtkError as e:
            if call == 'bad piece':
                m.unsure = True
            if ok:
                raise Violation('%s: %s refused: %s' % (what, call, e))
        except Exception as e:
            if call == 'bad piece':     # any error
                m.unsure = True
            elif not m.closed:
                raise Violation('%s: %s: %s: %s' % (
                    what, call, type(e).__name__, e))
        else:
            if ok is False:
                if not m.closed:
                    raise Violation('%s: %s was not refused' % (what, call))
            elif not m.closed:
                m.do(call)
        if m.closed:
            b = open(path, 'rb').read()
            if content is not None and b != content:
                raise Violation('%s: %s changed the closed file' % (
                    what, call))
            content = b
    try:
        w.close()
        w.close()
    except Exception as e:
        raise Violation('%s: close: %s: %s' % (what, type(e).__name__, e))
    if content is not None and open(path, 'rb').read() != content:
        raise Violation('%s: close changed the closed file' % what)
    compare(env, path, m, what)


def perform(w, m, call):
    if call.startswith('piece'):
        w.new_piece(*PIECES[call[-1]])
    elif call == 'pointdata':
        w.start_pointdata()
    elif call == 'celldata':
        w.start_celldata()
    elif call == 'data':
        w.add_data(data_for(m, call, m.count), 'd%d' % m.count)
    elif call == 'celldata points':
        w.add_data_cellpoints(data_for(m, call, m.count), 'e%d' % m.count,
                              ['c'])
    elif call == 'bad piece':
        points, (con, off, typ) = PIECES['A']
        bad = m.count % 3
        if bad == 0:
            w.new_piece(points, (con, off, typ * 0 + 99))
        elif bad == 1:
            w.new_piece(points.reshape(len(points), 3, 1), (con, off, typ))
        else:
            w.new_piece(points * 1j, (con, off, typ))
    elif call == 'bad data':
        w.add_data(np.zeros((2, 2, 2)), 'bad')
    else:
        w.close()


def compare(env, path, m, what):
    try:
        out = vtu.read(path)
    except Violation as e:
        raise Violation('%s: %s' % (what, e))
    if len(out) != len(m.pieces):
        raise Violation('%s: %d pieces, expected %d' % (
            what, len(out), len(m.pieces)))
    for d, (kind, blocks) in zip(out, m.pieces):
        points, cells = PIECES[kind]
        vtu.same_piece(d, points, cells, what)
        got = [(t, [a[0] for a in arrs]) for t, arrs in d['blocks']]
        exp = [(t, [('d%d' if c == 'data' else 'e%d') % n for c, n in arrs])
               for t, arrs in blocks]
        if got != exp:
            raise Violation('%s: the content is %s, expected %s' % (
                what, got, exp))
        for (t, arrs), (_, want) in zip(d['blocks'], blocks):
            for g, (c, n) in zip(arrs, want):
                x = np.arange(len(points), dtype='f4') + 1000 * n
                if c == 'data':
                    vtu.same_array(g, 'd%d' % n, x, None, what)
                else:
                    vtu.same_array(g, 'e%d' % n, x, ['c'], what, vtu.reorder(
                        x.tolist(), cells[1], cells[2], vtu.RES))
    env.state((m.pieces, m.closed))
    env.outcome((len(m.pieces), m.closed))
    env.trace()

"""Structural models: nodes, elements, sets, properties and results, with the
answers that queries must give (independent of the code under test)."""
import itertools
import os

from . import records, sesam
from .common import fs, must_convert, write_file
from .sesam import Rec

NN = dict(records.ELTYPES)          # number of nodes by element type
BEAM = (15, 23)
SHELL = (24, 25, 26, 28)
KINDS = {'beam': BEAM, 'shell': SHELL}


class Model(object):
    """nodes   [(external number, (x, y, z))]
    elems   [(external number, type, [internal node numbers])]
    sets    [(name, isref, [member lists of elements], [of nodes])]
    """

    def __init__(self, nodes, elems, sets=(), extra=(), letter='T', no=5):
        self.nodes = list(nodes)
        self.elems = list(elems)
        self.sets = list(sets)
        self.extra = list(extra)
        self.letter = letter
        self.no = no
        self.set_recs = None     # explicit records of the sets

    # -- file ---------------------------------------------------------------

    def gset(self):
        out = []
        for name, isref, em, nm in self.sets:
            out.append(tdsetnam(name, isref))
            k = 0
            for istype, lists in ((2, em), (1, nm)):
                for m in lists:
                    k += 1
                    out.append(gsetmemb(isref, k, istype, m))
        return out

    def records(self):
        out = []
        if self.letter == 'R':
            out = [records.irecsize(), records.hier_row(1, self.no, 1, 1),
                   records.iend(1), records.irecsize()]
        out.append(records.ident(self.no))
        for i, (ext, xyz) in enumerate(self.nodes):
            out.append(Rec('GNODE', 'I', [ext, i + 1, 6, 123456],
                           row=dict(nodex=ext, nodeno=i + 1, ndof=6,
                                    odof=123456)))
        for i, (ext, xyz) in enumerate(self.nodes):
            out.append(Rec('GCOORD', 'I', [i + 1] + list(xyz),
                           row=dict(nodeno=i + 1, xcoord=xyz[0],
                                    ycoord=xyz[1], zcoord=xyz[2])))
        for i, (ext, typ, nod) in enumerate(self.elems):
            out.append(Rec('GELMNT1', 'I', [ext, i + 1, typ, 0], [list(nod)],
                           row=dict(elnox=ext, elno=i + 1, eltyp=typ,
                                    eltyad=0), vl={'nodin': list(nod)}))
        out += self.gset() if self.set_recs is None else self.set_recs
        out += self.extra
        return out + [records.iend()]

    def filename(self, fmt='F', prefix=''):
        ext = 'FEM' if self.letter == 'T' else 'SIF' if fmt == 'F' else 'SIU'
        return '%s%s%d.%s' % (prefix, self.letter, self.no, ext)

    @property
    def key(self):
        return '%s%d' % (self.letter, self.no)

    def write(self, env, fmt='F', lay=None, prefix=''):
        return write_file(env.path(self.filename(fmt, prefix)),
                          self.records(), lay or sesam.Layout(fmt=fmt))

    def open(self, env, fmt='F', lay=None):
        """(File, data set) of the converted model"""
        d = env.path()
        name = must_convert(env, self.write(env, fmt, lay),
                            os.path.join(d, 'm.h5'))
        f = fs().open_hdf5(name)
        return f, f[self.key]

    # -- answers ------------------------------------------------------------

    def select(self, sets=None, kind=None):
        """indices of the selected elements; KeyError/ValueError if there is
        no such set or kind"""
        idx = list(range(len(self.elems)))
        if sets:
            if isinstance(sets, (str, bytes)):
                sets = [sets]
            mem = set()
            for s in sets:
                s = s.decode() if isinstance(s, bytes) else s
                byname = dict((x[0], x) for x in self.sets)
                for m in byname[s][2]:
                    mem.update(m)
            idx = [i for i in idx if i + 1 in mem]
        if kind:
            if kind not in KINDS:
                raise ValueError(kind)
            idx = [i for i in idx if self.elems[i][1] in KINDS[kind]]
        return idx

    def node_rows(self, sets=None, kind=None, disconnected=False):
        """internal node indices of the node array"""
        idx = self.select(sets, kind)
        if not disconnected and not sets and not kind:
            return list(range(len(self.nodes)))
        con = [n - 1 for i in idx for n in self.elems[i][2]]
        return con if disconnected else sorted(set(con))

    def mesh(self, sets=None, kind=None, disconnected=False):
        """(connectivity, offsets, types)"""
        idx = self.select(sets, kind)
        rows = self.node_rows(sets, kind, disconnected)
        con, off, typ = [], [], []
        pos = {}
        if not disconnected:
            pos = dict((r, k) for k, r in enumerate(rows))
        k = 0
        for i in idx:
            for n in self.elems[i][2]:
                con.append(k if disconnected else pos[n - 1])
                k += 1
            off.append(k)
            typ.append(self.elems[i][1])
        return con, off, typ


def tdsetnam(name, isref):
    return Rec('TDSETNAM', 'D', [4, isref, 100 + len(name), 0], text=[name],
               row=dict(nfield=4, idno=isref, codnam=100 + len(name),
                        codtxt=0, name=('text', name)), vl={'text': []})


def gsetmemb(isref, index, istype, members):
    n = len(members)
    return Rec('GSETMEMB', 'R', [5 + n, isref, index, istype],
               [[0] + list(members)],
               row=dict(nfield=5 + n, isref=isref, index=index, istype=istype,
                        isorig=0), vl={'irmemb': list(members)})


def points(n, seed=0):
    """n nodes with distinct external numbers and coordinates"""
    out = []
    for i in range(n):
        k = (7 * i + 3 * seed) % 31
        out.append((100 + 5 * ((i * 11 + seed) % 53) + i,
                    (1. + k, 2. * i - .5, -3. * i + .25 * k)))
    return out


def nodes_for(typ, variant, npool):
    """node lists of an element within a pool of nodes; variants share nodes
    in different ways"""
    n = NN[typ]
    if variant == 0:
        nod = list(range(1, n + 1))
    elif variant == 1:
        nod = list(range(npool, npool - n, -1))
    elif variant == 2:
        nod = [1 + (3 * i + 1) % npool for i in range(n)]
    else:
        nod = [1 + (5 * i + 4) % npool for i in range(n)]
    assert len(set(nod)) == n, (typ, variant, nod)
    return nod


# ---properties ---------------------------------------------------------------

def elref(elno, geono, other=0, nnodes=0):
    """reference record of an element; geono: one number, or a list (one per
    node); other: choice of the other references (0: none)"""
    k = elno * 7 + other
    mat, l2 = [1, 0, 0], [0, 0, 0, 0]
    fix, lists = [0, 0, 0], []
    if other:
        mat = [1 + k % 3, k % 4, k % 5]
        l2 = [k % 2, k % 3, (k + 1) % 2, 2]
        for i in range(3):
            c = (k // (1 + i)) % 3
            if c == 2 and nnodes:
                fix[i] = -1
                lists += [50 + i * 10 + j for j in range(nnodes)]
            else:
                fix[i] = c
    if isinstance(geono, int):
        g, per = geono, []
    else:
        g, per = -1, list(geono)
    groups = [l2, [g] + fix]
    if per or lists:
        groups.append(per + lists)
    return Rec('GELREF1', 'I', [elno] + mat, groups, row={})


# ---results ------------------------------------------------------------------

def resref(ires, irno, ieres, cx=0):
    return Rec('RDRESREF', 'R', [7, ires, irno, ieres], [[1, cx, 0]],
               row=dict(nfield=7, ires=ires, irno=irno, ieres=ieres, icalty=1,
                        icompl=cx, numtyp=0), vl={'reftyps': []})


def rvnod(rectype, ires, node, values):
    return Rec(rectype, 'R', [5 + len(values), ires, node, 1],
               [[0] + list(values)],
               row={})


# number of stored (result points, components) by element type
STORED = {15: (3, 6), 23: (2, 6), 24: (10, 3), 25: (8, 3), 26: (6, 5),
          28: (8, 5)}


def rdpoints(elno, typ, ispalt=1):
    nsp = STORED[typ][0]
    grid = {3: (1, 1, 3), 2: (1, 1, 2), 10: (1, 2, 5), 8: (1, 2, 4),
            6: (1, 2, 3)}[nsp]
    cont = []
    for k in range(nsp):
        cont += [k + 1, .5 * k, -.25 * k, 1.]
    return Rec('RDPOINTS', 'R', [9 + len(cont), ispalt, elno, typ],
               [[typ, nsp, grid[0] * 10000 + grid[1] * 100 + grid[2], 0, 0] +
                cont], row={})


def rdcomp(name, typ):
    n = STORED[typ][1]
    return Rec(name, 'R', [3 + n, typ, n, 1], [list(range(2, n + 1))], row={})


def rvelm(rectype, ires, elno, typ, values, ispalt=1):
    return Rec(rectype, 'R', [5 + len(values), ires, elno, ispalt],
               [[typ] + list(values)], row={})


def name_record(rec, no, name):
    return Rec(rec, 'D', [4, no, 100 + len(name), 0], text=[name],
               row=dict(nfield=4, idno=no), vl={'text': []})


def demo(letter='T', no=5):
    """mixed model with sets"""
    pts = points(14)
    elems = [(31, 15, [1, 2]), (12, 24, [3, 4, 5, 2]), (77, 18, [1]),
             (13, 25, [5, 4, 6]), (9, 23, [6, 7, 8]),
             (55, 28, [9, 3, 10, 2, 11, 5, 12, 1])]
    sets = [('A', 4, [[2, 1, 6]], [[1, 2]]), ('Bset', 2, [[4], [1]], []),
            ('nodes', 7, [], [[1, 5]]), ('all', 9, [[1, 2, 3, 4, 5, 6]], [])]
    return Model(pts, elems, sets, letter=letter, no=no)

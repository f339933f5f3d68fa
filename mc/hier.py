"""Superelement hierarchies: shapes, files and expected groups.

A shape is a list of rows (iselty, indsel, islevl, parent) where parent is the
row number (ihref, counted from 1) of the parent and 0 for the top level; the
row number of a row is its ihref.
"""
import os

import itertools

from . import records, sesam
from .records import Ctx
from .sesam import Rec

SHAPES = {
    'one_level': [(7, 1, 1, 0)],
    'two_level': [(10, 1, 2, 0), (1, 1, 1, 1), (2, 1, 1, 1), (1, 2, 1, 1)],
    'two_same': [(10, 1, 2, 0), (3, 1, 1, 1), (3, 2, 1, 1), (3, 3, 1, 1)],
    # repetition 2 is listed before repetition 1
    'reverse': [(10, 1, 2, 0), (1, 2, 1, 1), (2, 1, 1, 1), (1, 1, 1, 1)],
    # depth first
    'three_df': [(100, 1, 3, 0), (20, 1, 2, 1), (1, 1, 1, 2), (1, 2, 1, 2),
                 (20, 2, 2, 1), (1, 3, 1, 5), (2, 1, 1, 5)],
    # breadth first
    'three_bf': [(100, 1, 3, 0), (20, 1, 2, 1), (21, 1, 2, 1), (1, 1, 1, 2),
                 (2, 1, 1, 2), (2, 2, 1, 3), (1, 2, 1, 3)],
    # first level superelements on different depths
    'mixed': [(100, 1, 3, 0), (1, 1, 1, 1), (20, 1, 2, 1), (1, 2, 1, 3),
              (4, 1, 1, 3)],
    'four': [(200, 1, 4, 0), (30, 1, 3, 1), (20, 1, 2, 2), (1, 1, 1, 3),
             (20, 2, 2, 1), (1, 2, 1, 5), (1, 3, 1, 2)],
    'wide': [(11, 1, 2, 0), (12, 1, 1, 1), (1, 1, 1, 1), (2, 1, 1, 1),
             (13, 1, 1, 1), (14, 1, 1, 1)],
}


# SHARE: number of different transformations (rows share them); SHIFT: offset
# into the catalogue of transformations, to tell hierarchies apart
SHARE = None
SHIFT = 0


def itref(k, shape):
    """transformation reference of row k; not in row order"""
    if k and SHARE:
        k = 1 + k % SHARE
    return 0 if k == 0 else 50 + (7 * k) % 97


# transformations with small integers, so that products are exact
ROT = [((1, 0, 0), (0, 1, 0), (0, 0, 1)), ((0, 1, 0), (-1, 0, 0), (0, 0, 1)),
       ((1, 0, 0), (0, 0, 1), (0, -1, 0)), ((0, 0, -1), (0, 1, 0), (1, 0, 0)),
       ((2, 0, 0), (0, 1, 1), (0, 0, 1)), ((1, 3, 0), (0, 1, 0), (0, 0, -1)),
       ((-1, 0, 0), (0, -1, 0), (0, 0, 1))]


def matrix(k):
    """transformation of row k (row vector convention)"""
    if k and SHARE:
        k = 1 + k % SHARE
    k += SHIFT
    r = ROT[k % len(ROT)]
    return [list(map(float, r[0])) + [0.], list(map(float, r[1])) + [0.],
            list(map(float, r[2])) + [0.],
            [float(10 * k + 1), float(-20 * k - 2), float(30 * k + 3), 1.]]


def mul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(4)) for j in range(4)]
            for i in range(4)]


IDENTITY = [[float(i == j) for j in range(4)] for i in range(4)]


def rows(shape):
    out = []
    for k, (typ, ind, lev, par) in enumerate(shape):
        subs = [n + 1 for n, r in enumerate(shape) if r[3] == k + 1]
        out.append(records.hier_row(k + 1, typ, ind, lev, itref(k, shape), par,
                                    subs))
    return out


def hsuptran(shape):
    out = []
    seen = set()
    for k in reversed(range(1, len(shape))):
        if itref(k, shape) in seen:
            continue
        seen.add(itref(k, shape))
        m = matrix(k)
        flat = [x for r in m for x in r]
        out.append(Rec('HSUPTRAN', 'R', [18, itref(k, shape)] + flat[:2],
                       [flat[2:]],
                       row=dict(nfield=18, itref=itref(k, shape), t=m)))
    return out


def rsuptran(k):
    m = matrix(k)
    flat = [x for r in m for x in r]
    return Rec('RSUPTRAN', 'R', [18, 1] + flat[:2], [flat[2:]],
               row=dict(nfield=18, itref=1, t=m))


def date(txt):
    return Rec('DATE', 'T', [1, 0, 1, 72], text=['DATE: ' + txt],
               row=dict(type=1, subtype=0, nrecs=1, nbyte=72),
               vl={'recs': [('text', '        DATE: ' + txt)]})


def mesh(seed, nnodes=3):
    """nodes, and beams between consecutive nodes"""
    out = []
    for i in range(nnodes):
        out.append(Rec('GNODE', 'I', [10 * seed + i, i + 1, 6, 123456],
                       row=dict(nodex=10 * seed + i, nodeno=i + 1, ndof=6,
                                odof=123456)))
    for i in range(nnodes):
        c = [seed + i, 2 * seed - i, 3 * i - seed]
        out.append(Rec('GCOORD', 'I', [i + 1] + c,
                       row=dict(nodeno=i + 1, xcoord=c[0], ycoord=c[1],
                                zcoord=c[2])))
    for i in range(nnodes - 1):
        out.append(Rec('GELMNT1', 'I', [10 * seed + 5 + i, i + 1, 15, 0],
                       [[i + 1, i + 2]],
                       row=dict(elnox=10 * seed + 5 + i, elno=i + 1, eltyp=15,
                                eltyad=0), vl={'nodin': [i + 1, i + 2]}))
    return out


def coords(seed, nnodes=3):
    return [[float(seed + i), float(2 * seed - i), float(3 * i - seed)]
            for i in range(nnodes)]


def gelmnt2(seed, subno, slevel, stype):
    t = [float(seed + k) for k in range(12)]
    return Rec('GELMNT2', 'I', [subno, slevel, stype, seed],
               [t + [2, 1, 2]],
               row=dict(subno=subno, slevel=slevel, stype=stype, addno=seed,
                        t=t, nnod=2), vl={'nod': [1, 2]})


def seed_of(k):
    return 100 + 17 * k


def top_records(shape, letter, ident_first=False, tran=True):
    typ, _, lev, _ = shape[0]
    h = rows(shape)
    if letter == 'T':
        head = h + [records.ident(typ, lev)] if not ident_first else \
            [records.ident(typ, lev)] + h
        out = [date('T top')] if not ident_first else []
        out = head + out
        if tran:
            out += hsuptran(shape)
        out += [r for r in mesh(seed_of(0), 2) if r.name != 'GELMNT1']
        for n, r in enumerate(shape):
            if r[3] == 1:
                out.append(gelmnt2(n + 1, n, r[2], r[0]))
        if len(shape) == 1:
            out += mesh(seed_of(0))[-2:-1]
        return out + [records.iend()]
    out = [records.irecsize()] + h + [date('R top'), records.iend(1),
                                      records.irecsize(),
                                      records.ident(typ, lev)]
    if tran:
        out += hsuptran(shape)
    out += mesh(seed_of(0)) if len(shape) == 1 else \
        [r for r in mesh(seed_of(0), 2) if r.name != 'GELMNT1']
    return out + [records.iend()]


def lower_records(shape, letter, k, rtran=True):
    typ, ind, lev, par = shape[k]
    out = [records.ident(typ, lev)]
    if letter == 'R':
        out = [records.irecsize()] + out
        if rtran:
            out.append(rsuptran(k))
        res = [Rec('RDRESREF', 'R', [7, 1, 1, 1 + k], [[1, 0, 0]],
                   row=dict(nfield=7, ires=1, irno=1, ieres=1 + k, icalty=1,
                            icompl=0, numtyp=0), vl={'reftyps': []})]
        for i in range(3):
            v = [float(1000 * k + 10 * i + c) for c in range(6)]
            res.append(Rec('RVNODDIS', 'R', [11, 1, i + 1, 1], [[0] + v],
                           row=dict(nfield=11, ires=1, iinod=i + 1, irdva=1,
                                    itrans=0), vl={'dis': v}))
        return out + [date('R %d' % k)] + mesh(seed_of(k)) + res + \
            [records.iend()]
    out.append(date('T %d' % typ))
    if lev > 1:
        out += [r for r in mesh(seed_of(k), 2) if r.name != 'GELMNT1']
        for n, r in enumerate(shape):
            if r[3] == k + 1:
                out.append(gelmnt2(seed_of(k) + n, n, r[2], r[0]))
    else:
        out += mesh(seed_of(k), 3 + k % 3)
    return out + [records.iend()]


def ext_of(letter, fmt):
    return 'FEM' if letter == 'T' else 'SIF' if fmt == 'F' else 'SIU'


def lower_files(shape, letter):
    """[(row index, name without prefix and extension)] of all lower files"""
    out = []
    for k, (typ, ind, lev, par) in enumerate(shape):
        if k == 0:
            continue
        if letter == 'R' and lev == 1:
            out.append((k, 'R%dH%d' % (typ, k + 1)))
        elif letter == 'T' and ind == 1:
            out.append((k, 'T%d' % typ))
    return out


def write(d, shape, letter, fmt='F', missing=(), prefix='', lower=False,
          lay=None, **kw):
    """write all files except the lower files with the given row indices;
    returns the path of the top level file"""
    lay = lay or sesam.Layout(fmt=fmt)
    ext = ext_of(letter, fmt)

    def name(base):
        n = base + '.' + ext
        return os.path.join(d, prefix + (n.lower() if lower else n))

    top = name('%s%d' % (letter, shape[0][0]))
    with open(top, 'wb') as f:
        f.write(sesam.encode(top_records(shape, letter, **kw), lay))
    for k, base in lower_files(shape, letter):
        if k in missing:
            continue
        with open(name(base), 'wb') as f:
            f.write(sesam.encode(lower_records(shape, letter, k), lay))
    return top


def expected(shape, letter, missing=(), prefix='', **kw):
    """{group path: (attributes, records)}"""
    top = '/%s%s%d' % (prefix, letter, shape[0][0])
    level = 'TOPLEVEL'
    if letter == 'R' and shape[0][2] == 1:
        level = 'FIRSTLEVEL'
    out = {top: (dict(LEVEL=level, SELTYP=shape[0][0], FILETYPE=letter,
                      DATATYPE='STRUCTURAL'),
                 top_records(shape, letter, **kw))}
    for k, base in lower_files(shape, letter):
        if k in missing:
            continue
        typ, ind, lev, par = shape[k]
        a = dict(LEVEL='FIRSTLEVEL' if lev == 1 else 'INTERLEVEL',
                 SELTYP=typ, FILETYPE=letter, DATATYPE='STRUCTURAL')
        g = '%s/%s%d' % (top, letter, typ)
        if letter == 'R':
            a['INDEX'] = ind
            g += '_%d' % ind
        out[g] = (a, lower_records(shape, letter, k))
    return out


def transformation(shape, typ, ind, level):
    """matrix from first level to `level`, or None if there is none"""
    top = shape[0][2]
    if level == 'top':
        level = top
    if not 1 <= level <= top:
        return None
    if level == 1:
        return IDENTITY
    ks = [k for k, r in enumerate(shape) if r[0] == typ and r[1] == ind]
    if not ks or ks[0] == 0:
        return None
    k = ks[0]
    t = IDENTITY
    while shape[k][2] < level:
        if k == 0:
            return None
        t = mul(t, matrix(k))
        k = shape[k][3] - 1
    return t if shape[k][2] == level else None


def sub_lists(seq):
    for n in range(len(seq) + 1):
        for c in itertools.combinations(seq, n):
            yield c

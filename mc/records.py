"""Independent specification of the supported SESAM records.

``make(name, ctx, variant)`` builds one record with unique values, together
with the table row and variable-length parts that have to come out of a
conversion.  Variants differ in the sizes of the variable parts, and in flags
that change the shape of a record.
"""
import struct

from .sesam import Rec


def f32(x):
    return struct.unpack('f', struct.pack('f', x))[0]


class Ctx(object):
    """source of unique values, and record-to-record dependencies"""

    def __init__(self, start=0, special=None, const=None):
        self.n = start
        self.const = const          # the same for all integers
        self.k = start
        self.special = special      # list of values to cycle through
        self.pre = []               # records to be put in front

    def i(self):
        if self.const is not None:
            return self.const
        self.n += 1
        return self.n

    def f(self):
        if self.special:
            self.k += 1
            return f32(self.special[self.k % len(self.special)])
        self.n += 1
        return (self.n + 0.5) * (-1 if self.n % 3 == 0 else 1)

    def fs(self, n):
        return [self.f() for _ in range(n)]

    def is_(self, n):
        return [self.i() for _ in range(n)]


# --------------------------------------------------------------------------
# records with a fixed number of fields
# --------------------------------------------------------------------------

# name: (kind, fields); a field is 'name:i' or 'name:f', '_' is a value that is
# on the file but not stored, 'name:f*n' is an array field
FIXED = {
    'GNODE': ('I', 'nodex:i nodeno:i ndof:i odof:i'),
    'GCOORD': ('I', 'nodeno:i xcoord:f ycoord:f zcoord:f'),
    'GECCEN': ('I', 'eccno:i ex:f ey:f ez:f'),
    'GUNIVEC': ('I', 'transno:i unix:f uniy:f uniz:f'),
    'GELTH': ('I', 'geono:i th:f nint:i _'),
    'GBEAMG': ('I', 'geono:i void:f area:f ix:f iy:f iz:f iyz:f wxmin:f '
                    'wymin:f wzmin:f shary:f sharz:f shceny:f shcenz:f sy:f '
                    'sz:f'),
    'MISOSEL': ('I', 'matno:i young:f poiss:f rho:f damp:f alpha:f _ _'),
    'BGRAV': ('I', 'llc:i empty1:f empty2:f opt:i gx:f gy:f gz:f _'),
    'RSUPTRAN': ('R', 'nfield:=18 itref:i t:f*4*4'),
    'HSUPTRAN': ('R', 'nfield:=18 itref:i t:f*4*4'),
    'WBODY': ('R', 'nfield:=32 ibcond:i clenb:f bmass:f wsarea:f wparea:f '
                   'vol:f xcg:f ycg:f zcg:f xcb:f ycb:f zcb:f xrb:f yrb:f '
                   'zrb:f t:f*4*4'),
    'W1MATRIX': ('R', 'nfield:=42 imatrx:i ibconi:i ibconj:i iwres:i imtyp:i '
                      'hmat:f*6*6'),
    'W2HDRIFT': ('R', 'nfield:=6 ibcond:i iwres:i shfor:f*3'),
    'W2MDRIFT': ('R', 'nfield:=9 ibcond:i iwres:i smfor:f*6'),
    'WFKPOINT': ('R', 'nfield:=5 ifkpnt:i fkpnt:f*3'),
    'WSECTION': ('R', 'nfield:=14 ibody:i isect:i isecty:i secusr:i p1:f*3 '
                      'p2:f*3 p3:f*3'),
    'WINPUT': ('R', 'nfield:=18 ibcond:i t:f*4*4'),
}

# sections: last fields may be left out (the last line then is missing or
# short)
SECTIONS = {
    'GBARM': ('geono:i hz:f bt:f bb:f sfy:f sfz:f nloby:i nlobz:i', 2),
    'GBOX': ('geono:i hz:f ty:f t_b:f tt:f by:f sfy:f sfz:f nloby:i nlobz:i',
             2),
    'GCHAN': ('geono:i hz:f ty:f by:f tz:f sfy:f sfz:f empty:i k:i nloby:i '
              'nlobz:i', 2),
    'GCHANR': ('geono:i hz:f ty:f by:f tz:f sfy:f sfz:f empty:i k:i r:f '
               'nloby:i nlobz:i', 2),
    'GDOBO': ('geono:i hz:f ty:f by:f tt:f t_b:f sfy:f sfz:f nloby:i nlobz:i',
              2),
    'GIORH': ('geono:i hz:f ty:f bt:f tt:f bb:f t_b:f sfy:f sfz:f nlobyt:i '
              'nlobyb:i nlobz:i', 3),
    'GIORHR': ('geono:i hz:f ty:f bt:f tt:f bb:f t_b:f sfy:f sfz:f rt:f rb:f '
               'nlobyt:i nlobyb:i nlobz:i', 2),
    'GLSEC': ('geono:i hz:f ty:f by:f tz:f sfy:f sfz:f k:f nloby:i nlobz:i',
              2),
    'GLSECR': ('geono:i hz:f ty:f by:f tz:f sfy:f sfz:f k:f r:f nloby:i '
               'nlobz:i', 2),
    'GPIPE': ('geono:i di:f dy:f t:f sfy:f sfz:f ncir:i nrad:i', 2),
    'GUSYI': ('geono:i hz:f ty:f bt:f b1:f tt:f bb:f b2:f t_b:f sfy:f sfz:f '
              'nlobyt:i nlobyb:i nlobz:i', 2),
}


def _fixed_fields(spec, ctx):
    """-> (values in file order, row)"""
    vals, row = [], {}
    for fld in spec.split():
        if fld == '_':
            vals.append(0.)
            continue
        name, typ = fld.split(':')
        if typ.startswith('='):
            v = int(typ[1:])
            vals.append(v)
            row[name] = v
            continue
        dims = [int(x) for x in typ.split('*')[1:]]
        n = 1
        for d in dims:
            n *= d
        vs = [ctx.i() if typ[0] == 'i' else ctx.f() for _ in range(n)]
        vals.extend(vs)
        if not dims:
            row[name] = vs[0]
        elif len(dims) == 1:
            row[name] = vs
        else:
            row[name] = [vs[k*dims[1]:(k+1)*dims[1]] for k in range(dims[0])]
    return vals, row


def _mk_fixed(name):
    kind, spec = FIXED[name]

    def mk(ctx, v):
        vals, row = _fixed_fields(spec, ctx)
        return Rec(name, kind, vals[:4], [vals[4:]], row=row)
    return mk


def _mk_section(name):
    spec, nopt = SECTIONS[name]

    def mk(ctx, v):
        vals, row = _fixed_fields(spec, ctx)
        if v == 1:   # optional values left out
            cols = [f.split(':')[0] for f in spec.split()]
            for c in cols[-nopt:]:
                row[c] = 0
            vals = vals[:-nopt]
        return Rec(name, 'I', vals[:4], [vals[4:]], row=row)
    return mk


def _cplx(v):
    return [complex(a, b) for a, b in zip(v[::2], v[1::2])]


MAKERS = {}
NVARIANTS = {}
for _n in FIXED:
    MAKERS[_n] = _mk_fixed(_n)
    NVARIANTS[_n] = 1
for _n in SECTIONS:
    MAKERS[_n] = _mk_section(_n)
    NVARIANTS[_n] = 2


WIDE = None      # length of the lists of variant 0


def size(v, sizes):
    x = sizes[v]
    if WIDE is None or v:
        return x
    return WIDE if isinstance(x, int) else (WIDE,) + x[1:]


def maker(nvar, *names):
    def deco(fn):
        for n in names:
            MAKERS[n] = (lambda ctx, v, n=n: fn(n, ctx, v))
            NVARIANTS[n] = nvar
        return fn
    return deco


# --------------------------------------------------------------------------
# records with variable parts
# --------------------------------------------------------------------------

@maker(2, 'BRIGAC')
def _brigac(name, ctx, v):
    llc = ctx.i()
    e1, e2 = ctx.fs(2)
    vals = ctx.fs(10 + 6 * v)
    cols = ['xcoord', 'ycoord', 'zcoord', 'empty3'] + \
        ['raccl%d' % k for k in range(1, 7)] + \
        ['iaccl%d' % k for k in range(1, 7)]
    row = dict(zip(cols, vals + [0.] * (6 - 6 * v)))
    row.update(llc=llc, empty1=e1, complx=v, empty2=e2)
    return Rec(name, 'I', [llc, e1, v, e2], [vals], row=row)


@maker(4, 'DATE', 'TEXT')
def _text(name, ctx, v):
    n = size(v, (4, 0, 1, 2))
    t, s = ctx.i(), ctx.i()
    # text up to the full width of a line, leading and embedded blanks, text
    # that looks like a record name
    alltexts = ['DATE:     21-DEC-2014         TIME:          16:14:31',
                '  GNODE %d' % s, 'IEND', 'x' * 64]
    texts = [(alltexts[(k + v) % 4])[:64] for k in range(n)]
    return Rec(name, 'T', [t, s, n, 72], text=texts,
               row=dict(type=t, subtype=s, nrecs=n, nbyte=72),
               vl={'recs': [('text', '        ' + x) for x in texts]})


TD_NAMES = ('TDMATER', 'TDSECT', 'TDSETNAM', 'TDSUPNAM', 'TSLAYER', 'TDSCONC',
            'TDLOAD', 'TDRESREF', 'TDBODNAM', 'TDRSNAM')


@maker(8, *TD_NAMES)
def _td(name, ctx, v):
    i = ctx.i()
    # (lines of the name, description lines); the last two: a name on two
    # lines, and a description with equal lines
    nam, txt = [(['Name_%d' % i], []), ([], ['only text %d' % i]),
                (['N %d' % i], ['first line %d' % i, 'GNODE', 'third']),
                ([], []), (['GELMNT1'], ['a' * 64]),
                (['n' * 64], ['T %d' % i, '']),
                (['Part_one_', 'and_two_%d' % i], ['about %d' % i]),
                (['R%d' % i], ['same', 'same', 'other', 'R%d' % i, 'same'])][v]
    if WIDE and not v:
        txt = ['line %d of %d' % (k, i) for k in range(WIDE)]
    codnam = 100 * len(nam) + max([len(x) for x in nam] or [0])
    codtxt = 100 * len(txt) + (max([len(x) for x in txt] or [0])) % 100
    return Rec(name, 'D', [4, i, codnam, codtxt], text=nam + txt,
               row=dict(nfield=4, idno=i, codnam=codnam, codtxt=codtxt,
                        name=('text', ''.join(nam))),
               vl={'text': [('text', x) for x in txt]})


ELTYPES = {15: 2, 16: 2, 18: 1, 23: 3, 24: 4, 25: 3, 26: 6, 28: 8}
_ELT = (24, 15, 18, 25, 28, 16, 23, 26)


@maker(8, 'GELMNT1')
def _gelmnt1(name, ctx, v):
    eltyp = _ELT[v]
    elnox, elno, ad = ctx.i(), ctx.i(), ctx.i()
    nod = ctx.is_(ELTYPES[eltyp])
    return Rec(name, 'I', [elnox, elno, eltyp, ad], [nod],
               row=dict(elnox=elnox, elno=elno, eltyp=eltyp, eltyad=ad),
               vl={'nodin': nod})


@maker(3, 'GELMNT2')
def _gelmnt2(name, ctx, v):
    n = size(v, (4, 1, 7))
    head = ctx.is_(4)
    t = ctx.fs(12)
    nod = ctx.is_(n)
    return Rec(name, 'I', head, [t + [n] + nod],
               row=dict(subno=head[0], slevel=head[1], stype=head[2],
                        addno=head[3], t=t, nnod=n), vl={'nod': nod})


@maker(8, 'GELREF1')
def _gelref1(name, ctx, v):
    # the lists that are given per node; element type by variant
    flags = [(0, 0, 0, 0), (0, 0, 1, 0), (0, 1, 0, 1), (1, 1, 1, 1),
             (0, 0, 1, 1), (1, 0, 0, 0), (0, 1, 1, 0), (1, 1, 0, 1)][v]
    eltyp = (15, 15, 24, 15, 15, 26, 25, 28)[v]
    nn = ELTYPES[eltyp]
    elno = ctx.i()
    ctx.pre.append(Rec('GELMNT1', 'I', [elno, elno, eltyp, 0],
                       [list(range(1, nn + 1))],
                       row=dict(elnox=elno, elno=elno, eltyp=eltyp, eltyad=0),
                       vl={'nodin': list(range(1, nn + 1))}))
    matno, addno, intno = ctx.is_(3)
    l2 = ctx.is_(4)
    l3, lists, vl = [], [], {}
    for key, fl in zip(('geono', 'fixno', 'eccno', 'transno'), flags):
        if fl:
            l3.append(-1)
            x = ctx.is_(nn)
            lists += x
            vl[key] = x
        else:
            l3.append(ctx.i())
            vl[key] = []
    row = dict(elno=elno, matno=matno, addno=addno, intno=intno, mintno=l2[0],
               strano=l2[1], streno=l2[2], strepono=l2[3], geono=l3[0],
               fixno=l3[1], eccno=l3[2], transno=l3[3])
    return Rec(name, 'I', [elno, matno, addno, intno], [l2, l3, lists],
               row=row, vl=vl)


@maker(4, 'GSETMEMB')
def _gsetmemb(name, ctx, v):
    n = size(v, (3, 0, 1, 40))
    isref, index, istype, isorig = ctx.is_(4)
    m = ctx.is_(n)
    return Rec(name, 'R', [5 + n, isref, index, istype], [[isorig] + m],
               row=dict(nfield=5 + n, isref=isref, index=index, istype=istype,
                        isorig=isorig), vl={'irmemb': m})


@maker(4, 'SCONCEPT')
def _sconcept(name, ctx, v):
    ircon, role, parent = ctx.is_(3)
    if v == 1:
        return Rec(name, 'R', [5, ircon, 2, role], [[parent]],
                   row=dict(nfield=5, ircon=ircon, scontype=2, sconrole=role,
                            irparent=parent, npart=0, njoin=0),
                   vl={'irpart': [], 'irjoin': []})
    npart, njoin = {0: (2, 3), 2: (1, 0), 3: (0, 2)}[v]
    if WIDE and not v:
        npart, njoin = WIDE, WIDE + 1
    p, j = ctx.is_(npart), ctx.is_(njoin)
    nf = 7 + npart + njoin
    return Rec(name, 'R', [nf, ircon, 7, role],
               [[parent, npart, njoin] + p + j],
               row=dict(nfield=nf, ircon=ircon, scontype=7, sconrole=role,
                        irparent=parent, npart=npart, njoin=njoin),
               vl={'irpart': p, 'irjoin': j})


@maker(3, 'SCONMESH')
def _sconmesh(name, ctx, v):
    n = size(v, (2, 0, 5))
    ircon, typ = ctx.is_(2)
    e = ctx.is_(n)
    return Rec(name, 'R', [5 + n, ircon, 1, typ], [[n] + e],
               row=dict(nfield=5 + n, ircon=ircon, numrep=1, typrep=typ,
                        nferep=n), vl={'irferep': e})


@maker(4, 'BNBCD')
def _bnbcd(name, ctx, v):
    n = size(v, (6, 1, 2, 3))
    node = ctx.i()
    fix = ctx.is_(n)
    vals = [node, n] + fix
    vals += [0.] * (4 - len(vals))
    return Rec(name, 'I', vals[:4], [vals[4:]],
               row=dict(nodeno=node, ndof=n), vl={'fix': fix})


@maker(3, 'BLDEP')
def _bldep(name, ctx, v):
    n = size(v, (2, 1, 5))
    node, cnod, ndof = ctx.is_(3)
    deps = [[ctx.i(), ctx.i(), ctx.f()] for _ in range(n)]
    return Rec(name, 'I', [node, cnod, ndof, n], [d + [0.] for d in deps],
               row=dict(nodeno=node, cnod=cnod, ndof=ndof, ndep=n),
               vl={'deps': deps})


@maker(4, 'BEUSLO')
def _beuslo(name, ctx, v):
    n, cx = size(v, ((4, 0), (3, 1), (8, 0), (4, 1)))
    llc, lotyp, layer, elno, intno, side = ctx.is_(6)
    rl = ctx.fs(n)
    il = ctx.fs(n) if cx else []
    return Rec(name, 'I', [llc, lotyp, cx, layer],
               [[elno, n, intno, side] + rl + il],
               row=dict(llc=llc, lotyp=lotyp, complx=cx, layer=layer,
                        elno=elno, ndof=n, intno=intno, side=side),
               vl={'rload': rl, 'iload': il})


COMPDEF = ('RDFORCES', 'RDNODRES', 'RDSTRAIN', 'RDSTRESS', 'RDELNFOR')


@maker(3, *COMPDEF)
def _compdef(name, ctx, v):
    n = size(v, (6, 1, 12))
    ir = ctx.i()
    c = ctx.is_(n)
    return Rec(name, 'R', [3 + n, ir, n, c[0]], [c[1:]],
               row=dict(nfield=3 + n, ir=ir, lenrec=n), vl={'icomp': c})


# (grid as nok x noj x noi of 0/1 flags, nsptra, nlay)
_GRIDS = [((1, 1, 3), '101', 2, 0), ((2, 3, 3), '101000101101000101', 0, 0),
          ((1, 1, 1), '1', 1, 1), ((2, 2, 2), '11111111', 3, 2),
          ((1, 2, 2), '0010', 0, 3), ((1, 1, 12), '1' * 12, 0, 0),
          ((1, 11, 1), '10' * 5 + '1', 1, 1), ((13, 1, 1), '1' * 13, 0, 0),
          ((2, 10, 1), '01' * 10, 0, 0)]


def _rdpoints_rec(ctx, v, iielno=None, icoref=None):
    (nok, noj, noi), flags, nsptra, nlay = _GRIDS[v]
    ispalt = ctx.i()
    iielno = ctx.i() if iielno is None else iielno
    icoref = ctx.i() if icoref is None else icoref
    ieltyp = ctx.i()
    ijk = nok * 10000 + noj * 100 + noi
    pts, cont = [], []
    for fl in flags:
        if fl == '1':
            p = [len(pts) + 1] + ctx.fs(3)
            pts.append(p)
            cont += p
        else:
            cont.append(-1)
    nsp = len(pts)
    xf = []
    for _ in range(nsptra):
        t = ctx.fs(9)
        cont += t
        xf.append([t[:3], t[3:6], t[6:]])
    nf = 9 + len(cont)
    rec = Rec('RDPOINTS', 'R', [nf, ispalt, iielno, icoref],
              [[ieltyp, nsp, ijk, nsptra, nlay] + cont],
              row=dict(nfield=nf, ispalt=ispalt, iielno=iielno, icoref=icoref,
                       ieltyp=ieltyp, nsp=nsp, ijkdim=ijk, nsptra=nsptra,
                       nlay=nlay), vl={'respoint': pts, 'xform': xf})
    return rec, (nlay, nok, noj, noi, nsp, ispalt, iielno, icoref)


@maker(9, 'RDPOINTS')
def _rdpoints(name, ctx, v):
    return _rdpoints_rec(ctx, v)[0]


@maker(11, 'RDIELCOR')
def _rdielcor(name, ctx, v):
    if v not in (5, 6):
        pts, (nlay, nok, noj, noi, _, _, _, icoref) = _rdpoints_rec(
            ctx, v if v < 5 else v - 2)
        ctx.pre.append(pts)
    else:   # no result points: implied by the standard element types
        icoref, nlay, nok, noj, noi = ((15, 0, 1, 1, 3), (24, 0, 2, 3, 3))[v-5]
    igrid = ctx.i()
    g, b, a = ctx.fs(nok), ctx.fs(noj), ctx.fs(noi)
    lay = [ctx.fs(2) for _ in range(nlay)]
    cont = g[1:] + b + a + [x for l in lay for x in l]
    nf = 4 + len(cont)
    return Rec(name, 'R', [nf, icoref, igrid, g[0]], [cont],
               row=dict(nfield=nf, icoref=icoref, igrid=igrid),
               vl={'gamma': g, 'beta': b, 'alpha': a, 'layers': lay})


@maker(3, 'RDRESREF')
def _rdresref(name, ctx, v):
    n, cx = size(v, ((1, 0), (0, 1), (3, 1)))
    ires, irno, ieres, icalty = ctx.is_(4)
    rt = [ctx.fs(3) for _ in range(n)]
    nf = 7 + 3 * n
    return Rec(name, 'R', [nf, ires, irno, ieres],
               [[icalty, cx, n] + [x for r in rt for x in r]],
               row=dict(nfield=nf, ires=ires, irno=irno, ieres=ieres,
                        icalty=icalty, icompl=cx, numtyp=n),
               vl={'reftyps': rt})


@maker(3, 'RBLODCMB', 'RDRESCMB')
def _cmb(name, ctx, v):
    n = size(v, (2, 0, 3))
    ires, cx = ctx.i(), v % 2
    c = [ctx.fs(3) for _ in range(n)]
    nf = 4 + 3 * n
    return Rec(name, 'R', [nf, ires, cx, n], [[x for r in c for x in r]],
               row=dict(nfield=nf, ires=ires, icompl=cx, nblc=n),
               vl={'blcs' if name == 'RBLODCMB' else 'rcs': c})


RVNOD = {'RVNODACC': 'acc', 'RVNODDIS': 'dis', 'RVNODVEL': 'vel'}


@maker(4, *RVNOD)
def _rvnod(name, ctx, v):
    n = size(v, (6, 12, 3, 1))
    ires, iinod, irdva, itrans = ctx.is_(4)
    vals = ctx.fs(n)
    return Rec(name, 'R', [5 + n, ires, iinod, irdva], [[itrans] + vals],
               row=dict(nfield=5 + n, ires=ires, iinod=iinod, irdva=irdva,
                        itrans=itrans), vl={RVNOD[name]: vals})


RVELM = {'RVFORCES': 'force', 'RVSTRAIN': 'strain', 'RVSTRESS': 'stress'}


def _resref(ctx, cx):
    ires = ctx.i()
    ctx.pre.append(Rec('RDRESREF', 'R', [7, ires, 1, 1], [[1, cx, 0]],
                       row=dict(nfield=7, ires=ires, irno=1, ieres=1,
                                icalty=1, icompl=cx, numtyp=0),
                       vl={'reftyps': []}))
    return ires


def _comps(ctx, name, n):
    ir = ctx.i()
    c = ctx.is_(n)
    nm = 'RD' + name[2:]
    ctx.pre.append(Rec(nm, 'R', [3 + n, ir, n, c[0]], [c[1:]],
                       row=dict(nfield=3 + n, ir=ir, lenrec=n),
                       vl={'icomp': c}))
    return ir


@maker(4, *RVELM)
def _rvelm(name, ctx, v):
    grid, ncomp, cx = ((0, 3, 0), (1, 5, 1), (3, 6, 0), (2, 1, 1))[v]
    pts, (_, _, _, _, nsp, ispalt, iielno, _) = _rdpoints_rec(ctx, grid)
    ctx.pre.append(pts)
    ires = _resref(ctx, cx)
    ir = _comps(ctx, name, ncomp)
    vals = ctx.fs(nsp * ncomp * (cx + 1))
    nf = 5 + len(vals)
    return Rec(name, 'R', [nf, ires, iielno, ispalt], [[ir] + vals],
               row=dict(nfield=nf, ires=ires, iielno=iielno, ispalt=ispalt,
                        ir=ir), vl={RVELM[name]: vals})


@maker(3, 'HIERARCH')
def _hierarch(name, ctx, v):
    n = size(v, (2, 0, 5))
    h = ctx.is_(3)
    lev, itref, ihp = ctx.is_(3)
    ref = ctx.is_(n)
    return Rec(name, 'R', [8 + n] + h, [[lev, itref, ihp, n] + ref],
               row=dict(nfield=8 + n, ihref=h[0], iselty=h[1], indsel=h[2],
                        islevl=lev, itref=itref, ihpref=ihp, nsub=n),
               vl={'ihsref': ref})


@maker(3, 'WBODCON')
def _wbodcon(name, ctx, v):
    n = size(v, (2, 0, 3))
    ib, body = ctx.is_(2)
    c = [ctx.fs(3) for _ in range(n)]
    return Rec(name, 'R', [4 + 3 * n, ib, body, n], [[x for r in c for x in r]],
               row=dict(nfield=4 + 3 * n, ibcond=ib, ibody=body, numcon=n),
               vl={'refcond': c})


@maker(5, 'WDRESREF')
def _wdresref(name, ctx, v):
    nres, types = ((2, (1, 2)), (1, (1, 3)), (3, (2, 1)), (1, (3,)),
                   (2, (3, 1, 2)))[v]
    if WIDE and not v:
        nres = WIDE
    iw = ctx.i()
    cont, vl = [], {'dir': [], 'freq': [], 'time': []}
    for t in types:
        cont.append(t)
        for _ in range(nres):
            x = ctx.fs(2)
            cont += x
            vl[{1: 'dir', 2: 'freq', 3: 'time'}[t]].append(x)
    nf = 4 + len(cont)
    return Rec(name, 'R', [nf, iw, nres, len(types)], [cont],
               row=dict(nfield=nf, iwres=iw, nresrf=nres, numtyp=len(types)),
               vl=vl)


@maker(2, 'WGLOBDEF')
def _wglobdef(name, ctx, v):
    g, ro = ctx.fs(2)
    if v == 0:
        d = ctx.f()
        return Rec(name, 'R', [5, g, ro, 1], [[d]],
                   row=dict(nfield=5, g=g, ro=ro, idepth=1, depth=d))
    return Rec(name, 'R', [4, g, ro, 0], [],
               row=dict(nfield=4, g=g, ro=ro, idepth=0, depth=1.))


@maker(2, 'W1EXFORC', 'W1MOTION', 'W2EXFDIF', 'W2EXFSUM')
def _wcommon(name, ctx, v):
    cx = 1 - v
    ib, iw = ctx.is_(2)
    vals = ctx.fs(6 * (cx + 1))
    data = _cplx(vals) if cx else [complex(x, 0) for x in vals]
    nf = 4 + len(vals)
    return Rec(name, 'R', [nf, ib, iw, cx], [vals],
               row=dict(nfield=nf, ibcond=ib, iwres=iw, icompl=cx, data=data))


@maker(2, 'W1SFORCE')
def _wsforce(name, ctx, v):
    cx = 1 - v
    ib, isec, iw = ctx.is_(3)
    vals = ctx.fs(6 * (cx + 1))
    data = _cplx(vals) if cx else [complex(x, 0) for x in vals]
    nf = 5 + len(vals)
    return Rec(name, 'R', [nf, ib, isec, iw], [[cx] + vals],
               row=dict(nfield=nf, ibcond=ib, isect=isec, iwres=iw, icompl=cx,
                        data=data))


@maker(2, 'WFLUIDKN')
def _wfluidkn(name, ctx, v):
    cx = 1 - v
    iw, ip = ctx.is_(2)
    vals = ctx.fs(4 * (cx + 1))
    data = _cplx(vals) if cx else [complex(x, 0) for x in vals]
    nf = 4 + len(vals)
    return Rec(name, 'R', [nf, iw, ip, cx], [vals],
               row=dict(nfield=nf, iwres=iw, ifkpnt=ip, icompl=cx, p=data[0],
                        v=data[1:]))


@maker(6, 'WSURFACE')
def _wsurface(name, ctx, v):
    n, cx, comps = ((2, 1, (0, 0, 1)), (1, 0, (0, 0, 1)), (3, 1, (1, 1, 1)),
                    (2, 0, (1, 0, 1)), (0, 1, (0, 1, 0)),
                    (1, 1, (1, 0, 0)))[v]
    iw, idx = ctx.is_(2)
    cont, ze = [], []
    for k in range(n):
        nod = ctx.i()
        cont.append(nod)
        item = [complex(nod, 0)]
        for c in comps:
            if not c:
                item.append(0j)
            elif cx:
                a, b = ctx.fs(2)
                cont += [a, b]
                item.append(complex(a, b))
            else:
                a = ctx.f()
                cont.append(a)
                item.append(complex(a, 0))
        ze.append(item)
    nf = 8 + len(cont)
    return Rec(name, 'R', [nf, iw, idx, n], [[cx] + list(comps) + cont],
               row=dict(nfield=nf, iwres=iw, indxwr=idx, nnode=n, icompl=cx,
                        icompx=comps[0], icompy=comps[1], icompz=comps[2]),
               vl={'zelev': ze})


@maker(2, 'W1PANPRE')
def _panpre(name, ctx, v):
    cx = 1 - v
    ib, iw, ippan, is1, ipan, is2 = ctx.is_(6)
    vals = ctx.fs(cx + 1)
    p = complex(vals[0], vals[1] if cx else 0)
    nf = 8 + len(vals)
    return Rec(name, 'R', [nf, ib, iw, ippan], [[is1, cx] + vals + [ipan, is2]],
               row=dict(nfield=nf, ibcond=ib, iwres=iw, ippan=ippan,
                        isymm1=is1, icompl=cx, p=p, ipan=ipan, isymm2=is2))


SUPPORTED = sorted(MAKERS)


def make(name, ctx, variant=0):
    """records that have to come first are appended to ctx.pre"""
    return MAKERS[name](ctx, variant)


# --------------------------------------------------------------------------
# unsupported records.  kind 'I' have indented continuation lines, 'R' have a
# field count
# --------------------------------------------------------------------------

UNSUPPORTED_I = ('BNLOAD', 'BELOAD1', 'BNDISPL', 'MGSPRNG', 'TNODE', 'BELFIX',
                 'BQDP', 'GLMASS', 'BNMASS', 'MORSMEL')
UNSUPPORTED_R = ('SPROSELE', 'RSUMLOAD', 'RSUMREAC', 'AMATRIX', 'RVNODREA',
                 'W2FLUDIF', 'SPROORIE', 'RDSERIES', 'WSCATTER', 'HSUPSTAT')
UNSUPPORTED_D = ('TDSERIES',)


def unsupported(name, ctx, nlines=1):
    """an unsupported record with 4*nlines (I) or any number (R) of
    continuation values"""
    if name in UNSUPPORTED_D:
        nam = 'GNODE'
        txt = ['some text', 'IEND'][:nlines]
        return Rec(name, 'D', [4, ctx.i(), 105, 100 * len(txt) + 9],
                   text=[nam] + txt)
    if name in UNSUPPORTED_I:
        return Rec(name, 'I', [ctx.i(), 3, 2, 1], [ctx.fs(4 * nlines)])
    n = {0: 0, 1: 5, 2: 40, 3: 32, 4: 33}.get(nlines, nlines)
    return Rec(name, 'R', [4 + n, ctx.i(), 2, 1], [ctx.fs(n)])


def negative(name, ctx, long_):
    """a record with a negative first value: -5 has one continuation line"""
    if long_:
        return Rec(name, 'I', [-5, ctx.i(), 2, 3], [ctx.fs(4)])
    return Rec(name, 'I', [-4, ctx.i(), 2, 3])


def ident(seltyp, slevel=1, selmod=3):
    return Rec('IDENT', 'H', [slevel, seltyp, selmod, 0],
               row=dict(slevel=slevel, seltyp=seltyp, selmod=selmod))


def iend(v=0):
    return Rec('IEND', 'H', [v, 0, 0, 0])


def irecsize(n=32):
    return Rec('IRECSIZE', 'H', [4, n, 0, 0])


def hier_row(ihref, iselty, indsel, islevl, itref=0, ihpref=0, subs=()):
    nf = 8 + len(subs)
    return Rec('HIERARCH', 'R', [nf, ihref, iselty, indsel],
               [[islevl, itref, ihpref, len(subs)] + list(subs)],
               row=dict(nfield=nf, ihref=ihref, iselty=iselty, indsel=indsel,
                        islevl=islevl, itref=itref, ihpref=ihpref,
                        nsub=len(subs)), vl={'ihsref': list(subs)})


# --------------------------------------------------------------------------
# expected content of a group
# --------------------------------------------------------------------------

def expected(recs):
    """{table: {'rows': [row], 'vl': {array: [[items of record] ...]}}}"""
    out = {}
    for r in recs:
        if r.row is None:
            continue
        t = out.setdefault(r.name, {'rows': [], 'vl': {}})
        t['rows'].append(r.row)
        for k, items in r.vl.items():
            t['vl'].setdefault(k, []).append(items)
    return out

# all other names known to the format, by the way their continuation records
# look like
MORE_I = ('ACFD ADDATA BEDRAG1 BEISTE BELLAX BELLO2 BEMASS1 BEUVLO BEWAKIN '
          'BEWALO1 BNACCLO BNDOF BNINCO BNLOAX BNTEMP BNTRCOS BNWALO BRIGDI '
          'BRIGVE BSELL GCROINT GECC GELINT GELSTRP GSEPSPEC GSLAYER GSLPLATE '
          'GSLSTIFF GTONP MAXDMP MAXSPR MCNT MGDAMP MGLDAMP MGLMASS MGMASS '
          'MISOAL MISOEML MISOHL MISOHNL MISOPL MISTEL MORSSEL MORSSOL '
          'MSHGLSP MTEMP MTENONL MTRMEL MTRSEL MTRSOL').split()
MORE_R = ('AMDACCL AMDDAMP AMDDISP AMDFREQ AMDLOAD AMDMASS AMDSTIFF AMDVELO '
          'RDMLFACT RDNODBOC RDNODREA RDTRANS RSUMMASS RVABSCIS RVELNFOR '
          'RVORDINA SCONPLIS SPROCODE SPROECCE SPROHYDR SPROMATR SPROPILE '
          'SPROSEGM SPROSOIL TELEMENT W2FLUSUM WGRESPON').split()

"""C03: unsupported and administrative records never disturb supported ones.

Space: a small file for every supported record type with three gaps (before,
between and after two records of the type); every disturbing record in every
gap and in all gaps at once, all ordered pairs of disturbing records in one
gap and in two gaps, and every unsupported record name.  The content of the
converted file has to be that of the undisturbed file, bit for bit.
"""
import itertools
import os

from . import c02, h5, records, sesam
from .common import must_convert, write_file
from .core import Violation
from .records import Ctx, make
from .sesam import Rec

PROPERTY = 'C03'
BOUNDS = {
    'quick': {'disturbing records': '1 of every kind (24 kinds) in every gap '
              'of every record type; 2 in one gap or in two gaps for 3 record '
              'types per format; all unsupported names for 3 record types',
              'formats': 'formatted, unformatted'},
    'thorough': {'disturbing records': 'as quick with both variants of the '
                 'record type and chunk 3; 2 in all gaps for all record '
                 'types (in one format, 11 types in all layouts); 3 in a gap for 3 types'},
}
RULE = 'state = distinct disturbed file; transition = one conversion'
ASSUMPTIONS = ['names of the disturbing records are known record names; an '
               'unsupported result record has the number of values that its '
               'field count says']

KINDS = ['I0', 'I1', 'I3', 'J1', 'R0', 'R1', 'R2', 'R3', 'R4', 'Q2', 'R100', 'D0',
         'D2', 'Z0', 'Z1', 'Z4', 'n4same', 'n5same', 'n4other', 'n5other', 'n4uns', 'n5uns',
         'IREC', 'IEND1']


def disturb(kind, same, ctx):
    if kind[0] == 'I' and kind[1:].isdigit():
        return records.unsupported('BNLOAD', ctx, int(kind[1:]))
    if kind[0] == 'Z':          # first value (and others) zero
        return Rec('BNWALO', 'I', [0, 0, 2, 0], [[0.] * (4 * int(kind[1:]))])
    if kind[0] == 'J':
        return records.unsupported('MGSPRNG', ctx, int(kind[1:]))
    if kind[0] == 'R':
        return records.unsupported('SPROSELE', ctx, int(kind[1:]))
    if kind[0] == 'Q':
        return records.unsupported('RSUMLOAD', ctx, int(kind[1:]))
    if kind[0] == 'D':
        return records.unsupported('TDSERIES', ctx, int(kind[1:]))
    if kind == 'IREC':
        return records.irecsize()
    if kind == 'IEND1':
        return records.iend(1)
    name = {'same': same, 'other': 'GCOORD' if same != 'GCOORD' else 'GNODE',
            'uns': 'BNDISPL'}[kind[2:]]
    return records.negative(name, ctx, kind[1] == '5')


def parts(name, variant):
    """records before, the two records of the type, records behind"""
    ctx = Ctx(100)
    main = [make(name, ctx, variant), make(name, ctx, variant)]
    if name == 'HIERARCH':
        return ([records.irecsize()], main,
                [records.iend(1), records.irecsize(),
                 records.ident(int(main[0].row['iselty'])), records.iend()])
    pre = [records.ident(7)]
    if c02.letter_of(name) == 'R':
        pre = [records.irecsize(), records.hier_row(1, 7, 1, 1),
               records.iend(1)] + pre
    return pre + ctx.pre, main, [make('GECCEN', ctx, 0), records.iend()]


def assemble(name, variant, gaps):
    """gaps: {0,1,2: [kinds]} -> records"""
    pre, main, post = parts(name, variant)
    ctx = Ctx(5000)
    g = {k: [disturb(x, name, ctx) for x in v] for k, v in gaps.items()}
    return pre + g.get(0, []) + main[:1] + g.get(1, []) + main[1:] + \
        g.get(2, []) + post


def content(env, recs, letter, lay, what, tail=b''):
    ext = '.FEM' if letter == 'T' else '.SIF' if lay.fmt == 'F' else '.SIU'
    d = env.path()
    src = write_file(os.path.join(d, letter + '7' + ext), recs, lay)
    if tail:
        with open(src, 'ab') as f:
            f.write(tail)
    dst = os.path.join(d, 'x.h5')
    must_convert(env, src, dst, what=what)
    c = h5.file_content(dst)
    os.remove(dst)
    os.remove(src)
    return c


MORE = ['GSETMEMB', 'HSUPTRAN', 'RDPOINTS', 'WFLUIDKN', 'SCONCEPT']
REP = ['GNODE', 'GELREF1', 'GBARM', 'TDSETNAM', 'RVSTRESS', 'W1EXFORC']


def scenarios(tier):
    lays = [dict(fmt='F'), dict(fmt='U')]
    if tier == 'thorough':
        lays += [dict(fmt='F', pad=False), dict(fmt='U', chunk=3, pad=False)]
    for lay in lays:
        for name in records.SUPPORTED:
            variants = [0]
            if name in records.SECTIONS:
                variants = [0, 1]
            if tier == 'thorough':
                variants = list(range(records.NVARIANTS[name]))
            for v in variants:
                yield {'kind': 'single', 'name': name, 'variant': v,
                       'lay': lay}
            if lay == dict(fmt='U') and tier == 'quick' and (
                    name in REP or name in MORE):
                for chunk in ([3, 8, 1], 7):
                    yield {'kind': 'single', 'name': name, 'variant': 0,
                           'lay': dict(fmt='U', chunk=chunk)}
        names = (REP[::2] if lay['fmt'] == 'F' else REP[1::2]) \
            if tier == 'quick' else REP + MORE
        if tier == 'thorough' and lay in lays[:2]:
            # every record type in one of the formats
            names = sorted(set(names + records.SUPPORTED[lays.index(lay)::2]))
        for name in names:
            for a in KINDS:
                yield {'kind': 'pair', 'name': name, 'first': a, 'lay': lay}
        if tier == 'thorough' and lay in lays[:2]:
            for name in REP[:3]:
                for a in KINDS:
                    for b in KINDS:
                        yield {'kind': 'triple', 'name': name, 'first': [a, b],
                               'lay': lay}
        for name in ('GNODE', 'RVNODDIS', 'W1EXFORC'):
            yield {'kind': 'names', 'name': name, 'lay': lay}
        for name in REP:
            yield {'kind': 'tail', 'name': name, 'lay': lay}
    for letter in 'TRG':
        for lay in lays:
            for k in range(0, len(KINDS), 5):
                yield {'kind': 'all', 'letter': letter, 'lay': lay,
                       'kinds': KINDS[k:k+5]}


def run(p, env):
    lay = sesam.Layout(**p['lay'])

    def compare(ref, recs, letter, what, tail=b''):
        c = content(env, recs, letter, lay, what, tail)
        d = h5.diff_content(ref, c)
        if d:
            raise Violation('%s: %s' % (what, d))
        env.state((p['lay'], what))
        env.trace()

    if p['kind'] == 'all':
        return run_all(p, env, lay, compare)
    name = p['name']
    v = p.get('variant', 0)
    letter = c02.letter_of(name)
    ref = content(env, assemble(name, v, {}), letter, lay, name)
    env.outcome((p['kind'], name))

    if p['kind'] == 'single':
        for kind in KINDS:
            for gaps in ((0,), (1,), (2,), (0, 1, 2)):
                g = {k: [kind] for k in gaps}
                compare(ref, assemble(name, v, g), letter,
                        '%s %s variant %d with %s in gaps %s' % (
                            lay.fmt, name, v, kind, gaps))
    elif p['kind'] == 'pair':
        a = p['first']
        for b in KINDS:
            for g in ({1: [a, b]}, {0: [a], 1: [b]}, {1: [a], 2: [b]}):
                compare(ref, assemble(name, v, g), letter, '%s %s with %s' % (
                    lay.fmt, name, g))
    elif p['kind'] == 'triple':
        for b in KINDS:
            g = {1: p['first'] + [b]}
            compare(ref, assemble(name, v, g), letter, '%s %s with %s' % (
                lay.fmt, name, g))
    elif p['kind'] == 'names':
        names = [(n, k) for n in tuple(records.UNSUPPORTED_I) +
                 tuple(records.MORE_I) for k in (0, 1, 2)] + \
                [(n, k) for n in tuple(records.UNSUPPORTED_R) +
                 tuple(records.MORE_R) for k in (0, 1, 2)]
        pre, main, post = parts(name, v)
        for n, k in names:
            ctx = Ctx(9000)
            if n in records.MORE_I or n in records.UNSUPPORTED_I:
                u = [Rec(n, 'I', [ctx.i(), 3, 2, 1], [ctx.fs(4 * k)])]
            else:
                m = (0, 5, 40)[k]
                u = [Rec(n, 'R', [4 + m, ctx.i(), 2, 1], [ctx.fs(m)])]
            recs = pre + u + main[:1] + u + main[1:] + u + u + post
            compare(ref, recs, letter, '%s %s with unsupported %s (%d)' % (
                lay.fmt, name, n, k))
    elif p['kind'] == 'tail':
        ctx = Ctx(700)
        more = make(name, ctx, v)
        other = make('GUNIVEC', ctx, 0)
        if lay.fmt == 'F':
            tails = [b'\n', b'garbage\n' * 3, b'GNODE   xyz\n']
        else:
            tails = [b'\x00', b'garbage' * 40, b'\xff' * 500]
        tails += [sesam.encode([more, other, records.iend()], lay),
                  sesam.encode(ctx.pre + [more], lay),
                  sesam.encode([records.ident(9), more], lay)[:-9]]
        recs = assemble(name, v, {})
        for k, t in enumerate(tails):
            if lay.fmt == 'U' and t[:1] == b'K':
                t = t[1:]
            compare(ref, recs, letter, '%s %s with tail %d' % (
                lay.fmt, name, k), t)


def run_all(p, env, lay, compare):
    """a disturbing record between any two records of a file with all record
    types of the file kind"""
    letter = p['letter']
    recs = c02.mixed_records(letter)
    if letter == 'R':
        recs = [records.irecsize(), records.hier_row(1, 7, 1, 1),
                records.iend(1)] + recs
    ref = content(env, recs, letter, lay, letter)
    for kind in p['kinds']:
        ctx = Ctx(50000)
        out = []
        for k, r in enumerate(recs):
            out.append(r)
            if k + 1 < len(recs) and (k or letter != 'R'):
                out.append(disturb(kind, r.name, ctx))
        compare(ref, out, letter, '%s %s with %s everywhere' % (
            lay.fmt, letter, kind))
        env.outcome((letter, kind))

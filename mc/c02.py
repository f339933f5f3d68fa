"""C02: every supported record is stored completely, exactly and in order.

Space: for every supported record type, every sequence of at most 3 records
over the type's variants (sizes, flags), divided in every way into separate
runs, in both formats; value alphabets with extreme values; and runs whose
length is around the multiples of the converter's batch size.
"""
import itertools
import os

from . import h5, records, sesam
from .common import describe, must_convert, write_file
from .core import Violation
from .records import Ctx, make

PROPERTY = 'C02'
BOUNDS = {
    'quick': {'records per type': '<=3 over all variants (for types '
              'with more than 3 variants the second of three is the successor '
              'of the first; some types that share one layout <=2)',
              'runs': 'all ways to divide the records into at most two '
              'runs',
              'formats': 'formatted; unformatted with chunks 32 and 3',
              'values': 'unique values; 10 extreme values in all fields',
              'repetition': 'every variant repeated exactly, with unique '
              'values and with 5 choices where all values are equal',
              'long lists': '127, 128, 255, 256, 1000, 1025, 3000 values in '
              'one record, 22 types',
              'long runs': '99999, 100000, 100001, 200001 records of 6 types'},
    'thorough': {'records per type': '<=3 over all variants, <=4 over 2',
                 'runs': 'all ways', 'formats': 'formatted padded/short; '
                 'unformatted with chunks 32, 3, 1, 7',
                 'long runs': 'also 300001 and runs that are split, all '
                 'types with short records'},
}
RULE = 'one state per distinct converted content; transition = one conversion'
ASSUMPTIONS = [
    'numbers are exactly representable in single precision',
    'fields the converter does not keep (fourth value of GELTH etc.) are not '
    'compared',
]
LIMIT_S = 400

HYDRO = {'WBODCON', 'WDRESREF', 'WGLOBDEF', 'WBODY', 'W1MATRIX', 'W1EXFORC',
         'W1MOTION', 'W2EXFDIF', 'W2EXFSUM', 'W1SFORCE', 'W2HDRIFT',
         'W2MDRIFT', 'WFKPOINT', 'WFLUIDKN', 'WSECTION', 'WSURFACE', 'WINPUT',
         'W1PANPRE', 'TDBODNAM', 'TDRSNAM'}

LAYS = {
    'F': dict(fmt='F'), 'Fs': dict(fmt='F', pad=False),
    'U': dict(fmt='U'), 'U3': dict(fmt='U', chunk=3),
    'U1': dict(fmt='U', chunk=1), 'U7': dict(fmt='U', chunk=7, pad=False),
}

SPECIAL = [0.1, -0.0, 3.4028234e38, 1.17549435e-38, -1. / 3, 16777215., 1e-30,
           -123456.789, 1., 0.]

LONG = {'quick': ['GNODE', 'GELMNT1', 'GCOORD', 'RVNODDIS', 'GSETMEMB',
                  'WDRESREF'],
        'thorough': ['GNODE', 'GELMNT1', 'GCOORD', 'RVNODDIS', 'GSETMEMB',
                     'WDRESREF', 'BNBCD', 'GELREF1', 'RVFORCES', 'GBARM',
                     'W1PANPRE', 'BLDEP', 'RDPOINTS', 'TDSECT', 'W1EXFORC']}
COUNTS = {'quick': [99999, 100000, 100001, 200001],
          'thorough': [99999, 100000, 100001, 199999, 200000, 200001, 300001]}


def sequences(name, tier, lay):
    nv = records.NVARIANTS[name]
    vs = range(nv)
    out = [(v,) for v in vs] + list(itertools.product(vs, repeat=2))
    if tier == 'quick' and (lay == 'U3' or name in records.TD_NAMES[3:]):
        return out
    if nv <= 3 or tier == 'thorough':
        out += list(itertools.product(vs, repeat=3))
    else:
        out += [(a, (a + k) % nv, b) for a in vs for b in vs for k in (1,)]
    if tier == 'thorough':
        out += list(itertools.product((0, 1), repeat=4)) if nv > 1 else \
            [(0,) * 4]
    return out


def splits(n, tier):
    """all ways to put separators between n records (quick: three separate
    runs are left out)"""
    out = list(itertools.product((0, 1), repeat=n - 1))
    return out if tier == 'thorough' else [s for s in out if sum(s) < 2]


def scenarios(tier):
    lays = ['F', 'U', 'U3'] if tier == 'quick' else list(LAYS)
    # deepest first: the long runs take longest
    for name in LONG[tier]:
        for n in COUNTS[tier]:
            for fmt in (('F', 'U') if tier == 'thorough' or
                        n == 100001 else ('U',)):
                yield {'kind': 'long', 'name': name, 'n': n, 'lay': fmt}
    for name in records.SUPPORTED:
        yield {'kind': 'special', 'name': name}
        yield {'kind': 'same', 'name': name}
        for lay in lays:
            seqs = sequences(name, tier, lay)
            for i in range(0, len(seqs), 16):
                yield {'kind': 'seq', 'name': name, 'lay': lay,
                       'seqs': seqs[i:i+16], 'tier': tier}
    for name in WIDE:
        yield {'kind': 'wide', 'name': name}
    for letter in 'TRG':
        for lay in lays:
            yield {'kind': 'mixed', 'letter': letter, 'lay': lay}


def build(name, seq, split, special=None):
    """all records of a file; separators (of an unrelated type) in between"""
    # (with special values: integers close to the greatest that a float of an
    # unformatted file holds exactly)
    ctx = Ctx(16000000 if special else 100, special)
    sep = 'GUNIVEC' if name != 'GUNIVEC' else 'GECCEN'
    recs = []
    main = []
    for k, v in enumerate(seq):
        if k and split[k-1]:
            main.append(make(sep, ctx, 0))
        main.append(make(name, ctx, v))
    if name == 'HIERARCH':
        # must be followed by the rest of a results file
        recs = [records.irecsize()] + main + [
            records.iend(1), records.irecsize(), records.ident(
                int(main[0].row['iselty']))]
        return recs + ctx.pre + [records.iend()]
    recs = [records.ident(7)] + ctx.pre + main + [records.iend()]
    return recs


def letter_of(name):
    if name in HYDRO:
        return 'G'
    if name[:2] in ('RV', 'RD', 'RB', 'RS') or name == 'HIERARCH':
        return 'R'
    return 'T'


def convert_and_check(env, recs, letter, lay, what):
    ext = '.FEM' if letter == 'T' else '.SIF' if lay.fmt == 'F' else '.SIU'
    d = env.path()
    src = write_file(os.path.join(d, letter + '7' + ext), recs, lay)
    dst = os.path.join(d, 'x.h5')
    h = [r for r in recs if r.name == 'HIERARCH']
    if letter == 'R' and not h:
        recs = [records.hier_row(1, 7, 1, 1)] + recs
        write_file(src, recs, lay)
    seltyp = h[0].row['iselty'] if h else 7
    must_convert(env, src, dst, what=what)
    import tables as tb
    f = tb.open_file(dst)
    try:
        top = '/%s%d' % (letter, seltyp)
        group = top if letter != 'R' else '%s/R%d_%d' % (
            top, seltyp, h[0].row['indsel'] if h else 1)
        exp = records.expected(recs)
        if letter == 'R':
            # the whole of a single results file is below the top level group
            group = find_group(f, top)
        h5.check_group(f, group, exp, where=what + ': ')
    finally:
        f.close()
    os.remove(dst)
    env.trace()


def find_group(f, top):
    """the group of a single results file: wherever IDENT is"""
    for g in f.walk_groups(top):
        if 'ident' in g._v_leaves:
            return g._v_pathname
    raise Violation('no IDENT below %s' % top)


def run(p, env):
    if p['kind'] == 'long':
        return run_long(p, env)
    if p['kind'] == 'mixed':
        return run_mixed(p, env)
    if p['kind'] == 'wide':
        return run_wide(p, env)
    name = p['name']
    letter = letter_of(name)
    if p['kind'] == 'same':
        return run_same(p, env)
    if p['kind'] == 'special':
        for lay in ('F', 'U'):
            for k in range(len(SPECIAL)):
                for v in range(records.NVARIANTS[name]):
                    sp = SPECIAL[k:] + SPECIAL[:k]
                    recs = build(name, (v,), (), sp)
                    convert_and_check(env, recs, letter,
                                      sesam.Layout(**LAYS[lay]),
                                      '%s %s special values %d' % (
                                          lay, name, k))
                    env.state((name, lay, v, k))
                if records.NVARIANTS[name] * len(SPECIAL) > 30 and k > 2:
                    break
        return
    for seq in p['seqs']:
        for split in splits(len(seq), p['tier']):
            recs = build(name, seq, split)
            what = '%s %s variants %s separators %s' % (p['lay'], name,
                                                        list(seq), list(split))
            convert_and_check(env, recs, letter,
                              sesam.Layout(**LAYS[p['lay']]), what)
            env.state((name, p['lay'], seq, split))
            env.outcome((name, seq))


# (float alphabet, integer): nothing distinguishes the values of a record
SAME = [(None, None), ([0.], None), ([1.], 1), ([0.], 1), ([0.], 0),
        ([-1.], 2)]


def run_same(p, env):
    """records that are repeated exactly, and records with equal values"""
    name = p['name']
    for lay in ('F', 'U'):
        for k, (special, const) in enumerate(SAME):
            if name == 'HIERARCH' and const == 0:
                continue        # no superelement has type 0
            for v in range(records.NVARIANTS[name]):
                ctx = Ctx(100, special, const)
                a, b = make(name, ctx, v), make(name, ctx, v)
                sep = make('GUNIVEC' if name != 'GUNIVEC' else 'GECCEN', ctx,
                           0)
                main = [a, a, b, a, sep, a, sep, sep, b, a]
                if name == 'HIERARCH':
                    main = [a, a]
                    recs = [records.irecsize()] + main + [
                        records.iend(1), records.irecsize(),
                        records.ident(int(a.row['iselty']))] + ctx.pre + [
                        records.iend()]
                else:
                    recs = [records.ident(7)] + ctx.pre + main + [
                        records.iend()]
                convert_and_check(env, recs, letter_of(name),
                                  sesam.Layout(**LAYS[lay]),
                                  '%s %s variant %d repeated, values %s' % (
                                      lay, name, v, (special, const)))
                env.state((name, lay, 'same', v, k))


# records with lists of any length
WIDE = ['DATE', 'TEXT', 'GELMNT2', 'GSETMEMB', 'SCONCEPT', 'SCONMESH',
        'BLDEP', 'BEUSLO', 'RDRESREF', 'RBLODCMB', 'RDRESCMB', 'WBODCON',
        'WDRESREF', 'HIERARCH', 'TDSETNAM', 'TDLOAD', 'WSURFACE'] + \
    list(records.COMPDEF)


def run_wide(p, env):
    """long lists in one record, between short ones"""
    name = p['name']
    for n in (127, 128, 255, 256, 1000, 1025, 3000):
        if name[:2] in ('TD', 'TE', 'DA') and n > 1000:
            continue
        for lay in ('F', 'U', 'U7'):
            ctx = Ctx(100)
            main = []
            for wide, v in ((0, 0), (n, 0), (0, 1), (n - 1, 0), (n, 0), (0, 0)):
                if name == 'HIERARCH' and not main and not wide:
                    continue
                records.WIDE = wide or None
                main.append(make(name, ctx, v))
            records.WIDE = None
            recs = [records.ident(7)] + ctx.pre + main + [records.iend()]
            if name == 'HIERARCH':
                recs = [records.irecsize()] + main + [
                    records.iend(1), records.irecsize(),
                    records.ident(int(main[0].row['iselty']))] + ctx.pre + [
                    records.iend()]
            convert_and_check(env, recs, letter_of(name),
                              sesam.Layout(**LAYS[lay]),
                              '%s %s with lists of %d values' % (lay, name, n))
            env.state((name, lay, 'wide', n))


def mixed_records(letter, order=1):
    """one file with all record types that occur on one kind of file, each
    variant twice, interleaved"""
    names = [n for n in records.SUPPORTED if letter_of(n) == letter and
             n != 'HIERARCH']
    ctx = Ctx(500)
    runs = []
    for rnd in range(2):
        for n in names[::order]:
            runs.extend(make(n, ctx, v) for v in range(records.NVARIANTS[n]))
    return [records.ident(7)] + ctx.pre + runs + [records.iend()]


def run_mixed(p, env):
    for order in (1, -1):
        recs = mixed_records(p['letter'], order)
        convert_and_check(env, recs, p['letter'],
                          sesam.Layout(**LAYS[p['lay']]),
                          'all %s records' % p['letter'])
        env.state((p['letter'], p['lay'], order))


def run_long(p, env):
    name, n = p['name'], p['n']
    ctx = Ctx(100)
    nv = records.NVARIANTS[name]
    ident = [records.ident(7)]
    # records of mixed sizes; a shorter run in front and one behind, so that
    # the batches do not start at zero
    main = []
    if name in ('GELREF1', 'RVFORCES'):
        vs = [0]
    else:
        vs = range(min(nv, 5))
    # a block of different records, repeated with other numbers, is enough to
    # tell any two of them apart
    for k in range(n):
        main.append(make(name, ctx, vs[k % len(vs)]))
    recs = ident + ctx.pre
    m = len(ctx.pre)
    first = make(name, ctx, 0)
    recs += ctx.pre[m:] + [first]
    recs.append(make('GUNIVEC', ctx, 0))
    recs += main
    recs.append(make('GUNIVEC', ctx, 0))
    m = len(ctx.pre)
    last = make(name, ctx, 0)
    recs += ctx.pre[m:] + [last]
    recs.append(records.iend())
    convert_and_check(env, recs, letter_of(name),
                      sesam.Layout(**LAYS[p['lay']]),
                      '%d %s records' % (n, name))
    env.state((name, n, p['lay']))
    env.outcome(('long', name, n))

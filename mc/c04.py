"""C04: selecting records with only= changes nothing but the selection.

Space: for a data set with all record types of a file kind (several runs of
each), all selections of at most 2 types, all complements of one type, and
all subsets of a core of 9 types, closed under the dependencies between
records; as list, tuple and set, with and without IEND, with names that are
not on the file.  Also for a hierarchy of files.
"""
import itertools
import os

from . import c02, h5, hier, records, sesam
from .common import fs, must_convert, write_file
from .core import Violation
from .sesam import Rec

PROPERTY = 'C04'
BOUNDS = {
    'quick': {'selections': 'all of size <=2, all complements of size 1, all '
              '2^9 subsets of a core, per file kind; formatted (size 1, '
              'core) and unformatted (size <=2)',
              'hierarchies': 'all 2^6 subsets of a core',
              'unnamed': 'all selections of <=3 of a core without IDENT, with '
              'and without HIERARCH: refused or carried out exactly',
              'sequences': 'all sequences of <=2 names out of 8 (3 out of 5) '
              'in one call with 3 selections, 4 forms of target, 3 of '
              'prefixes'},
    'thorough': {'selections': 'all of size <=2 in both formats, complements '
                 'of size <=2, all 2^11 subsets of a core',
                 'hierarchies': 'all 2^6 subsets of a core'},
}
RULE = 'state = distinct stored selection; transition = one conversion'
ASSUMPTIONS = ['a selection includes IDENT (and HIERARCH if present), and the '
               'records that give the sizes of the selected ones: GELMNT1 for '
               'GELREF1; RDPOINTS for RDIELCOR; RDPOINTS, RDRESREF and the '
               'component definition for element results']

DEPENDS = {'GELREF1': ['GELMNT1'], 'RDIELCOR': ['RDPOINTS'],
           'RVFORCES': ['RDPOINTS', 'RDRESREF', 'RDFORCES'],
           'RVSTRESS': ['RDPOINTS', 'RDRESREF', 'RDSTRESS'],
           'RVSTRAIN': ['RDPOINTS', 'RDRESREF', 'RDSTRAIN']}

CORE = {'T': ['GELMNT1', 'GNODE', 'GCOORD', 'GELREF1', 'TDSETNAM', 'GSETMEMB',
              'GBARM', 'GIORH', 'TEXT', 'BLDEP', 'BNBCD'],
        'R': ['RDPOINTS', 'RDRESREF', 'RVSTRESS', 'RDSTRESS', 'RVNODDIS',
              'RDIELCOR', 'RVFORCES', 'RDFORCES', 'RDRESCMB', 'RSUPTRAN',
              'RDNODRES'],
        'G': ['WBODY', 'WDRESREF', 'W1MATRIX', 'W1EXFORC', 'WGLOBDEF',
              'WSURFACE', 'W1MOTION', 'W2HDRIFT', 'WFLUIDKN', 'WFKPOINT',
              'WSECTION']}


def data_set(letter):
    recs = c02.mixed_records(letter)
    # unsupported records in between
    ctx = records.Ctx(40000)
    out = []
    for k, r in enumerate(recs):
        if k % 9 == 4:
            out.append(records.unsupported('BNLOAD', ctx, 1))
        if k % 9 == 7:
            out.append(records.unsupported('SPROSELE', ctx, k % 4))
        out.append(r)
    if letter == 'R':
        out = [records.irecsize(), records.hier_row(1, 7, 1, 1),
               records.iend(1), records.irecsize()] + out
    return out


def closure(sel, letter):
    sel = list(sel)
    for s in list(sel):
        sel += DEPENDS.get(s, [])
    sel.append('IDENT')
    if letter == 'R':
        sel.append('HIERARCH')
    out = []
    for s in sel:
        if s not in out:
            out.append(s)
    return out


def restrict(content, names):
    names = [n.lower() for n in names]
    out = {}
    for g, leaves in content.items():
        x = {}
        for k, v in leaves.items():
            if k == '@attrs':
                a = []
                for n, s in v:
                    if n == 'RECORDS':
                        s = repr([r for r in eval(s) if r.lower() in names])
                    a.append((n, s))
                x[k] = tuple(a)
            elif k.split('_')[0] in names:
                x[k] = v
        if set(x) - {'@attrs'} or '@attrs' in x and len(x['@attrs']):
            out[g] = x
    return out


def types(letter):
    return [n for n in records.SUPPORTED if c02.letter_of(n) == letter and
            n != 'HIERARCH']


def scenarios(tier):
    n = 9 if tier == 'quick' else 11
    for letter in 'TRG':
        ts = types(letter)
        for fmt in 'FU':
            sels = [[a] for a in ts]
            if fmt == 'U' or tier == 'thorough':
                sels += [[b, a] for a, b in itertools.combinations(ts, 2)]
            sels += [[t for t in ts if t != a] for a in ts]
            if tier == 'thorough':
                sels += [[t for t in ts if t not in ab]
                         for ab in itertools.combinations(ts, 2)]
            core = CORE[letter][:n]
            if fmt == 'F' or tier == 'thorough':
                for bits in itertools.product((0, 1), repeat=n):
                    sels.append([c for c, b in zip(core, bits) if b])
            step = 24
            for i in range(0, len(sels), step):
                yield {'kind': 'single', 'letter': letter, 'fmt': fmt,
                       'sels': sels[i:i+step]}
        yield {'kind': 'forms', 'letter': letter}
        for fmt in 'FU':
            yield {'kind': 'unnamed', 'letter': letter, 'fmt': fmt}
    for n in (1, 2, 3):
        for first in SEQ:
            yield {'kind': 'sequence', 'letter': '', 'first': first, 'n': n,
                   'tier': tier}
    for letter in 'TR':
        for fmt in 'FU':
            yield {'kind': 'hier', 'letter': letter, 'fmt': fmt}


def opened(env, dst, content, what):
    """the data sets can be opened, all of them under their names"""
    env.step()
    try:
        f = fs().open_hdf5(dst)
    except Exception as e:
        raise Violation('%s: the result cannot be opened: %s: %s' % (
            what, type(e).__name__, e))
    keys = sorted(f.keys())
    n = len(str(f).splitlines())
    f.close()
    want = sorted(g[1:] for g in content if g != '/')
    if keys != want or n != len(want):
        raise Violation('%s: data sets are %s, groups %s' % (
            what, keys, want))


def one(env, src, full, sel, only, what):
    dst = os.path.join(env.path(), 'x.h5')
    must_convert(env, src, dst, what=what, only=only)
    c = h5.file_content(dst)
    opened(env, dst, c, what)
    os.remove(dst)
    d = h5.diff_content(restrict(full, sel), c)
    if d:
        raise Violation('%s: %s' % (what, d))
    env.state(sorted(c))
    env.state(sorted((g, sorted(c[g])) for g in c))
    env.trace()


def run(p, env):
    letter = p['letter']
    if p['kind'] == 'hier':
        return run_hier(p, env)
    if p['kind'] == 'unnamed':
        return run_unnamed(p, env)
    if p['kind'] == 'sequence':
        return run_sequence(p, env)
    fmts = [p['fmt']] if 'fmt' in p else ['F', 'U']
    for fmt in fmts:
        lay = sesam.Layout(fmt=fmt)
        recs = data_set(letter)
        ext = '.FEM' if letter == 'T' else '.SIF' if fmt == 'F' else '.SIU'
        src = write_file(env.path(letter + '7' + ext), recs, lay)
        dst = os.path.join(env.path(), 'full.h5')
        must_convert(env, src, dst, what='complete')
        full = h5.file_content(dst)
        if p['kind'] == 'single':
            for sel in p['sels']:
                only = closure(sel, letter)
                one(env, src, full, only, only, '%s %s only=%s' % (
                    fmt, letter, only if len(only) < 12 else
                    'all but %s' % [t for t in types(letter)
                                    if t not in only]))
                env.outcome(len(only))
            continue
        core = CORE[letter][:6]
        sel = closure(core, letter)
        for only in (tuple(sel), set(sel), sel[::-1], sorted(sel),
                     sel + ['IEND'], sel + sel, sel + ['IRECSIZE', 'BNLOAD'],
                     sel + ['TNODE', 'SPROSELE', 'MGSPRNG', 'NOSUCH'],
                     frozenset(sel + ['BNLOAD', 'IEND'])):
            one(env, src, full, sel, only, '%s %s only=%r' % (fmt, letter,
                                                              only))
            env.outcome(type(only).__name__)


def run_hier(p, env):
    letter, fmt = p['letter'], p['fmt']
    d = env.path()
    src = hier.write(d, hier.SHAPES['two_level'], letter, fmt)
    dst = os.path.join(env.path(), 'full.h5')
    must_convert(env, src, dst, what='complete')
    full = h5.file_content(dst)
    core = ['GNODE', 'GCOORD', 'GELMNT1', 'HSUPTRAN', 'DATE', 'GELMNT2'] \
        if letter == 'T' else \
        ['GNODE', 'GCOORD', 'GELMNT1', 'RSUPTRAN', 'DATE', 'RDRESREF']
    for bits in itertools.product((0, 1), repeat=len(core)):
        sel = [c for c, b in zip(core, bits) if b] + ['HIERARCH', 'IDENT']
        one(env, src, full, sel, sel, '%s hierarchy only=%s' % (letter, sel))
        env.outcome(('hier', len(sel)))


def run_unnamed(p, env):
    """selections without the records that name the data set: refused, or
    carried out exactly"""
    letter, fmt = p['letter'], p['fmt']
    lay = sesam.Layout(fmt=fmt)
    ext = '.FEM' if letter == 'T' else '.SIF' if fmt == 'F' else '.SIU'
    srcs = [write_file(env.path(letter + '7' + ext), data_set(letter), lay)]
    cores = [CORE[letter][:9]]
    if letter != 'G':
        d = env.path()
        srcs.append(hier.write(d, hier.SHAPES['two_level'], letter, fmt))
        cores.append(['GNODE', 'GCOORD', 'GELMNT1', 'DATE'])
    for src, core in zip(srcs, cores):
        dst = os.path.join(env.path(), 'full.h5')
        must_convert(env, src, dst, what='complete')
        full = h5.file_content(dst)
        for n in (1, 2, 3):
            for c in itertools.combinations(core, n):
                for extra in ([], ['HIERARCH']):
                    sel = []
                    for x in c:
                        sel += DEPENDS.get(x, []) + [x]
                    sel = list(dict.fromkeys(sel + extra))
                    out = os.path.join(env.path(), 'x.h5')
                    env.step()
                    try:
                        fs().sif2hdf5(src, out, only=sel)
                    except Exception:
                        env.outcome((letter, 'refused'))
                        continue
                    d = h5.diff_content(restrict(full, sel),
                                        h5.file_content(out))
                    if d:
                        raise Violation('%s %s only=%s: %s' % (
                            fmt, os.path.basename(src), sel, d))
                    env.outcome((letter, 'stored'))
                    env.state((letter, fmt, src[-7:], sel))
                    env.trace()
                    os.remove(out)


SEQ = ['T1', 'xT1', 'R1', 'G1', 'R10', 'T10', 'T2', 'xR1']
SEQ_SEL = [['IDENT', 'HIERARCH'], ('HIERARCH', 'GNODE', 'IDENT'), {'IDENT', 'WBODY',
                                                       'DATE', 'HIERARCH'}]


def run_sequence(p, env):
    """a selection applies to every file of a call"""
    from . import c06
    base = env.path()
    pool = SEQ if p['n'] < 3 else SEQ[:5]
    if p['first'] not in pool:
        return
    for s in SEQ:
        c06.ref(env, s)
    full = os.path.join(base, 'd')
    for rest in itertools.permutations([s for s in pool if s != p['first']],
                                       p['n'] - 1):
        srcs = (p['first'],) + rest
        for only in SEQ_SEL:
            for target, append in ((None, False), ('new', False),
                                   ('new', True), ('old', True)):
                for pre, prefixes in (('', [''] * 3), ('q_', ['q_'] * 3),
                                      (['a', 'b', 'c'][:p['n']], 'abc')):
                    for use in (True, False):
                        if p['n'] == 3 and p['tier'] == 'quick' and (
                                pre == 'q_' or target == 'new' and append):
                            continue
                        one_sequence(env, full, srcs, only, target, append,
                                     pre, prefixes, use)


def one_sequence(env, d, srcs, only, target, append, pre, prefixes, use):
    import shutil
    from . import c06
    from .common import convert
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    os.chdir(d)
    what = ('sif2hdf5(%s, %s, append=%s, prefix=%r, usefileprefix=%s, '
            'only=%s)' % (list(srcs), target, append, pre, use, only))
    dst = os.path.join(d, 'out.h5') if target else None
    kept = {}
    if target == 'old':
        c06.ref(env, 'L1')
        convert(env, c06.FILES['L1'], dst)
        kept = h5.file_content(dst)
    want, names = {}, set()
    for s, q in zip(srcs, prefixes):
        fpre, letter, no, w = c06.SRC[s]
        g = q + (fpre if use else '') + letter + str(no)
        name = dst or os.path.join(
            d, os.path.basename(c06.FILES[s])[:-3] + 'h5')
        if (name, g) in names:
            return              # refused, covered by C06
        names.add((name, g))
        want.setdefault(name, dict(kept)).update(restrict(
            {'/' + g + rel: x for rel, x in c06.ref(env, s).items()},
            set(only)))
    try:
        convert(env, [c06.FILES[s] for s in srcs], dst, append=append,
                prefix=pre, usefileprefix=use, only=only)
    except Exception as e:
        raise Violation('%s failed: %s: %s' % (what, type(e).__name__, e))
    have = sorted(os.path.join(d, f) for f in os.listdir(d))
    if have != sorted(want):
        raise Violation('%s wrote %s, expected %s' % (what, have,
                                                      sorted(want)))
    for name, c in want.items():
        got = h5.file_content(name)
        got.pop('/', None)
        c.pop('/', None)
        x = h5.diff_content(c, got)
        if x:
            raise Violation('%s: %s' % (what, x))
    env.state((srcs, sorted(only), target, append, pre, use))
    env.outcome((srcs, use))
    env.trace()

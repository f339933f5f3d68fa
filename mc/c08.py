"""C08: incomplete or invalid files are reported and leave nothing behind.

Fault enumeration: (a) every byte of a set of small files (all file kinds,
both formats; top and lower level files of hierarchies) as the cut-off point;
(b) every numeric field of every supported record replaced by text; (c) a
catalogue of invalid data, at every position between the records of a file;
(d) names and files that are no interface files.  Each fault is met with a
conversion into a target that already holds a data set (append), into a fresh
target, and in memory.  After the failure: an error, nothing left open, the
target unchanged (append) and usable, and the correct file can be converted
to the same target.
"""
import os
import shutil

from . import c02, c05, c06, h5, hier, records, sesam
from .common import fs, write_file
from .core import Violation
from .records import Ctx, make
from .sesam import Rec

PROPERTY = 'C08'
BOUNDS = {
    'quick': {'cut-off points': 'every byte of 6 small files (T, R, G; '
              'formatted and unformatted), every 7th byte of 4 hierarchies '
              '(top and lower level files), append; fresh target and in '
              'memory at every 11th',
              'retry': 'after every 13th cut and every record end, and after '
              'each invalid record',
              'invalid fields': 'every numeric field of the first record of '
              'every supported type and variant (formatted)',
              'invalid data': '13 kinds at every position in a file of the '
              'kind; all unsupported element types below 60 and concept '
              'types below 13'},
    'thorough': {'cut-off points': 'every byte of 18 files and 8 hierarchies, '
                 'all modes', 'retry': 'after every cut',
                 'invalid fields': 'as quick, and 3 kinds of text',
                 'invalid data': 'as quick, all modes'},
}
RULE = ('state = (fault, mode, outcome); transition = one conversion or '
        'opening attempt')
ASSUMPTIONS = ['a file that is cut off within or directly after an end record '
               'may be accepted, if it gives the data before the end record']


def small(letter, v):
    """a small file with many kinds of records"""
    ctx = Ctx(60 + v)
    if letter == 'T':
        names = [('GNODE', 0), ('GCOORD', 0), ('GELMNT1', v), ('GELREF1', v),
                 ('BNLOAD', 0), ('GSETMEMB', v), ('TDSETNAM', v), ('TEXT', v),
                 ('GBARM', v)]
    elif letter == 'R':
        names = [('RDPOINTS', v), ('RVSTRESS', v), ('SPROSELE', 0),
                 ('RVNODDIS', v), ('RDIELCOR', v), ('RDRESCMB', v)]
    else:
        names = [('WGLOBDEF', 0), ('WBODY', 0), ('WDRESREF', v),
                 ('W1EXFORC', v), ('WSURFACE', v), ('WFLUIDKN', v)]
    main = []
    for n, k in names:
        if n in ('BNLOAD', 'SPROSELE'):
            main.append(records.unsupported(n, ctx, 1 + v))
        else:
            main.append(make(n, ctx, k % records.NVARIANTS[n]))
    head = []
    if letter == 'R':
        head = [records.irecsize(), records.hier_row(1, 7, 1, 1),
                hier.date('today'), records.iend(1), records.irecsize()]
    return head + [records.ident(7)] + ctx.pre + main + [records.iend()]


def name_of(letter, fmt, n=7):
    return '%s%d.%s' % (letter, n, 'FEM' if letter == 'T' else
                        'SIF' if fmt == 'F' else 'SIU')


HIERS = [('R', 'F', 'two_same', 'R3H3'), ('T', 'U', 'two_level', 'T2'),
         ('R', 'U', 'three_df', 'R1H6'), ('T', 'F', 'three_df', 'T20'),
         ('R', 'U', 'two_same', 'R3H2'), ('T', 'F', 'two_level', 'T1'),
         ('R', 'F', 'three_bf', 'R2H6'), ('T', 'U', 'four', 'T30')]


def scenarios(tier):
    quick = tier == 'quick'
    for v in range(1 if quick else 3):
        for letter in 'TRG':
            for fmt in 'FU':
                lay = sesam.Layout(fmt=fmt)
                n = len(sesam.encode(small(letter, v), lay))
                for i in range(0, n, 240):
                    yield {'kind': 'cut', 'letter': letter, 'fmt': fmt,
                           'v': v, 'from': i, 'to': min(i + 240, n),
                           'dense': not quick}
    for k in range(4 if quick else 8):
        for part in range(4):
            yield {'kind': 'cuthier', 'hier': HIERS[k], 'part': part,
                   'step': 7 if quick else 1, 'dense': not quick}
    for name in records.SUPPORTED:
        yield {'kind': 'field', 'name': name,
               'texts': ['ABC'] if quick else ['ABC', '1.2.3', '--1']}
    for fmt in 'FU':
        yield {'kind': 'types', 'fmt': fmt}
    for k in range(len(INVALID)):
        for fmt in 'FU':
            yield {'kind': 'invalid', 'fault': k, 'fmt': fmt}
    yield {'kind': 'names'}


# ---the oracle--------------------------------------------------------------- #

def open_files(root):
    out = []
    for fd in os.listdir('/proc/self/fd'):
        try:
            t = os.readlink('/proc/self/fd/' + fd)
        except OSError:
            continue
        if t.startswith(root):
            out.append(t[len(root):])
    return out


class Target(object):
    """a target file with one data set"""

    def __init__(self, env):
        self.env = env
        d = env.path()
        src = c06.SRC['xT1'][3](d)
        self.old = os.path.join(d, 'old.h5')
        fs().sif2hdf5(src, self.old)
        self.content = h5.file_content(self.old)
        self.dir = env.path()
        self.path = os.path.join(self.dir, 'out.h5')

    def same(self, what):
        d = h5.diff_content(self.content, h5.file_content(self.path))
        if d:
            raise Violation('%s: the existing data are changed: %s' % (
                what, d))


def fault(env, tgt, src, what, mode='append', retry=None, reopen=False, **kw):
    """convert an invalid file, and check what is left; `retry`: (file, its
    content) of the correct file"""
    if mode == 'memory':
        return fault_memory(env, src, what, retry)
    shutil.copyfile(tgt.old, tgt.path)
    env.step()
    err = None
    try:
        fs().sif2hdf5(src, tgt.path, append=mode == 'append', **kw)
    except Exception as e:
        err = type(e).__name__
    if err is None:
        raise Violation('%s: converted without an error' % what)
    left = open_files(env.tmp)
    if left:
        raise Violation('%s: still open: %s' % (what, left))
    if mode == 'append':
        tgt.same(what)
    if reopen:
        try:
            f = fs().open_hdf5(tgt.path)
            keys = sorted(f.keys())
            if mode == 'append':
                f['xT1'].get_nodenumbers()
            f.close()
        except Exception as e:
            raise Violation('%s: the target cannot be used afterwards: %s: '
                            '%s' % (what, type(e).__name__, e))
        if keys != (['xT1'] if mode == 'append' else []):
            raise Violation('%s: data sets afterwards: %s' % (what, keys))
    env.state((what, mode, err))
    env.outcome(err)
    if retry:
        good, want = retry
        env.step()
        try:
            fs().sif2hdf5(good, tgt.path, append=mode == 'append')
        except Exception as e:
            raise Violation('%s: converting the correct file afterwards '
                            'failed: %s: %s' % (what, type(e).__name__, e))
        exp = dict(want)
        if mode == 'append':
            exp.update(tgt.content)
        d = h5.diff_content(exp, h5.file_content(tgt.path))
        if d:
            raise Violation('%s: converting the correct file afterwards: %s'
                            % (what, d))
    env.trace()


def fault_memory(env, src, what, retry):
    env.step()
    try:
        x = fs().open_sif(src)
    except Exception as e:
        err = type(e).__name__
    else:
        x.close()
        raise Violation('%s: opened without an error' % what)
    if open_files(env.tmp):
        raise Violation('%s: left open: %s' % (what, open_files(env.tmp)))
    if retry:
        good, want = retry
        env.step()
        try:
            x = fs().open_sif(good)
            x.close()
        except Exception as e:
            raise Violation('%s: opening the correct file (of the same name) '
                            'afterwards failed: %s: %s' % (
                                what, type(e).__name__, e))
    env.state((what, 'memory', err))
    env.trace()


def good_content(env, src, what):
    dst = os.path.join(env.path(), 'good.h5')
    env.step()
    try:
        fs().sif2hdf5(src, dst)
    except Exception as e:
        raise Violation('%s: conversion of the correct file failed: %s: %s' % (
            what, type(e).__name__, e))
    return h5.file_content(dst)


# ---cut-off files ------------------------------------------------------------ #

def allowed_cuts(recs, lay):
    """[(first, last, n)]: cut-off points within or directly behind end record
    n may be accepted"""
    ends = sesam.boundaries(recs, lay)
    out = []
    for k, r in enumerate(recs):
        if r.name == 'IEND':
            out.append((ends[k - 1], ends[k] + 1, k))
    return out


def run(p, env):
    return globals()['run_' + p['kind']](p, env)


def run_cut(p, env):
    lay = sesam.Layout(fmt=p['fmt'])
    recs = small(p['letter'], p['v'])
    data = sesam.encode(recs, lay)
    name = name_of(p['letter'], p['fmt'])
    good = os.path.join(env.path(), name)
    open(good, 'wb').write(data)
    what = '%s %s file %d' % (p['letter'], p['fmt'], p['v'])
    want = good_content(env, good, what)
    tgt = Target(env)
    ends = set(sesam.boundaries(recs, lay))
    exempt = allowed_cuts(recs, lay)
    bad = os.path.join(env.path(), name)
    for cut in range(p['from'], p['to']):
        open(bad, 'wb').write(data[:cut])
        w = '%s cut at byte %d of %d' % (what, cut, len(data))
        ex = next((k for a, b, k in exempt if a < cut <= b), None)
        if ex is not None:
            accepted_cut(env, bad, recs, ex, lay, name, w)
            continue
        dense = p['dense'] or cut in ends
        retry = (good, want) if dense or cut % 13 == 0 else None
        fault(env, tgt, bad, w, 'append', retry, reopen=dense or cut % 13 == 1)
        if dense or cut % 11 == 2:
            fault(env, tgt, bad, w, 'fresh', (good, want), reopen=cut % 2)
        if dense or cut % 11 == 3:
            fault(env, tgt, bad, w, 'memory', (good, want))


def accepted_cut(env, bad, recs, k, lay, name, what):
    """error, or the data up to the end record"""
    dst = os.path.join(env.path(), 'x.h5')
    env.step()
    try:
        fs().sif2hdf5(bad, dst)
    except Exception as e:
        env.outcome('in end record: ' + type(e).__name__)
        return
    ref = write_file(os.path.join(env.path(), name), recs[:k+1], lay)
    d = h5.diff_content(good_content(env, ref, what), h5.file_content(dst))
    if d:
        raise Violation('%s: accepted with other data: %s' % (what, d))
    env.outcome('in end record: accepted')
    env.trace()


def run_cuthier(p, env):
    letter, fmt, shape, low = p['hier']
    lay = sesam.Layout(fmt=fmt)
    shp = hier.SHAPES[shape]
    good = env.path()
    src = hier.write(good, shp, letter, fmt)
    want = good_content(env, src, str(p['hier']))
    d = env.path()
    top = hier.write(d, shp, letter, fmt)
    tgt = Target(env)
    lowname = low + '.' + hier.ext_of(letter, fmt)
    files = [os.path.basename(src), lowname]
    for nm in files:
        data = open(os.path.join(good, nm), 'rb').read()
        if nm == lowname:
            k = next(k for k, b in hier.lower_files(shp, letter) if b == low)
            recs = hier.lower_records(shp, letter, k)
        else:
            recs = hier.top_records(shp, letter)
        if sesam.encode(recs, lay) != data:
            raise AssertionError('harness: %s' % nm)
        exempt = allowed_cuts(recs, lay)
        for n, cut in enumerate(range(0, len(data), p['step'])):
            if n % 4 != p['part']:
                continue
            if any(a < cut <= b for a, b, k in exempt):
                continue
            open(os.path.join(d, nm), 'wb').write(data[:cut])
            retry = (src, want) if p['dense'] or n % 20 < 4 else None
            mode = ('append', 'append', 'fresh', 'memory')[(n // 4) % 4]
            fault(env, tgt, top, '%s %s hierarchy %s: %s cut at byte %d' % (
                letter, fmt, shape, nm, cut), mode, retry, reopen=bool(retry))
        open(os.path.join(d, nm), 'wb').write(data)


# ---invalid fields ----------------------------------------------------------- #

def run_field(p, env):
    name = p['name']
    letter = c02.letter_of(name)
    lay = sesam.Layout(fmt='F')
    tgt = Target(env)
    fname = name_of(letter, 'F')
    for v in range(records.NVARIANTS[name]):
        recs = c02.build(name, (v,), ())
        if letter == 'R' and name != 'HIERARCH':
            recs = [records.hier_row(1, 7, 1, 1)] + recs
        good = write_file(os.path.join(env.path(), fname), recs, lay)
        want = good_content(env, good, name)
        at = next(k for k, r in enumerate(recs) if r.name == name)
        lines = [sesam.record_lines_f(r, lay) for r in recs]
        n = len(lines[at]) - len(recs[at].text)
        bad = os.path.join(env.path(), fname)
        for ln in range(n):
            nf = (len(lines[at][ln]) - 8) // 16
            used = len(recs[at].head) if ln == 0 else nf
            for fld in range(used):
                for text in p['texts']:
                    ls = [list(x) for x in lines]
                    s = ls[at][ln]
                    i = 8 + 16 * fld
                    ls[at][ln] = s[:i] + text.rjust(16) + s[i+16:]
                    with open(bad, 'w') as f:
                        for x in ls:
                            f.write('\n'.join(x) + '\n')
                    w = '%s variant %d: %r in field %d of line %d' % (
                        name, v, text, fld, ln)
                    first = ln == 0 and fld == 0
                    fault(env, tgt, bad, w, 'append',
                          (good, want) if first else None, reopen=first)
                    if first:
                        fault(env, tgt, bad, w, 'fresh', (good, want), True)
                        # (a file with all that is needed to open it)
                        whole = write_file(os.path.join(env.path(), fname),
                                           small(letter, 0), lay)
                        fault(env, tgt, bad, w, 'memory', (whole, None))


# ---invalid data ------------------------------------------------------------- #

def _elref_unknown_type(ctx):
    """element of an unsupported type with a reference record"""
    no = ctx.i()
    return [Rec('GELMNT1', 'I', [no, no, 33, 0], [[1, 2, 3]], row={}),
            Rec('GELREF1', 'I', [no, 1, 1, 1], [[0, 0, 0, 0], [0, 0, 0, 0],
                                                [1, 2, 3]], row={})]


def _elref_unknown_elem(ctx):
    return [Rec('GELREF1', 'I', [ctx.i() + 5000, 1, 1, 1],
                [[0, 0, 0, 0], [0, 0, 0, -1], [1, 2]], row={})]


def _sconmesh(k):
    def f(ctx):
        out = [make('SCONMESH', ctx, 0) for _ in range(3)]
        r = out[k]
        r.cont[0] = list(r.cont[0])
        # field 'numrep' set to 2
        r.head[2] = 2.
        return out
    return f


def _no_points(name):
    def f(ctx):
        c = Ctx(9000)
        r = make(name, c, 0)
        pre = [x for x in c.pre if x.name != 'RDPOINTS']
        return pre + [r]
    return f


def _no_comp(name, comp):
    def f(ctx):
        c = Ctx(9000)
        r = make(name, c, 0)
        return [x for x in c.pre if x.name != comp] + [r]
    return f


# (name, file kind, records)
INVALID = [
    ('GELREF1 of an element of unknown type', 'T', _elref_unknown_type),
    ('GELREF1 of an unknown element', 'T', _elref_unknown_elem),
    ('SCONMESH with several representations, 1st', 'T', _sconmesh(0)),
    ('SCONMESH with several representations, 2nd', 'T', _sconmesh(1)),
    ('SCONMESH with several representations, 3rd', 'T', _sconmesh(2)),
    ('RVFORCES without RDPOINTS', 'R', _no_points('RVFORCES')),
    ('RVSTRESS without RDPOINTS', 'R', _no_points('RVSTRESS')),
    ('RVSTRAIN without RDPOINTS', 'R', _no_points('RVSTRAIN')),
    ('RDIELCOR without RDPOINTS', 'R', _no_points('RDIELCOR')),
    ('RVFORCES without RDRESREF', 'R', _no_comp('RVFORCES', 'RDRESREF')),
    ('RVSTRESS without RDSTRESS', 'R', _no_comp('RVSTRESS', 'RDSTRESS')),
    ('RVFORCES without RDFORCES', 'R', _no_comp('RVFORCES', 'RDFORCES')),
    ('RVSTRAIN without RDSTRAIN', 'R', _no_comp('RVSTRAIN', 'RDSTRAIN')),
]


def run_invalid(p, env):
    what, letter, maker = INVALID[p['fault']]
    lay = sesam.Layout(fmt=p['fmt'])
    tgt = Target(env)
    base = small(letter, 0)
    ctx = Ctx(7000)
    extra = maker(ctx)
    name = name_of(letter, p['fmt'])
    good = write_file(os.path.join(env.path(), name), base, lay)
    want = good_content(env, good, what)
    first = next(k for k, r in enumerate(base) if r.name == 'IDENT') + 1
    bad = os.path.join(env.path(), name)
    for at in range(first, len(base)):
        write_file(bad, base[:at] + extra + base[at:], lay)
        for mode in ('append', 'fresh', 'memory'):
            fault(env, tgt, bad, '%s at position %d (%s)' % (
                what, at, p['fmt']), mode, (good, want), True)


def run_types(p, env):
    """types of elements and concepts that are not supported"""
    lay = sesam.Layout(fmt=p['fmt'])
    tgt = Target(env)
    base = small('T', 0)
    name = name_of('T', p['fmt'])
    good = write_file(os.path.join(env.path(), name), base, lay)
    want = good_content(env, good, 'types')
    first = next(k for k, r in enumerate(base) if r.name == 'IDENT') + 1
    bad = os.path.join(env.path(), name)
    cases = [('element', t) for t in range(0, 60)
             if t not in records.ELTYPES] + [('element', 163)]
    cases += [('concept', t) for t in range(0, 13) if t not in (2, 7)]
    for k, (what, t) in enumerate(cases):
        ctx = Ctx(7000)
        no = ctx.i()
        if what == 'element':
            n = (1, 2, 3, 4, 8)[k % 5]
            extra = [Rec('GELMNT1', 'I', [no, no, t, 0],
                         [ctx.is_(n)], row={})]
            if k % 3 == 0:    # behind a supported one
                extra = [make('GELMNT1', ctx, k % 8)] + extra
        else:
            extra = [Rec('SCONCEPT', 'R', [5, no, t, 0], [[0]], row={}),
                     Rec('SCONCEPT', 'R', [9, no, t, 0], [[0, 1, 1, 2, 3]],
                         row={})][k % 2:k % 2 + 1]
            if k % 3 == 0:
                extra = [make('SCONCEPT', ctx, k % 4)] + extra
        at = first + k % (len(base) - first)
        write_file(bad, base[:at] + extra + base[at:], lay)
        fault(env, tgt, bad, '%s type %d at position %d (%s)' % (
            what, t, at, p['fmt']), ('append', 'fresh', 'memory')[k % 3],
            (good, want), True)


def run_names(p, env):
    tgt = Target(env)
    for fmt in 'FU':
        for letter in 'TRG':
            recs = small(letter, 0)
            lay = sesam.Layout(fmt=fmt)
            data = sesam.encode(recs, lay)
            name = name_of(letter, fmt)
            good = os.path.join(env.path(), name)
            open(good, 'wb').write(data)
            want = good_content(env, good, name)
            ident = next(k for k, r in enumerate(recs) if r.name == 'IDENT')
            d = env.path()
            bads = {}
            for n in ('Q7.FEM', 'T0.FEM', '7.FEM', 'T7.TXT', 'R7.SIN',
                      'T7', 'FEM', 'R7.', 'T.FEM', 'R07.SIF'):
                bads[n] = data
            for n, b in bads.items():
                open(os.path.join(d, n), 'wb').write(b)
                for mode in ('append', 'memory'):
                    fault(env, tgt, os.path.join(d, n), 'name ' + n, mode,
                          (good, want), True)
            bad = os.path.join(d, name)
            for w, b in (('empty file', b''), ('K only', b'K'),
                         ('no end record', sesam.encode(recs[:-1], lay)),
                         ('no IDENT', sesam.encode(
                             [r for k, r in enumerate(recs) if k != ident and
                              r.name != 'HIERARCH'], lay)),
                         ('blank line first', b'\n' + data if fmt == 'F' else
                          data[:40])):
                open(bad, 'wb').write(b)
                for mode in ('append', 'fresh', 'memory'):
                    fault(env, tgt, bad, '%s %s: %s' % (letter, fmt, w), mode,
                          (good, want), True)
            fault(env, tgt, os.path.join(d, 'nofile', name), 'missing file',
                  'append', (good, want), True)
            fault(env, tgt, os.path.join(d, 'nofile', name), 'missing file',
                  'memory', (good, want))
            os.mkdir(os.path.join(d, 'dir'))
            os.mkdir(os.path.join(d, 'dir', name))
            for mode in ('append', 'memory'):
                fault(env, tgt, os.path.join(d, 'dir', name), 'directory',
                      mode, (good, want), True)
            shutil.rmtree(os.path.join(d, 'dir'))

"""C26: formatted files are read back as written, and record counts are right.

Space: all sequences of the three write calls of a formatted sequential file
(a record with 1 to 9 values, further values, a line of text) up to the
length bound, where the number of values takes every value modulo the four
places of a line.  After each sequence the file is read with an independent
line parser and with the reader of the library, and both have to give the
names, the values (to the nine digits that are written) and the texts in the
order of the calls; nothing but lines of the file format may be on the file.
Complete interface files are written with these calls as well and have to be
converted to the same content as the reference file.  Record counts: the
files of C03 with every kind of disturbing record, formatted and unformatted,
have to give the number of records of every name.  Reading in pieces: the
values of a record are read in every composition of their number (results
records also in every alignment of the physical records), and the reader has
to be at the next record exactly when all values are read.
"""
import itertools
import os
from collections import Counter

from . import c03, h5, records, sesam
from .common import must_convert, write_file
from .core import Violation
from .records import make

PROPERTY = 'C26'
BOUNDS = {
    'quick': {'calls': 'all sequences of up to 4 calls out of 16 and of 5 out '
              'of 8, from record heads of 0 to 4 values',
              'values': '0 to 9 per call, magnitudes 0, 1e-38 to 1e38, both '
              'signs, and three-digit exponents',
              'whole files': 'every supported record type',
              'pieces': 'all compositions of 1 to 9 values; physical records '
              'of 1, 2, 3, 5 and 32 values',
              'counts': 'every record type with every disturbing record in '
              'every gap, formatted and unformatted'},
    'thorough': {'calls': 'up to 5 calls out of 16 and of 6 out of 8',
                 'values': 'as quick',
                 'whole files': 'all variants of every supported record type',
                 'pieces': 'all compositions of 1 to 12 values',
                 'counts': 'as quick, and all pairs of disturbing records'},
}
RULE = 'state = distinct file written; transition = one call'
ASSUMPTIONS = ['the first call writes a record; values of a record with a '
               'negative first value are not read (they mark records that '
               'are skipped), so the first value of a record is not negative']

VALUES = [1.5, -2.25, 0., 1e-38, -123456.789, 3.4e38, -1., 7e-5, 0.1, -1e100,
          99999999.5, 1e-120]
SMALL = [('r', 2), ('r', 4), ('r', 5), ('v', 1), ('v', 2), ('v', 5), ('s', 'a b'),
         ('r', 9)]
OPS = [('r', n) for n in (1, 2, 3, 4, 5, 8, 9)] + \
      [('v', n) for n in (0, 1, 2, 3, 4, 5, 8)] + \
      [('s', 'SOME TEXT'), ('s', '  y')]


def classes():
    from freesif.sequentialparser import sequentialfiles as m
    return m.FormattedFile, m.UnformattedFile


def scenarios(tier):
    quick = tier == 'quick'
    for first in [o for o in OPS if o[0] == 'r']:
        yield {'kind': 'calls', 'first': list(first), 'n': 4 if quick else 5,
               'ops': 'OPS'}
    for first in [o for o in SMALL if o[0] == 'r']:
        yield {'kind': 'calls', 'first': list(first), 'n': 5 if quick else 6,
               'ops': 'SMALL'}
    for n in range(1, 10 if quick else 13):
        yield {'kind': 'pieces', 'n': n}
    for name in records.SUPPORTED:
        for v in range(1 if quick else records.NVARIANTS[name]):
            yield {'kind': 'whole', 'name': name, 'variant': v}
        for fmt in 'FU':
            yield {'kind': 'count', 'name': name, 'fmt': fmt,
                   'pairs': not quick}


def run(p, env):
    if p['kind'] == 'calls':
        ops = {'OPS': OPS, 'SMALL': SMALL}[p['ops']]
        d = env.path()
        for n in range(p['n']):
            for rest in itertools.product(ops, repeat=n):
                calls(env, os.path.join(d, 'T1.FEM'),
                      [tuple(p['first'])] + list(rest))
    elif p['kind'] == 'pieces':
        pieces(env, p['n'])
    elif p['kind'] == 'whole':
        whole(env, p)
    else:
        count(env, p)


def calls(env, path, seq):
    F = classes()[0]
    what = 'calls %s' % (seq,)
    k = itertools.count()
    want = []       # [name, values, texts]
    f = F(path, 'w')
    for i, (op, arg) in enumerate(seq):
        env.step()
        try:
            if op == 's':
                f.write_string(arg)
                want[-1].append(arg)
                continue
            vals = [VALUES[next(k) % len(VALUES)] for _ in range(arg)]
            if op == 'r':
                if vals:
                    vals[0] = abs(vals[0])
                f.write_record(('GNODE', 'TDSETNAM', 'IEND')[i % 3], vals)
                want.append([('GNODE', 'TDSETNAM', 'IEND')[i % 3]])
            else:
                f.write_floats(vals)
            want[-1].extend(float('%.8e' % x) for x in vals)
        except Violation:
            raise
        except Exception as e:
            raise Violation('%s: call %d: %s: %s' % (what, i,
                                                     type(e).__name__, e))
    f.close()
    with open(path) as g:
        text = g.read()
    env.state(text)
    got = parse(text, what)
    if got != want:
        raise Violation('%s: on the file: %s, expected %s' % (what, got,
                                                              want))
    env.trace()
    back = read(F, path, want, what)
    if back != want:
        raise Violation('%s: read back: %s, expected %s' % (what, back, want))


def parse(text, what):
    """[[name, value or text, ...], ...] of the lines of a file"""
    out = []
    lines = text.split('\n')
    if lines[-1] == '':
        lines.pop()
    for n, line in enumerate(lines):
        if not line.strip():
            raise Violation('%s: line %d is empty' % (what, n + 1))
        name, rest = line[:8], line[8:].rstrip()
        if name.strip():
            out.append([name.strip()])
        elif not out:
            raise Violation('%s: starts with a continuation line' % what)
        if len(rest) > 64:
            raise Violation('%s: line %d is too long' % (what, n + 1))
        fields = [rest[i:i+16] for i in range(0, len(rest), 16)]
        if any(x.strip().isalpha() or ' ' in x.strip() for x in fields):
            if name.strip():
                raise Violation('%s: text on line %d' % (what, n + 1))
            out[-1].append(rest)
            continue
        try:
            out[-1].extend(float(x) for x in fields)
        except ValueError:
            raise Violation('%s: line %d is %r' % (what, n + 1, line))
    return out


def read(F, path, want, what):
    """the same as it comes out of the reader, which is told the sizes"""
    out = []
    f = F(path)
    try:
        for w in want:
            name, head = f.read_headerrec()
            out.append([name] + list(head))
            left = w[1 + len(head):]
            while left:
                n = 0
                while n < len(left) and not isinstance(left[n], str):
                    n += 1
                if n:
                    out[-1].extend(f.read_floats(n))
                else:
                    n = 1
                    out[-1].append(f.read_stringrec()[8:].rstrip())
                left = left[n:]
        end = f.read_headerrec()
        if end[0]:
            raise Violation('%s: read more than written: %s' % (what, end))
    except Violation:
        raise
    except Exception as e:
        raise Violation('%s: reading %s, then %s: %s' % (
            what, out, type(e).__name__, e))
    finally:
        f.close()
    return out


def whole(env, p):
    F = classes()[0]
    pre, main, post = c03.parts(p['name'], p['variant'])
    recs = pre + main + post
    letter = c03.c02.letter_of(p['name'])
    d = env.path()
    name = letter + '7' + ('.FEM' if letter == 'T' else '.SIF')
    os.makedirs(os.path.join(d, 'w'), exist_ok=True)
    src = write_file(os.path.join(d, name), recs, sesam.Layout(fmt='F'))
    dst = os.path.join(d, 'w', name)
    what = '%s variant %d' % (p['name'], p['variant'])
    f = F(dst, 'w')
    for r in recs:
        env.step()
        # the groups of an input record start on lines of their own
        groups = [sesam._padded(g, True) for g in r.cont]
        head = list(r.head)
        f.write_record(r.name, head + (groups[0] if groups and len(head) == 4
                                       else []))
        for g in groups[1 if groups and len(head) == 4 else 0:]:
            f.write_floats(g)
        for t in r.text:
            f.write_string(t)
    f.close()
    out = []
    for s in (src, dst):
        h = os.path.join(d, 'x.h5')
        must_convert(env, s, h, what=what)
        out.append(h5.file_content(h))
        os.remove(h)
    bad = h5.diff_content(*out)
    if bad:
        raise Violation('%s: written by the library: %s' % (what, bad))
    env.trace()


def count(env, p):
    F = classes()['FU'.index(p['fmt'])]
    d = env.path()
    combos = [(g, [a]) for g in range(3) for a in c03.KINDS]
    if p['pairs']:
        combos += [(1, [a, b]) for a in c03.KINDS for b in c03.KINDS]
    for k, (gap, kinds) in enumerate([(0, []), (0, [])] + combos):
        lay = sesam.Layout(fmt=p['fmt'], tail=k % 2 == 0)
        recs = c03.assemble(p['name'], 0, {gap: kinds})
        what = '%s %s: %s in gap %d' % (p['fmt'], p['name'], kinds, gap)
        path = write_file(os.path.join(d, 'T7.FEM'), recs, lay)
        want = Counter(r.name for r in recs if not r.head[0] < 0)
        most = Counter(r.name for r in recs)
        env.step()
        f = F(path)
        try:
            got = dict(f.get_recordcount())
        except Exception as e:
            raise Violation('%s: %s: %s' % (what, type(e).__name__, e))
        finally:
            f.close()
        got.pop('', None)
        # records that are marked as skipped may be counted or not
        if any(not want[n] <= got.get(n, 0) <= most[n]
               for n in set(most) | set(got)):
            raise Violation('%s: counts %s, expected %s' % (
                what, sorted(got.items()), sorted(want.items())))
    env.trace()


def compositions(n):
    if not n:
        yield []
    for k in range(1, n + 1):
        for rest in compositions(n - k):
            yield [k] + rest


def pieces(env, n):
    vals = [k + 10.5 for k in range(n)]
    d = env.path()
    cases = [('F', 'I', 32), ('U', 'I', 32)] + [
        ('U', 'R', c) for c in (1, 2, 3, 5, 32)]
    for fmt, kind, chunk in cases:
        head = [n + 4, 2, 3, 4]
        r = sesam.Rec('RVSTRESS' if kind == 'R' else 'GIORH', kind, head,
                      [vals])
        recs = [r, sesam.Rec('GNODE', 'I', [1, 2, 6, 123456]), r,
                records.iend()]
        path = write_file(os.path.join(d, 'x'), recs, sesam.Layout(
            fmt=fmt, chunk=chunk, pad=False))
        skip = 8 if kind == 'I' else 0
        for comp in compositions(n):
            env.step()
            what = '%s %d values in physical records of %d, read as %s' % (
                fmt, n, chunk, comp)
            f = classes()['FU'.index(fmt)](path)
            try:
                piecewise(f, recs, comp, skip, what)
            except Violation:
                raise
            except Exception as e:
                raise Violation('%s: %s: %s' % (what, type(e).__name__, e))
            finally:
                f.close()
    env.trace()


def piecewise(f, recs, comp, skip, what):
    for r in recs:
        name, head = f.read_headerrec()
        if (name, list(head)) != (r.name, r.head):
            raise Violation('%s: header %s %s, expected %s %s' % (
                what, name, head, r.name, r.head))
        left = [x for g in r.cont for x in g]
        for k in comp if left else ():
            if f.at_headerrec():
                raise Violation('%s: at a header with %s left' % (what, left))
            got = list(f.read_floats(k, skip))
            if got != left[:k]:
                raise Violation('%s: got %s, expected %s' % (what, got,
                                                             left[:k]))
            left = left[k:]
        if r is not recs[-1] and not f.at_headerrec():
            raise Violation('%s: not at a header behind %s' % (what, r.name))

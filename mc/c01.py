"""C01: converted data do not depend on format or physical record layout.

Space: a data set with every supported record type and variant of the file
kind, written with every layout within the bounds; the content of the
converted file has to be that of the reference layout (formatted, padded),
bit for bit.  For short result records every composition of the continuation
values into physical records is enumerated.
"""
import itertools
import os

from . import c02, h5, records, sesam
from .common import must_convert, write_file
from .core import Violation
from .records import Ctx, make
from .sesam import Rec

PROPERTY = 'C01'
BOUNDS = {
    'quick': {'layouts': 'formatted: pad x eol x values that fill '
              'their columns; unformatted: uniform chunks '
              '1..32 x {128,129} flag, pad, end byte; all cyclic chunk '
              'patterns of length 2 over {1,2,3,5,31,32} and of length 3 over '
              '{1,4,32}',
              'compositions': 'all compositions of up to 7 continuation '
              'values, per result record type and variant'},
    'thorough': {'layouts': 'as quick, patterns of length 2 over 1..32 and of '
                 'length 3 over {1,2,3,5,31,32}',
                 'compositions': 'all compositions of up to 9 values'},
}
RULE = 'state = distinct layout of a data set; transition = one conversion'
ASSUMPTIONS = ['input records have at most 4 values per continuation record '
               'and text records one line per physical record, as the format '
               'prescribes; only result records can be chunked freely']


def layouts(tier):
    for pad in (True, False):
        for eol in ('\n', '\r\n'):
            for full in (False, True):
                yield dict(fmt='F', pad=pad, eol=eol, full=full)
    for c in range(1, 33):
        yield dict(fmt='U', chunk=c)
    for c in (32, 31, 1):
        for lead in (128, 129):
            for pad in (True, False):
                for tail in (True, False):
                    yield dict(fmt='U', chunk=c, lead=lead, pad=pad, tail=tail)
    a2 = (1, 2, 3, 5, 31, 32) if tier == 'quick' else range(1, 33)
    for c in itertools.product(a2, repeat=2):
        if c[0] != c[1]:
            yield dict(fmt='U', chunk=list(c))
    a3 = (1, 4, 32) if tier == 'quick' else (1, 2, 3, 5, 31, 32)
    for c in itertools.product(a3, repeat=3):
        if len(set(c)) > 1:
            yield dict(fmt='U', chunk=list(c))


def compositions(n):
    for bits in itertools.product((0, 1), repeat=n - 1):
        out, k = [], 1
        for b in bits:
            if b:
                out.append(k)
                k = 1
            else:
                k += 1
        yield out + [k]


def scenarios(tier):
    for letter in 'TRG':
        ls = list(layouts(tier))
        step = 6
        for i in range(0, len(ls), step):
            yield {'kind': 'all', 'letter': letter, 'layouts': ls[i:i+step]}
    for name in records.SUPPORTED:
        for v in range(records.NVARIANTS[name]):
            r = make(name, Ctx(10), v)
            n = sum(len(g) for g in r.cont)
            if r.kind == 'R' and 1 < n:
                yield {'kind': 'comp', 'name': name, 'variant': v,
                       'n': min(n, 7 if tier == 'quick' else 9)}


def data_set(letter):
    recs = c02.mixed_records(letter)
    if letter == 'R':
        recs = [records.irecsize(), records.hier_row(1, 7, 1, 1),
                Rec('DATE', 'T', [1, 0, 1, 72], text=['DATE: today'],
                    row=dict(type=1, subtype=0, nrecs=1, nbyte=72),
                    vl={'recs': [('text', '        DATE: today')]}),
                records.iend(1), records.irecsize()] + recs
    return recs


def content(env, recs, letter, lay, what):
    ext = '.FEM' if letter == 'T' else '.SIF' if lay.fmt == 'F' else '.SIU'
    d = env.path()
    src = write_file(os.path.join(d, letter + '7' + ext), recs, lay)
    dst = os.path.join(d, 'x.h5')
    must_convert(env, src, dst, what=what)
    c = h5.file_content(dst)
    os.remove(dst)
    os.remove(src)
    return c




def text_normal(c):
    out = {}
    for g, leaves in c.items():
        out[g] = dict(leaves)
        for n in leaves:
            if n != '@attrs' and (n.endswith('_recs') or n.endswith('_text')):
                d, s, b = leaves[n]
                w = int(d.strip('|S') or 1) if d.startswith('|S') else 0
                if w:
                    b = [b[i:i+w].rstrip(b'\0').rstrip()
                         for i in range(0, len(b), w)]
                out[g][n] = (d, s, b)
    return out


def run(p, env):
    if p['kind'] == 'all':
        recs = data_set(p['letter'])
        ref = text_normal(content(env, recs, p['letter'], sesam.Layout(),
                                  'reference layout'))
        ntab = sum(len(x) for x in ref.values())
        if ntab < 20:
            raise Violation('only %d tables in the reference' % ntab)
        for lay in p['layouts']:
            c = text_normal(content(env, recs, p['letter'],
                                    sesam.Layout(**lay), str(lay)))
            d = h5.diff_content(ref, c)
            if d:
                raise Violation('%s file with layout %s: %s' % (
                    p['letter'], lay, d))
            env.state((p['letter'], sorted(lay.items())))
            env.outcome((p['letter'], lay['fmt']))
            env.trace()
        return
    name, v, n = p['name'], p['variant'], p['n']
    letter = c02.letter_of(name)
    recs = c02.build(name, (v, v), (0,))
    if letter == 'R' and name != 'HIERARCH':
        recs = [records.hier_row(1, 7, 1, 1)] + recs
    total = [sum(len(g) for g in r.cont) for r in recs if r.name == name]
    ref = content(env, recs, letter, sesam.Layout(), name)
    for comp in compositions(n):
        # the composition at the start of the record, and at its end
        for where in (0, 1):
            rest = total[0] - n
            sizes = comp + [32] * ((rest + 31) // 32) if where == 0 else \
                [rest] * (1 if 0 < rest <= 32 else 0) + comp
            if where == 1 and (rest == 0 or rest > 32):
                continue
            lay = PerRecord(name, sizes)
            c = content(env, recs, letter, lay, '%s %s' % (name, sizes))
            d = h5.diff_content(text_normal(ref), text_normal(c))
            if d:
                raise Violation('%s with physical records %s: %s' % (
                    name, sizes, d))
            env.state((name, v, sizes))
            env.outcome((name, v))
            env.trace()


class PerRecord(sesam.Layout):
    """given chunks for the records of one type, 32 for the others"""

    def __init__(self, name, sizes):
        sesam.Layout.__init__(self, fmt='U')
        self.only = name
        self.sizes = sizes

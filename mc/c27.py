"""C27: files are recognised by name and content in every spelling.

Space: (a) the product of prefixes (also ones that look like file names
themselves), letters and extensions in both cases, numbers, repetition
suffixes and formats; every file is converted to a named target with and
without its prefix, to the default target, and opened in memory; (b) the
product of near misses of every part of a name, which must be refused and
leave nothing behind; (c) every way to name the path (absolute, relative,
through directories that look like file names, through symbolic links with
names of their own) for single files and hierarchies, whose lower level files
lie beside the real file.
"""
import itertools
import os

from . import c06, c24, h5, hier, hydro, sesam
from .common import convert, fs, write_file
from .core import Violation

PROPERTY = 'C27'
BOUNDS = {
    'quick': {'names': '12 prefixes x 4 letters x 5 numbers x 3 repetition '
              'suffixes x spellings of letter and extension x formats',
              'refused': '8 prefixes x 9 letters x 6 numbers x 22 endings '
              'with at least one wrong part',
              'paths': '10 ways x (3 kinds of single files, 3 hierarchies of '
              'models and results) x formats'},
    'thorough': {'names': '24 prefixes x 4 letters x 9 numbers x 4 '
                 'repetition suffixes x spellings x formats',
                 'refused': 'as quick', 'paths': 'all shapes of hierarchies'},
}
RULE = ('state = distinct (name or path form, outcome); transition = one '
        'conversion or opening')
ASSUMPTIONS = ['the number in the file name is the one on the file; names '
               'are in ASCII; a file that is not unformatted is formatted']

PREFIX = ['', 'x', 'ab_', '-', 'T', 'R2', 'T1-', 'g1_', '7', 'r10h2', 'FEM',
          '2R', 'L', 'RTGL', '_', 'x-y_z', 'sif', '0', 'R10H2-', 'H2',
          'Tower_R', 'tt', 'SIU-', 'A1B2C3']
NUMBERS = [1, 20, 101, 9, 1234, 10, 99, 12345, 6]
SUFFIX = ['', 'H1', 'H123', 'h20']


def content(letter, no):
    if letter == 'G':
        return hydro.simple(no, 1)
    return c06.lean(7, no)


def spellings(letter, ext):
    """(letter, extension) as they may be written"""
    out = [(letter, ext), (letter.lower(), ext.lower()),
           (letter, ext.lower()), (letter, ext.capitalize())]
    return out


def forms(letter):
    """(extension, format)"""
    return [('FEM', 'F'), ('FEM', 'U')] if letter in 'TL' else \
        [('SIF', 'F'), ('SIU', 'U')]


def scenarios(tier):
    n = 12 if tier == 'quick' else 24
    for letter in 'RTGL':
        for k in range(0, n, 3):
            yield {'kind': 'names', 'letter': letter,
                   'prefixes': PREFIX[k:k + 3],
                   'numbers': 5 if tier == 'quick' else 9,
                   'suffixes': 3 if tier == 'quick' else 4}
    for pre in BAD_PREFIX:
        yield {'kind': 'refused', 'prefix': pre}
    for kind in ('T', 'R', 'hydro'):
        for fmt in 'FU':
            yield {'kind': 'paths', 'file': kind, 'fmt': fmt}
    shapes = ('two_level', 'reverse', 'mixed') if tier == 'quick' else \
        sorted(hier.SHAPES)
    for shape in shapes:
        for letter in 'TR':
            for fmt in 'FU':
                yield {'kind': 'paths', 'shape': shape, 'letter': letter,
                       'fmt': fmt}


def run(p, env):
    globals()['run_' + p['kind']](p, env)


def groups(name):
    c = h5.file_content(name)
    c.pop('/', None)
    return c


REF = {}


def reference(env, letter, no, fmt):
    """content of the group, from a file with a plain name"""
    key = (letter, no, fmt)
    if key not in REF:
        ext = dict((f, e) for e, f in forms(letter))[fmt]
        src = write_file(os.path.join(env.path(), '%s%d.%s' % (
            letter, no, ext)), content(letter, no), sesam.Layout(fmt=fmt))
        dst = os.path.join(env.path(), 'ref.h5')
        convert(env, src, dst)
        c = groups(dst)
        want = '/%s%d' % (letter, no)
        if list(c) != [want]:
            raise Violation('%s was stored as %s' % (
                os.path.basename(src), sorted(c)))
        REF[key] = c[want]
    return REF[key]


def must(f, what):
    try:
        return f()
    except Exception as e:
        raise Violation('%s failed: %s: %s' % (what, type(e).__name__, e))


def same(name, want, what):
    c = groups(name)
    d = h5.diff_content(want, c)
    if d:
        raise Violation('%s: %s; groups are %s, expected %s' % (
            what, d, sorted(c), sorted(want)))


def run_names(p, env):
    letter = p['letter']
    d, out = env.path(), env.path()
    for pre in p['prefixes']:
        for no in NUMBERS[:p['numbers']]:
            for ext, fmt in forms(letter):
                want = reference(env, letter, no, fmt)
                data = sesam.encode(content(letter, no),
                                    sesam.Layout(fmt=fmt))
                for suf in SUFFIX[:p['suffixes']]:
                    for l, e in spellings(letter, ext):
                        name = '%s%s%d%s.%s' % (pre, l, no, suf, e)
                        one_name(env, d, out, name, data, pre, letter, no,
                                 want)
                        env.state((name, fmt))
        env.trace()
    env.outcome('recognised')


def one_name(env, d, out, name, data, pre, letter, no, want):
    src = os.path.join(d, name)
    with open(src, 'wb') as f:
        f.write(data)
    os.chdir(out)
    base = '%s%d' % (letter, no)
    a = os.path.join(out, 'a.h5')
    must(lambda: convert(env, src, a), 'conversion of %s' % name)
    same(a, {'/' + pre + base: want}, name)
    must(lambda: convert(env, src, a, usefileprefix=False, prefix='q'),
         'conversion of %s without its prefix' % name)
    same(a, {'/q' + base: want}, name + ' without its prefix')
    os.remove(a)
    must(lambda: convert(env, src), 'conversion of %s to the default target'
         % name)
    default = name[:-3] + 'h5'
    if os.listdir(out) != [default]:
        raise Violation('conversion of %s made %s, expected %s' % (
            name, os.listdir(out), default))
    same(default, {'/' + pre + base: want}, name)
    os.remove(os.path.join(out, default))
    env.step()
    x = must(lambda: fs().open_sif(src), 'opening %s in memory' % name)
    keys = sorted(x.file.keys())
    if keys != [pre + base] or x.file[pre + base] is not x:
        raise Violation('%s in memory has the data sets %s' % (name, keys))
    x.close()
    if os.listdir(out) or os.listdir(d) != [name]:
        raise Violation('opening %s made %s' % (
            name, os.listdir(out) + os.listdir(d)))
    os.remove(src)


# -- refused names ---------------------------------------------------------- #

# the last two are not valid prefixes
BAD_PREFIX = ['', 'x', 'T1-', 'ab_', '9', 'R2', 'a b', 'a+']
LETTERS = ['R', 't', 'G', 'l', '', 'S', 'h', '-', 'X']
BADNO = ['1', '20', '', '0', '01', 'x']
ENDINGS = ['.SIF', '.fem', '.SIN', '.sin', '', '.', '.FE', '.TXT', '.h5',
           '.SIX', 'H0.SIF', 'H.FEM', 'xSIF', '_fem', 'SIU', '.SIFx', '.FEM~',
           '.SIF.bak', '.sif.SIF', '.SIU ', '.SIF\n', '..FEM']
CHARS = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-')


def numbered(s):
    """s without the number it ends with, or None"""
    i = len(s)
    while i and s[i - 1].isdigit():
        i -= 1
    return None if i == len(s) or s[i] == '0' else s[:i]


def valid(name):
    stem, _, ext = name.rpartition('.')
    head = numbered(stem)
    if ext.upper() not in ('SIF', 'SIU', 'FEM') or not set(stem) <= CHARS or \
            not head:
        return False
    if head[-1] in 'Hh':
        head = numbered(head[:-1])
    return bool(head) and head[-1] in 'rtglRTGL'


def run_refused(p, env):
    pre = p['prefix']
    d, out = env.path(), env.path()
    tgt = os.path.join(out, 't.h5')
    convert(env, c06.SRC['T2'][3](env.path()), tgt)
    before = c24.listing(out)
    os.chdir(out)
    data = sesam.encode(content('T', 1), sesam.Layout())
    for letter, no, end in itertools.product(LETTERS, BADNO, ENDINGS):
        name = pre + letter + no + end
        if name in ('', '.') or valid(name):
            continue
        src = os.path.join(d, name)
        with open(src, 'wb') as f:
            f.write(data)
        for what, f in (
                ('conversion', lambda: convert(env, src)),
                ('appending', lambda: convert(env, src, tgt, append=True)),
                ('overwriting', lambda: convert(env, src, tgt)),
                ('opening in memory', lambda: fs().open_sif(src))):
            env.step()
            try:
                f()
            except Exception as e:
                env.outcome(type(e).__name__)
            else:
                raise Violation('%s of a file named %s: there is no error'
                                % (what, name))
            if c24.listing(out) != before:
                raise Violation('%s of a file named %s was refused, but '
                                'changed the files' % (what, name))
        env.state(name)
        os.remove(src)
    env.trace()


# -- paths ------------------------------------------------------------------ #

def run_paths(p, env):
    for pre in ('', 'x_', 'R2'):
        for lower in (False, True):
            one_paths(p, env, pre, lower)


def one_paths(p, env, pre, lower):
    top = env.path()
    d = os.path.join(top, 'xR1.SIF', 'sub.d')
    os.makedirs(d)
    if 'shape' in p:
        shape = hier.SHAPES[p['shape']]
        src = hier.write(d, shape, p['letter'], p['fmt'], (), pre, lower)
        key = '%s%s%d' % (pre, p['letter'], shape[0][0])
    else:
        src = c24.write_single(d, p['file'], p['fmt'], pre, lower)
        letter, no, _ = c24.records_of(p['file'])
        key = '%s%s%d' % (pre, letter, no)
    base = os.path.basename(src)
    ref = os.path.join(env.path(), 'ref.h5')
    convert(env, src, ref)
    want = groups(ref)
    if '/' + key not in want:
        raise Violation('%s was stored as %s' % (base, sorted(want)))
    links = env.path()
    ext = base[-3:]
    work = env.path()
    ways = {'absolute': src}
    # links to the file: same name, another number, another kind of name
    for n in (base, 'T77.FEM', 'q' + base, 'latest', 'R1.SIN', '9.' + ext):
        os.symlink(src, os.path.join(links, n))
        ways['link ' + n] = os.path.join(links, n)
    os.symlink('latest', os.path.join(links, 'R3.SIF'))
    ways['link to a link'] = os.path.join(links, 'R3.SIF')
    os.symlink(d, os.path.join(links, 'dir'))
    ways['link to the directory'] = os.path.join(links, 'dir', base)
    ways['relative'] = os.path.relpath(src, work)
    ways['with dots'] = os.path.join(d, '..', '.', 'sub.d', base)
    ways['doubled'] = src.replace('/sub.d/', '//sub.d//')
    for way in sorted(ways):
        name = ways[way]
        what = '%s, named by %s' % (key, way)
        os.chdir(work)
        before = c24.listing(top, links)
        must(lambda: convert(env, name, 'a.h5'), 'conversion of ' + what)
        same('a.h5', want, what)
        must(lambda: convert(env, name, 'b.h5', usefileprefix=False),
             'conversion of %s without its prefix' % what)
        same('b.h5', {g.replace('/' + pre, '/', 1): x
                      for g, x in want.items()}, what)
        os.remove('a.h5')
        os.remove('b.h5')
        env.step()
        x = must(lambda: fs().open_sif(name), 'opening in memory of ' + what)
        have = sorted('/' + k for k in x.file.keys())
        if have != sorted(want) or x.file[key] is not x:
            raise Violation('%s: data sets in memory are %s, expected %s' % (
                what, have, sorted(want)))
        x.close()
        if os.listdir(work) or c24.listing(top, links) != before:
            raise Violation('%s: files were changed or left behind' % what)
        env.state((key, way))
        env.trace()
    os.chdir('/')
    env.outcome('paths')

"""C07: superelement hierarchies are assembled completely, with right names.

Space: (a) all hierarchies that can be generated from two first level and two
second level superelement types within a bound (listed depth first and breadth
first, with indices in both orders), as models and as results; (b) for a set
of named hierarchies (up to four levels) all subsets of missing files, in both
formats, with prefixes and lower case names, with unrelated files in the same
directory.  Every group has to hold the records of its own file.
"""
import itertools
import os

import tables as tb

from . import c06, h5, hier, records, sesam
from .common import fs, must_convert
from .core import Violation

PROPERTY = 'C07'
BOUNDS = {
    'quick': {'hierarchies': 'all with top level sequences of <=2 out of 4 '
              'types, second level types with 1 or 2 subelements; 2 orders x '
              '2 index orders x models/results',
              'missing files': 'all subsets, for 9 named hierarchies, models '
              'and results, both formats',
              'names': '5 prefixes x upper/lower case x usefileprefix x '
              'prefix argument x unrelated files'},
    'thorough': {'hierarchies': 'as quick with top level sequences of <=3',
                 'missing files': 'as quick, with all names',
                 'names': 'as quick'},
}
RULE = ('state = distinct set of groups with attributes and hierarchy; '
        'transition = one conversion')
ASSUMPTIONS = ['superelements of one type have the same subelements and the '
               'same level, as in a SESAM hierarchy',
               'the first repetition of a type has index 1']

PREFIXES = ['', 'x_', 'a-b_', 'R3_', 'T10']


def grammar(top, subs, order, rev):
    """rows of the hierarchy with the given top level sequence; `subs` gives
    the subelement types of the second level types"""
    rows = []

    def add(typ, lev, par):
        rows.append([typ, 0, lev, par])
        return len(rows)

    deep = any(t in subs for t in top)
    root = add(100, 3 if deep else 2, 0)
    if order == 'df':
        for t in top:
            n = add(t, 2 if t in subs else 1, root)
            for s in subs.get(t, ()):
                add(s, 1, n)
    else:
        ns = [(t, add(t, 2 if t in subs else 1, root)) for t in top]
        for t, n in ns:
            for s in subs.get(t, ()):
                add(s, 1, n)
    rows[0][1] = 1
    for typ in set(r[0] for r in rows[1:]):
        these = [r for r in rows if r[0] == typ]
        for k, r in enumerate(reversed(these) if rev else these):
            r[1] = k + 1
    return [tuple(r) for r in rows]


A, B, P, Q = 3, 12, 31, 2
LOW = [(A,), (B,), (A, B), (B, A), (A, A), (B, B)]


def shapes(n):
    for k in range(1, n + 1):
        for top in itertools.product((A, B, P, Q), repeat=k):
            for sp in LOW if P in top else [None]:
                for sq in LOW if Q in top else [None]:
                    subs = {}
                    if sp:
                        subs[P] = sp
                    if sq:
                        subs[Q] = sq
                    yield top, subs


def scenarios(tier):
    for shape in hier.SHAPES:
        for letter in 'RT':
            for fmt in 'FU':
                yield {'kind': 'missing', 'shape': shape, 'letter': letter,
                       'fmt': fmt, 'all': tier == 'thorough'}
    for shape in ('two_level', 'three_df', 'one_level'):
        for letter in 'RT':
            for fmt in 'FU':
                yield {'kind': 'names', 'shape': shape, 'letter': letter,
                       'fmt': fmt}
    block = []
    for top, subs in shapes(2 if tier == 'quick' else 3):
        block.append([list(top), sorted([k, list(v)]
                                        for k, v in subs.items())])
        if len(block) == 8:
            yield {'kind': 'grammar', 'block': block}
            block = []
    if block:
        yield {'kind': 'grammar', 'block': block}


def check(env, name, shape, letter, missing, prefix, what):
    exp = hier.expected(shape, letter, missing, prefix)
    f = tb.open_file(name, 'r')
    try:
        groups = set(g._v_pathname for g in f.walk_groups('/')) - {'/'}
        if groups != set(exp):
            raise Violation('%s: groups are %s, expected %s' % (
                what, sorted(groups), sorted(exp)))
        for path, (attrs, recs) in exp.items():
            g = f.get_node(path)
            for a, v in attrs.items():
                got = h5._plain(g._v_attrs[a]) if a in g._v_attrs else None
                if got != v:
                    raise Violation('%s: attribute %s of %s is %r, expected '
                                    '%r' % (what, a, path, got, v))
            h5.check_group(f, path, records.expected(recs), what + ': ')
    finally:
        f.close()
    env.state(sorted((p, sorted(a.items())) for p, (a, r) in exp.items()))
    env.outcome('%d groups' % len(exp))
    ff = fs().open_hdf5(name)
    try:
        keys = set(ff.keys())
        if keys != set(p[1:] for p in exp):
            raise Violation('%s: data sets %s, expected %s' % (
                what, sorted(keys), sorted(exp)))
        for path, (attrs, recs) in exp.items():
            want = {'TOPLEVEL': 'TopLevelData', 'INTERLEVEL': 'InterLevelData',
                    'FIRSTLEVEL': 'FirstLevelData'}[attrs['LEVEL']]
            got = type(ff[path[1:]]).__name__
            if got != want:
                raise Violation('%s: %s is %s, expected %s' % (
                    what, path, got, want))
    finally:
        ff.close()
    env.trace()


def run(p, env):
    if p['kind'] == 'grammar':
        for top, subs in p['block']:
            for order in ('df', 'bf'):
                for rev in (False, True):
                    shape = grammar(top, dict((k, v) for k, v in subs), order,
                                    rev)
                    for letter in 'RT':
                        d = env.path()
                        src = hier.write(d, shape, letter,
                                         'FU'[len(shape) % 2])
                        dst = os.path.join(d, 'out.h5')
                        what = '%s %s' % (letter, shape)
                        must_convert(env, src, dst, what=what)
                        check(env, dst, shape, letter, (), '', what)
                        env.state(shape)
        return
    shape, letter, fmt = hier.SHAPES[p['shape']], p['letter'], p['fmt']
    if p['kind'] == 'missing':
        names = [('', False, False)]
        if p['all']:
            names += [('x_', True, False), ('', False, True)]
        low = [k for k, _ in hier.lower_files(shape, letter)]
        for missing in hier.sub_lists(low):
            for prefix, lower, other in names:
                d = env.path()
                src = hier.write(d, shape, letter, fmt, missing, prefix, lower)
                if other:
                    unrelated(d, shape, letter, fmt, missing, prefix)
                dst = os.path.join(d, 'out.h5')
                what = '%s %s %s without %s' % (
                    letter, fmt, p['shape'], list(missing))
                must_convert(env, src, dst, what=what)
                check(env, dst, shape, letter, missing, prefix, what)
        return
    low = [k for k, _ in hier.lower_files(shape, letter)]
    for prefix in PREFIXES:
        for lower in (False, True):
            for use in (True, False):
                for arg in ('', 'p_'):
                    for missing in ((), low[:1]):
                        d = env.path()
                        src = hier.write(d, shape, letter, fmt, missing,
                                         prefix, lower)
                        unrelated(d, shape, letter, fmt, missing, prefix)
                        dst = os.path.join(d, 'out.h5')
                        what = '%s usefileprefix=%s prefix=%r' % (
                            os.path.basename(src), use, arg)
                        if use:
                            os.chdir(d)
                            src = os.path.basename(src)
                        elif arg:
                            os.chdir(os.path.dirname(d))
                            src = os.path.relpath(src)
                        must_convert(env, src, dst, what=what,
                                     usefileprefix=use, prefix=arg)
                        check(env, dst, shape, letter, missing,
                              arg + (prefix if use else ''), what)


def unrelated(d, shape, letter, fmt, missing, prefix):
    """files that do not belong to the hierarchy, in the same directory"""
    ext = hier.ext_of(letter, fmt)
    other = {'SIF': 'SIU', 'SIU': 'SIF', 'FEM': 'SIF'}[ext]
    lay = sesam.Layout(fmt=fmt)
    recs = sesam.encode(c06.lean(77, 5), lay)
    names = ['z%s%s%d.%s' % (prefix, letter, 999, ext)]
    for k, base in hier.lower_files(shape, letter):
        typ = shape[k][0]
        names += ['q%s%s.%s' % (prefix, base, ext),
                  '%s%s.%s' % (prefix, base, other),
                  '%s%s.%sX' % (prefix, base, ext),
                  '%sR%dH%d.%s' % (prefix, typ, k + 91, ext)]
        if letter == 'R':
            names += ['%sR%d.%s' % (prefix, typ, ext),
                      '%sT%d.FEM' % (prefix, typ)]
    have = set(n.lower() for n in os.listdir(d))
    gone = set((prefix + base + '.' + ext).lower()
               for k, base in hier.lower_files(shape, letter))
    for n in names:
        if n.lower() not in have and n.lower() not in gone:
            with open(os.path.join(d, n), 'wb') as f:
                f.write(recs)

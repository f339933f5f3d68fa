"""C06: appending and multi-file conversion keep data sets separate and intact.

Space: (a) every sequence of conversions up to a depth, out of a pool of
(source, prefix, usefileprefix, append), into one target file (tree search,
with a snapshot of the target per node); (b) all reachable states of the
target under a pool of appending conversions (breadth first, one target per
state); (c) all sequences of up to 3 file names in one call, with all forms of
the other arguments.  The model of the target is {group name: source}.
"""
import itertools
import os
import shutil

from . import h5, hier, records, sesam
from .common import convert, fs, write_file
from .core import Violation
from .records import Ctx, make

PROPERTY = 'C06'
BOUNDS = {
    'quick': {'sequences': 'all sequences of 2 conversions out of 34 '
              '(source, prefix, usefileprefix, append), all of 3 out of 12, '
              'all of 4 out of 5',
              'reachable': 'all states of a target under 4 sets of 6 '
              'appending conversions',
              'lists': 'all sequences of <=2 names out of 5 in all argument '
              'forms, of 3 names in some'},
    'thorough': {'sequences': 'all sequences of 3 out of 34, of 4 out of 21, '
                 'of 5 out of 9',
                 'reachable': 'all states of a target under 18 appending '
                 'conversions with 9 different group names',
                 'lists': 'all sequences of <=4 names out of 5, all argument '
                 'forms'},
}
RULE = ('state = content of the target file, by group; transition = one '
        'call of sif2hdf5')
ASSUMPTIONS = ['group names of one call sequence differ by prefix, letter or '
               'superelement number only; other files do not write to the '
               'target at the same time']


def _bad(d):
    p = write_file(os.path.join(d, 'T3.FEM'), lean(31, 3),
                   sesam.Layout(fmt='F'))
    b = open(p, 'rb').read()
    open(p, 'wb').write(b[:len(b) - 90])
    return p


def lean(seed, no, level=1):
    """few records: some nodes and a text"""
    n = seed % 3 + 1
    return [records.ident(no, level)] + \
        [r for r in hier.mesh(seed, n) if r.name == 'GNODE'] + \
        [hier.date('file %d' % seed), records.iend()]


def _file(name, recs, fmt='F'):
    return lambda d: write_file(os.path.join(d, name), recs,
                                sesam.Layout(fmt=fmt))


def _g(n, seed):
    return [records.ident(n)] + [make(r, Ctx(seed), 0) for r in (
        'WGLOBDEF', 'WBODY')] + [records.iend()]


def _hier(name, shape, fmt, sub):
    """small hierarchy of result files"""
    def f(d):
        shp = hier.SHAPES[shape]
        ext = 'SIF' if fmt == 'F' else 'SIU'
        lay = sesam.Layout(fmt=fmt)
        recs = [records.irecsize()] + hier.rows(shp) + lean(40, 10, 2)[1:-1]
        recs.insert(1 + len(shp), records.ident(10, 2))
        top = write_file(os.path.join(d, '%sR10.%s' % (name, ext)), recs +
                         [records.iend()], lay)
        for k, base in sub:
            write_file(os.path.join(d, '%s%s.%s' % (name, base, ext)),
                       lean(50 + k, shp[k][0]), lay)
        return top
    return f


# source: (file prefix, letter, number, writer); None: fails
SRC = {
    'T1': ('', 'T', 1, _file('T1.FEM', lean(11, 1))),
    'T1b': ('', 'T', 1, _file('T1.FEM', lean(12, 1), 'U')),
    'xT1': ('x', 'T', 1, _file('xT1.FEM', lean(13, 1))),
    'T2': ('', 'T', 2, _file('T2.FEM', lean(14, 2))),
    'T12': ('', 'T', 12, _file('T12.FEM', lean(15, 12))),
    'R1': ('', 'R', 1, _file('R1.SIF', lean(16, 1))),
    'xR1': ('x', 'R', 1, _file('xR1.SIU', lean(17, 1), 'U')),
    'G1': ('', 'G', 1, _file('G1.SIF', _g(1, 18))),
    'x_2_G1': ('x_2_', 'G', 1, _file('x_2_G1.SIF', _g(1, 19))),
    'L1': ('', 'L', 1, _file('L1.FEM', lean(20, 1))),
    'R10': ('', 'R', 10, _hier('', 'two_level', 'F', [(1, 'R1H2'),
                                                     (3, 'R1H4')])),
    'yR10': ('y', 'R', 10, _hier('y', 'two_same', 'U', [(2, 'R3H3')])),
    'T10': ('', 'T', 10, lambda d: hier.write(
        d, hier.SHAPES['two_level'], 'T', 'F')),
    'bad': ('', 'T', 3, _bad),
}


def op(src, prefix='', use=True, append=True):
    return [src, prefix, use, append]


POOL = [op('T1'), op('T1b'), op('xT1'), op('xT1', use=False), op('T2'),
        op('R1'), op('G1', 'x_2_'), op('x_2_G1'), op('R10'),
        op('T1', append=False), op('R10', append=False), op('bad'),
        op('T1', 'x'), op('xT1', 'x'), op('x_2_G1', use=False),
        op('yR10', 'y', False), op('yR10'), op('R10', 'y'), op('T10'),
        op('xR1', 'q_', False, False), op('L1'),
        # thorough
        op('T12'), op('xT1', 'x', False), op('T2', 'x'), op('xR1'),
        op('R1', 'x'), op('T1b', 'x'), op('T1b', append=False),
        op('xT1', append=False), op('G1'), op('T10', 'x'), op('L1', 'x'),
        op('T12', append=False), op('T2', 'pre_')]
SMALL = [op('T1'), op('T1b', 'x'), op('xT1'), op('R10'), op('yR10', use=False),
         op('bad'), op('G1', append=False), op('R10', 'a', append=False),
         op('xT1', use=False)]
REACH = [op('T1'), op('T1b'), op('xT1'), op('xT1', use=False), op('T1', 'x'),
         op('R10'), op('yR10', use=False), op('T10'), op('T10', 'z'),
         op('bad'), op('xT1', 'x', False),
         op('R1'), op('xR1', use=False), op('xR1'), op('G1'),
         op('x_2_G1', use=False), op('x_2_G1'), op('T2')]
REACH_PARTS = [range(6), range(5, 11), (0, 2, 4, 11, 12, 13), range(12, 18)]
LISTED = ['T1', 'xT1', 'T1b', 'R1', 'bad']
REF = {}
FILES = {}
ROOT = []


def ref(env, src):
    """({relative group: content}, path) of a source"""
    if src not in REF:
        pre, letter, no, w = SRC[src]
        d = env.path()
        path = w(d)
        FILES[src] = path
        if src == 'bad':
            REF[src] = None
            return None
        dst = os.path.join(env.path(), 'ref.h5')
        try:
            convert(env, path, dst)
        except Exception as e:
            raise Violation('conversion of %s failed: %s: %s' % (
                src, type(e).__name__, e))
        c = h5.file_content(dst)
        top = '/%s%s%d' % (pre, letter, no)
        out = {}
        for g, x in c.items():
            if g == '/':
                continue
            if g != top and not g.startswith(top + '/'):
                raise Violation('%s was stored as %s, expected %s' % (
                    src, g, top))
            out[g[len(top):]] = x
        REF[src] = out
    return REF[src]


def apply(model, o):
    """(new model, must fail)"""
    src, prefix, use, append = o
    pre, letter, no, w = SRC[src]
    name = prefix + (pre if use else '') + letter + str(no)
    m = dict(model) if append else {}
    if src == 'bad' or name in m:
        return m, True
    m[name] = src
    return m, False


def expected(env, model):
    out = {}
    for name, src in model.items():
        for rel, x in ref(env, src).items():
            out['/' + name + rel] = x
    return out


def check_target(env, target, model, what):
    c = h5.file_content(target)
    c.pop('/', None)
    d = h5.diff_content(expected(env, model), c)
    if d:
        raise Violation('%s: the target should hold %s: %s' % (
            what, model, d))
    env.state(sorted((g, sorted(x.items())) for g, x in c.items()))


def perform(env, o, target, model, what):
    src, prefix, use, append = o
    ref(env, src)
    m, fails = apply(model, o)
    try:
        r = convert(env, FILES[src], target, append=append, prefix=prefix,
                    usefileprefix=use)
    except Exception as e:
        if not fails:
            raise Violation('%s failed: %s: %s' % (what, type(e).__name__, e))
        env.outcome('refused')
    else:
        if fails:
            raise Violation('%s: there is no error' % what)
        if r is not None and os.path.realpath(r) != os.path.realpath(target):
            raise Violation('%s returned %r, wrote %r' % (what, r, target))
        env.outcome('stored')
    check_target(env, target, m, what)
    return m


def scenarios(tier):
    for part in REACH_PARTS if tier == 'quick' else [range(len(REACH))]:
        yield {'kind': 'reach', 'pool': list(part)}
    if tier == 'quick':
        specs = [('POOL', 34, 2), ('POOL', 12, 3), ('SMALL', 5, 4)]
    else:
        specs = [('POOL', 34, 3), ('POOL', 21, 4), ('SMALL', 9, 5)]
    for pool, n, depth in specs:
        for i in range(n):
            for j in range(n) if depth > 2 else [None]:
                yield {'kind': 'tree', 'pool': pool, 'n': n, 'depth': depth,
                       'first': [i] if j is None else [i, j]}
    m = 3 if tier == 'quick' else 4
    for first in LISTED:
        for target in (None, 'new', 'existing'):
            for append in (False, True):
                yield {'kind': 'list', 'first': first, 'target': target,
                       'append': append, 'max': m, 'tier': tier}


def run(p, env):
    if p['kind'] == 'tree':
        pool = {'POOL': POOL, 'SMALL': SMALL}[p['pool']][:p['n']]
        d = env.path()
        t = os.path.join(d, 't0.h5')
        model = {}
        hist = []
        for n in p['first']:
            hist.append(pool[n])
            model = perform(env, pool[n], t, model, 'sequence %s' % hist)
        tree(env, pool, p['depth'] - len(hist), t, model, hist)
    elif p['kind'] == 'reach':
        reach(env, [REACH[i] for i in p['pool']])
    else:
        lists(p, env)


def tree(env, pool, depth, t, model, hist):
    if depth == 0:
        env.trace()
        return
    for o in pool:
        t2 = t + 'x'
        shutil.copyfile(t, t2)
        h = hist + [o]
        m = perform(env, o, t2, model, 'sequence %s' % h)
        tree(env, pool, depth - 1, t2, m, h)
        os.remove(t2)


def reach(env, pool):
    """all states of the target under the pool"""
    d = env.path()
    start = os.path.join(d, 's0.h5')
    fs().sif2hdf5(SRC['L1'][3](env.path()), start)
    ref(env, 'L1')
    seen = {(('L1', 'L1'),): start}
    todo = list(seen)
    while todo:
        key = todo.pop(0)
        for o in pool:
            t = os.path.join(d, 'n.h5')
            shutil.copyfile(seen[key], t)
            m = perform(env, o, t, dict(key), 'from %s: %s' % (dict(key), o))
            k = tuple(sorted(m.items()))
            if k not in seen:
                seen[k] = os.path.join(d, 's%d.h5' % len(seen))
                os.rename(t, seen[k])
                todo.append(k)
        env.trace()
        os.remove(seen[key])


def lists(p, env):
    """several names in one call"""
    base = env.path()
    for src in LISTED + ['L1']:
        ref(env, src)
    for n in range(p['max']):
        for rest in itertools.product(LISTED, repeat=n):
            srcs = (p['first'],) + rest
            k = len(srcs)
            prefixes = [('', [''] * k), ('q_', ['q_'] * k),
                        (['a', 'b', 'c', 'd'][:k], 'abcd'),
                        (('x', '', 'x', '')[:k], ('x', '', 'x', '')),
                        (['', 'p', '', 'p'][:k], ['', 'p', '', 'p'])]
            if p['tier'] == 'quick' and n == 2:
                prefixes = [prefixes[0], prefixes[3]]
            for form, pre in prefixes:
                for use in (True, False):
                    for typ in (list, tuple):
                        if typ is tuple and (use or n > 1):
                            continue
                        one_list(env, base, p, typ, srcs, form, pre, use)


def one_list(env, base, p, typ, srcs, form, pre, use):
    d = os.path.join(base, 'w')
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    os.chdir(d)
    what = 'sif2hdf5(%s, target=%s, append=%s, prefix=%r, usefileprefix=%s)' \
        % (typ(srcs), p['target'], p['append'], form, use)
    target = os.path.join(d, 'out.h5') if p['target'] else None
    model = {}
    if p['target'] == 'existing':
        convert(env, FILES['L1'], target)
        model = {'L1': 'L1'}
    fails = False
    models = {}
    if p['target'] is None and p['append']:
        fails = True
    else:
        for k, s in enumerate(srcs):
            if target:
                app = p['append'] or k > 0
                name = target
            else:
                app = False
                name = os.path.join(d, os.path.basename(FILES[s])[:-3] + 'h5')
                model = {}
            model, fails = apply(model, [s, pre[k], use, app])
            models[name] = model
            if fails:
                break
    try:
        convert(env, typ(FILES[s] for s in srcs), target, append=p['append'],
                prefix=form, usefileprefix=use)
    except Exception as e:
        if not fails:
            raise Violation('%s failed: %s: %s' % (what, type(e).__name__, e))
        env.outcome('list refused')
    else:
        if fails:
            raise Violation('%s: there is no error' % what)
        env.outcome('list stored')
    have = sorted(os.path.join(d, f) for f in os.listdir(d))
    if not fails and have != sorted(models):
        raise Violation('%s wrote %s, expected %s' % (what, have,
                                                      sorted(models)))
    for name, m in models.items():
        if os.path.exists(name) or m:
            check_target(env, name, m, what)
    env.trace()

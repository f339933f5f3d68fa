"""C12: set and kind selections return exactly the selected elements.

Space: (a) a model with one set per non-empty subset of its elements: all
single sets, pairs and triples, with all kinds; (b) all arrangements of the
member records of overlapping element and node sets (partitions into records,
orders, interleavings, repeated members, order of the name records); (c) a
product of set names, forms of the argument, and unknown names and kinds.
"""
import itertools

from . import mesh
from .common import fs
from .core import Violation

PROPERTY = 'C12'
BOUNDS = {
    'quick': {'subsets': '5 elements (beam, quad, spring, triangle, curved '
              'beam), one set for each of 31 subsets; all ordered pairs and '
              'all triples of a 10 set sublattice, x 3 kinds',
              'records': 'all arrangements of 5 member records of two '
              'overlapping element sets and a node set, x partitions with '
              'repeated members, x 2 orders of the names',
              'names': '16 names x 6 forms x 3 kinds, 14 unknown',
              'sizes': '64, 150, 300 elements, 103 sets with up to 150 member '
              'records, queries of up to 300 names; 3 orders'},
    'thorough': {'subsets': '6 elements (with a thick shell), 63 subsets, '
                 'all ordered pairs, all triples of 31 sets, x 3 kinds',
                 'records': 'all arrangements of 6 member records',
                 'names': 'as quick', 'sizes': 'as quick'},
}
RULE = ('state = distinct selection (set of elements, kind); transition = one '
        'query')
ASSUMPTIONS = ['element numbers are 1..n in record order; set names are '
               'ASCII; set names and set references are unique']

NODES = mesh.points(9)
ELEMS = [(40, 15, [1, 2]), (7, 24, [2, 3, 4, 5]), (99, 18, [6]),
         (3, 25, [7, 5, 1]), (58, 23, [8, 9, 2]), (21, 26,
                                                  [3, 6, 9, 1, 4, 7])]


def subset_model(n):
    sets = []
    for k in range(1, 2 ** n):
        m = [i + 1 for i in range(n) if k >> i & 1]
        if k % 3 == 1:
            m = m[::-1]
        lists = [m] if k % 2 else [m[1:], m[:1]] if len(m) > 1 else [m]
        sets.append(('s%d' % k, 100 + (k * 37) % 71, lists,
                     [[1, 2]] if k % 4 == 0 else []))
    return mesh.Model(NODES, ELEMS[:n], sets)


KINDS = (None, 'beam', 'shell')


def empty_ok(fn):
    """result, or 'empty' if the query says so by failing"""
    try:
        return fn()
    except Exception:
        return None


def query(env, d, m, sets, kind, want, what):
    """all queries of elements must give `want` (indices)"""
    env.step(3)
    ext = [m.elems[i][0] for i in want]
    typ = [m.elems[i][1] for i in want]
    for name, fn, exp in (
            ('external element numbers',
             lambda: d.get_elementnumbers(sets, kind), ext),
            ('internal element numbers',
             lambda: d.get_elementnumbers(sets, kind, 'internal'),
             [i + 1 for i in want]),
            ('elements', lambda: d.get_elements(sets, kind)[2], typ)):
        try:
            got = [int(x) for x in fn()]
        except Exception as e:
            if not want:
                continue
            raise Violation('%s: %s of sets=%r kind=%r: %s: %s' % (
                what, name, sets, kind, type(e).__name__, e))
        if got != exp:
            raise Violation('%s: %s of sets=%r kind=%r are %s, expected %s' % (
                what, name, sets, kind, got, exp))
    env.state((sorted(want), kind))


def scenarios(tier):
    n = 5 if tier == 'quick' else 6
    for k in range(16):
        yield {'kind': 'subsets', 'n': n, 'part': k, 'of': 16,
               'tri': list(range(1, 32, 3)) if tier == 'quick' else
               list(range(1, 64, 2))}
    for part in range(16):
        yield {'kind': 'records', 'part': part, 'of': 16,
               'n': 5 if tier == 'quick' else 6}
    for fmt in 'FU':
        yield {'kind': 'names', 'fmt': fmt}
    for n in (64, 150, 300):
        for order in range(3):
            yield {'kind': 'many', 'n': n, 'order': order}


def run(p, env):
    globals()['run_' + p['kind']](p, env)


def run_subsets(p, env):
    m = subset_model(p['n'])
    f, d = m.open(env)
    names = [s[0] for s in m.sets]
    combos = [(a,) for a in names] + list(itertools.product(names, repeat=2))
    tri = ['s%d' % k for k in p['tri']]
    combos += list(itertools.combinations(tri, 3))
    for c in combos[p['part']::p['of']]:
        for kind in KINDS:
            query(env, d, m, list(c), kind, m.select(list(c), kind),
                  'model with all subsets')
    env.outcome('subsets')
    for kind in KINDS:
        for s in (None, [], ()):
            query(env, d, m, s, kind, m.select(None, kind), 'no sets')
    f.close()
    env.trace()


def partitions(seq):
    """all ways of cutting seq into consecutive non-empty pieces"""
    n = len(seq)
    for k in range(2 ** (n - 1)):
        out, cur = [], [seq[0]]
        for i in range(1, n):
            if k >> (i - 1) & 1:
                out.append(cur)
                cur = []
            cur.append(seq[i])
        yield out + [cur]


def arrangements(n):
    """[(order of name records, member records)]"""
    # set 5 'P' and set 2 'Q' of elements, node members of 5, set 9 of nodes
    for pp in ([[4, 1, 3]], [[1, 3], [4]], [[3], [1, 3, 4]], [[1], [4], [3]],
               [[4, 4, 1, 3, 1]], [[4], [4, 3, 1]]):
        for qq in ([[3, 2]], [[2], [3]]):
            for extra in ([(5, 1, [2, 5])], [(9, 1, [1, 4])],
                          [(5, 1, [2]), (9, 1, [2])]):
                recs = [(5, 2, x) for x in pp] + [(2, 2, x) for x in qq] + \
                    extra
                if len(recs) != n and not (n == 5 and len(recs) < 5):
                    continue
                for perm in itertools.permutations(range(len(recs))):
                    yield [recs[i] for i in perm]


def run_records(p, env):
    allarr = list(arrangements(p['n']))
    for k in range(p['part'], len(allarr), p['of']):
        recs = allarr[k]
        names = [('P', 5), ('Q', 2), ('N', 9)]
        if k % 2:
            names.reverse()
        idx = {}
        memb = []
        for isref, istype, m in recs:
            idx[isref] = idx.get(isref, 0) + 1
            memb.append(mesh.gsetmemb(isref, idx[isref], istype, m))
        tds = [mesh.tdsetnam(n, i) for n, i in names]
        srecs = tds + memb if k % 3 else memb + tds
        model = mesh.Model(NODES, ELEMS[:5], [
            ('P', 5, [m for i, t, m in recs if i == 5 and t == 2], []),
            ('Q', 2, [m for i, t, m in recs if i == 2 and t == 2], []),
            ('N', 9, [], [])])
        model.set_recs = srecs
        f, d = model.open(env)
        what = 'member records %s' % (recs,)
        for sets in (['P'], ['Q'], ['P', 'Q'], ['Q', 'P'], ['P', 'P']):
            for kind in KINDS:
                query(env, d, model, sets, kind, model.select(sets, kind),
                      what)
        query(env, d, model, 'N', None, [], what)
        for sets in ('P', ['P', 'Q']):
            want = model.node_rows(sets)
            got = [int(x) for x in d.get_nodenumbers(
                sets, numbertype='internal')]
            if got != [i + 1 for i in want]:
                raise Violation('%s: node numbers of %s are %s' % (
                    what, sets, got))
        got = [bytes(x).decode() for x in d.get_setnames()]
        if got != [n for n, _ in names]:
            raise Violation('%s: set names are %s' % (what, got))
        f.close()
        env.trace()
    env.outcome('records')


def run_many(p, env):
    """many elements, sets, member records, and names in one query"""
    n = p['n']
    types = [15, 24, 18, 25, 23]
    npts = 90
    pts = [(1000 - 3 * i, (float(i), 2. * i, -1. * i)) for i in range(npts)]
    elems = []
    for i in range(n):
        t = types[(i * i + i // 7) % 5]
        elems.append((5000 + (i * 7) % 1009, t,
                      [1 + (i + 11 * k) % npts for k in range(mesh.NN[t])]))
    # A: one member per record; B: three; C: all in one record; S..: small
    a = [1 + (i * 3) % n for i in range(0, n, 2)]
    b = [1 + (i * 5 + 1) % n for i in range(0, n, 3)]
    sets = [('A', 900, [[x] for x in a], []),
            ('B', 3, [b[i:i+3] for i in range(0, len(b), 3)], []),
            ('C', 70, [list(range(n, 0, -1))], [])]
    for k in range(100):
        sets.append(('S%d' % k, 100 + (k * 37) % 101,
                     [[1 + (k * 13) % n], [1 + (k * 29 + 7) % n]], []))
    m = mesh.Model(pts, elems, sets)
    recs = m.gset()
    names = [r for r in recs if r.name == 'TDSETNAM']
    memb = [r for r in recs if r.name != 'TDSETNAM']
    if p['order'] == 1:          # records of all sets interleaved
        memb = memb[::3] + memb[1::3] + memb[2::3]
    elif p['order'] == 2:
        memb = memb[::-1]
        names = names[::-1]
    m.set_recs = names + memb
    f, d = m.open(env, 'FU'[n % 2])
    small = ['S%d' % k for k in range(100)]
    for s in (['A'], ['B'], ['C'], ['A', 'B'], small, small[::-1], small[:64],
              small[:65], small[1:67], small + ['A'], ['B'] + small,
              ['A'] * 70, ['A', 'C'] * 40, small * 3, ['S99'], ['S0']):
        for form in (list, tuple):
            for kind in KINDS:
                query(env, d, m, form(s), kind, m.select(s, kind),
                      '%d elements' % n)
        want = m.node_rows(s)
        got = [int(x) for x in d.get_nodenumbers(s, numbertype='internal')]
        if got != [i + 1 for i in want]:
            raise Violation('%d elements: node numbers of %s are %s' % (
                n, s, got))
    for kind in KINDS:
        query(env, d, m, None, kind, m.select(None, kind), 'no sets')
    unknown(env, d, small + ['S100'], None)
    f.close()
    env.trace()
    env.outcome('many')


NAMES = ['A', 'a', 'AB', 'B', "it's", 'say"so', 'back\\slash', '1', 'x y',
         'a&b', '(A)|(a)', "b'A'", 'name', '%s', 'A.1-2_z', 'N' * 40]
UNKNOWN = ['', 'ab', 'C', "b'B'", 'A ', ' A', 'AA', 'x', 'N' * 39, '\\', '"',
           "'", 'None', '*']


def run_names(p, env):
    n = len(ELEMS)
    sets = []
    for k, name in enumerate(NAMES):
        bits = [(k * 5 + 3) >> i & 1 for i in range(n)]
        m = [i + 1 for i in range(n) if bits[i]] or [k % n + 1]
        sets.append((name, 200 - 3 * k, [m], []))
    m = mesh.Model(NODES, ELEMS, sets)
    f, d = m.open(env, p['fmt'])
    got = [bytes(x).decode() for x in d.get_setnames()]
    if got != NAMES:
        raise Violation('set names are %s, expected %s' % (got, NAMES))
    stored = dict(zip(NAMES, d.get_setnames()))
    for i, name in enumerate(NAMES):
        two = [name, NAMES[(i + 3) % len(NAMES)]]
        for form in (name, name.encode(), [name], (name,), stored[name],
                     [stored[name]]):
            for kind in KINDS:
                query(env, d, m, form, kind, m.select(name, kind), 'names')
        for form in (two, tuple(two), [two[0].encode(), two[1]]):
            for kind in KINDS:
                query(env, d, m, form, kind, m.select(two, kind), 'names')
    for u in UNKNOWN:
        for form in ([u], (u.encode(),), ['A', u], [u, 'A']) + (
                (u,) if u else ()):
            for kind in KINDS:
                unknown(env, d, form, kind)
    for kind in ('Beam', 'beams', 'plate', 'b', 'shell ', 'SHELL', 15, True):
        for s in (None, 'A', ['A', 'B']):
            unknown(env, d, s, kind)
    f.close()
    # no sets at all
    m = mesh.Model(NODES, ELEMS, [])
    f, d = m.open(env, p['fmt'])
    if d.get_setnames() is not None:
        raise Violation('set names without sets: %r' % d.get_setnames())
    for kind in KINDS:
        unknown(env, d, 'A', kind)
        query(env, d, m, None, kind, m.select(None, kind), 'no sets')
    f.close()
    env.outcome('names')
    env.trace()


def unknown(env, d, sets, kind):
    env.step()
    for name, fn in (
            ('get_elements', lambda: d.get_elements(sets, kind)),
            ('get_elementnumbers', lambda: d.get_elementnumbers(sets, kind)),
            ('get_nodes', lambda: d.get_nodes(sets, kind)),
            ('get_nodenumbers', lambda: d.get_nodenumbers(sets, kind))):
        try:
            r = fn()
        except Exception:
            continue
        raise Violation('%s of unknown sets=%r kind=%r gives %r' % (
            name, sets, kind, r))

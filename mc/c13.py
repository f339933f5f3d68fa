"""C13: nodes, elements and numbers of one selection fit together.

Space: all models with up to k elements out of a set of element templates
(every supported element type, with different overlapping node lists), with a
set for every non-empty subset of the elements and one node set; on each, all
selections (no set, every set, pairs of sets) x kind x disconnected, and for
each selection all arrays (nodes, node numbers, elements, element numbers).
One model is large (numbers of elements, nodes and connectivity, and external
numbers beyond 16 bits).
"""
import itertools

import numpy as np

from . import mesh
from .core import Violation

PROPERTY = 'C13'
BOUNDS = {
    'quick': {'models': 'all sequences of 1 and 2 elements out of 26 templates (8 '
              'types and more), all of 3 out of 7 templates',
              'selections': 'none, all subsets, pairs of single sets; x 3 '
              'kinds x disconnected', 'formats': 'both (alternating)',
              'large model': '33500 elements, 33300 nodes, external numbers '
              'up to 16.7 million, 11 selections'},
    'thorough': {'models': 'all sequences of 2 out of 26 templates, of 3 out of '
                 '13, of 4 out of 5', 'selections': 'as quick',
                 'formats': 'as quick', 'large model': 'as quick, with all '
                 'kinds x disconnected'},
}
RULE = ('state = distinct (element types, connectivity pattern) of a '
        'selection; transition = one query')
ASSUMPTIONS = ['internal element and node numbers are 1..n in record order',
               'empty selections are not compared']

POOL = 12
PTS = mesh.points(POOL, 2)
# interesting templates first: beams, shells, other; sharing nodes
BASE = [(15, 0), (24, 1), (18, 2), (25, 0), (23, 2), (28, 0), (26, 1)]
ALL = BASE + [(t, v) for t in sorted(mesh.NN) for v in (0, 1, 2, 3)
              if (t, v) not in BASE]
KINDS = (None, 'beam', 'shell')


def nodes(t, v):
    n = mesh.NN[t]
    if v == 2:
        # stride coprime with the number of nodes
        return [1 + (5 * i + 3) % POOL for i in range(n)]
    if v == 3:
        return [1 + (7 * i + 6) % POOL for i in range(n)]
    return mesh.nodes_for(t, v, POOL)


def model(seq):
    elems = [(50 + (13 * i + t) % 37 + 40 * i, t, nodes(t, v))
             for i, (t, v) in enumerate(seq)]
    n = len(elems)
    sets = []
    for k in range(1, 2 ** n):
        m = [i + 1 for i in range(n) if k >> i & 1][::-1]
        sets.append(('S%d' % k, 30 - k, [[x] for x in m] if k % 2 else [m],
                     [[1, 3]] if k == 1 else []))
    sets.append(('nodes', 77, [], [[1, 2]]))
    return mesh.Model(PTS, elems, sets)


def sequences(tier):
    two = ALL[:26]
    for s in two:
        yield [s]
    for s in itertools.product(two, repeat=2):
        yield list(s)
    for s in itertools.product(ALL[:13] if tier == 'thorough' else BASE,
                               repeat=3):
        yield list(s)
    if tier == 'thorough':
        for s in itertools.product(BASE[:5], repeat=4):
            yield list(s)


def scenarios(tier):
    for k in range(4):
        yield {'big': k, 'tier': tier}
    block = []
    for s in sequences(tier):
        block.append(s)
        if len(block) == 16:
            yield {'models': block}
            block = []
    if block:
        yield {'models': block}


def check_selection(env, d, m, sets, kind, disc, what):
    w = '%s: sets=%r kind=%r disconnected=%r' % (what, sets, kind, disc)

    def get(name, *args):
        env.step()
        try:
            return getattr(d, name)(*args)
        except Exception as e:
            raise Violation('%s: %s%r: %s: %s' % (
                w, name, args, type(e).__name__, e))

    idx = m.select(sets, kind)
    if not idx and (sets or kind or disc):
        return
    rows = m.node_rows(sets, kind, disc)
    xyz = np.asarray(get('get_nodes', sets, kind, disc))
    want = np.array([m.nodes[r][1] for r in rows])
    if xyz.shape != want.shape or not np.array_equal(xyz, want):
        raise Violation('%s: nodes are %.900s, expected %.900s' % (
            w, xyz.tolist(), want.tolist()))
    for numtype, exp in (('external', [m.nodes[r][0] for r in rows]),
                         ('internal', [r + 1 for r in rows])):
        got = [int(x) for x in get('get_nodenumbers', sets, kind, disc,
                                   numtype)]
        if got != exp:
            raise Violation('%s: %s node numbers are %.900s, expected %.900s' % (
                w, numtype, got, exp))
    con, off, typ = get('get_elements', sets, kind, disc)
    con, off, typ = [[int(x) for x in a] for a in (con, off, typ)]
    if (con, off, typ) != m.mesh(sets, kind, disc):
        raise Violation('%s: elements are %.900s, expected %.900s' % (
            w, (con, off, typ), m.mesh(sets, kind, disc)))
    for numtype, exp in (('external', [m.elems[i][0] for i in idx]),
                         ('internal', [i + 1 for i in idx])):
        got = [int(x) for x in get('get_elementnumbers', sets, kind, numtype)]
        if got != exp:
            raise Violation('%s: %s element numbers are %.900s, expected %.900s' % (
                w, numtype, got, exp))
    # the arrays describe the elements of the file, whatever the oracle says
    start = 0
    for k, i in enumerate(idx):
        own = [m.nodes[n - 1][1] for n in m.elems[i][2]]
        if [tuple(xyz[j]) for j in con[start:off[k]]] != own:
            raise Violation('%s: element %d has wrong nodes' % (w, k))
        start = off[k]
    if start != len(con) or len(off) != len(typ) or len(off) != len(idx):
        raise Violation('%s: offsets %.900s do not match' % (w, off))
    if disc and sorted(con) != list(range(len(xyz))):
        raise Violation('%s: elements share nodes: %.900s' % (w, con))
    env.state((tuple(typ), tuple(con)))


def big_model():
    pts = [(16700000 - 3 * i, (float(i % 1013), .5 * (i % 1019), i / 4.))
           for i in range(33300)]
    types = [15, 24, 18, 25, 15, 23, 28]
    elems = []
    for i in range(33500):
        t = types[i % 7]
        # (coprime to the number of nodes)
        elems.append((16600000 - 7 * i + i % 5, t, [
            1 + (i * 17 + 1009 * j) % 33300 for j in range(mesh.NN[t])]))
    every = list(range(1, 33501))
    half = [x for x in every if x % 3][::-1]
    return mesh.Model(pts, elems, [
        ('all', 1000000, [every[k:k+1000] for k in range(0, 33500, 1000)], []),
        ('half', 7, [half[k:k+900] for k in range(0, len(half), 900)], []),
        ('last', 70000, [[33500, 33499]], [])])


BIG = [(None, None, False), (None, None, True), ('half', None, False),
       ('all', 'shell', False), ('all', 'beam', True), ('last', None, False),
       (None, 'beam', False), (None, 'shell', True), ('half', 'shell', False),
       (['last', 'half'], None, True), ('last', 'shell', True)]


def run_big(p, env):
    m = big_model()
    f, d = m.open(env, 'U')
    sels = BIG if p['tier'] == 'quick' else itertools.product(
        (None, 'all', 'half', 'last', ['half', 'last']), KINDS, (False, True))
    for sets, kind, disc in list(sels)[p['big']::4]:
        check_selection(env, d, m, sets, kind, disc, 'large model')
    f.close()
    env.trace()
    env.outcome('large')


def run(p, env):
    if 'big' in p:
        return run_big(p, env)
    for k, seq in enumerate(p['models']):
        m = model([tuple(s) for s in seq])
        f, d = m.open(env, 'FU'[k % 2])
        what = 'elements %s' % (seq,)
        n = len(seq)
        sels = [None] + [s[0] for s in m.sets[:-1]]
        if n > 1:
            sels += [['S1', 'S2'], ['S2', 'S1', 'S3'], ['nodes', 'S2']]
        for sets in sels:
            for kind in KINDS:
                for disc in (False, True):
                    check_selection(env, d, m, sets, kind, disc, what)
        f.close()
        env.trace()
        env.outcome(tuple(sorted(t for t, _ in seq)))

"""C16: element and load case attributes belong to the right element or case.

Space: (a) all sequences of up to k elements with all assignments of property
references, all orders of the property records and several numberings, x set
selections; (b) all sequences of load names (numbers in any order) x selected
cases; all sequences of set names.
"""
import itertools

import numpy as np

from . import mesh
from .core import Violation
from .sesam import Rec

PROPERTY = 'C16'
BOUNDS = {
    'quick': {'properties': 'all sequences of <=4 elements out of beam, '
              'curved beam, spring, quad, thick shell; all assignments of 3 '
              'properties per kind (2 for 4 elements), all orders of the '
              'property records, 3 numberings, 6 set selections',
              'names': 'all orders of <=3 load records out of 7 number/name '
              'pairs, all subsets of numbers requested, 5 forms',
              'sizes': '260, 1100 and 3000 elements, properties, load cases '
              'and sets with large numbers'},
    'thorough': {'properties': 'as quick with 3 properties for 4 elements, '
                 'all numberings', 'names': 'all orders of <=4 load records'},
}
RULE = ('state = distinct sequence of properties or names; transition = one '
        'query')
ASSUMPTIONS = ['elements refer to one property record (not one per node); '
               'GELREF1 records are in element order; numbers are unique']

PTS = mesh.points(12, 5)
TYPES = (15, 24, 18, 23, 28)
# three numberings of properties: (beams, shells)
NUMBERS = [((1, 2, 3), (4, 5, 6)), ((30, 7, 12), (9, 31, 2)),
           ((5, 1000, 4), (6, 3, 999))]
BEAMG = ('geono', 'void', 'area', 'ix', 'iy', 'iz', 'iyz', 'wxmin', 'wymin',
         'wzmin', 'shary', 'sharz', 'shceny', 'shcenz', 'sy', 'sz')


def gbeamg(no):
    v = [0.] + [no * 32 + k + .5 for k in range(14)]
    return Rec('GBEAMG', 'I', [no] + v[:3], [v[3:]], row={})


def gbeamg_row(no):
    return [float(no), 0.] + [no * 32 + k + .5 for k in range(14)]


def th(no):
    return no / 8. + .0625


def gelth(no):
    return Rec('GELTH', 'I', [no, th(no), 0, 0], row={})


def kindof(t):
    return 'beam' if t in mesh.BEAM else 'shell' if t in mesh.SHELL else None


def model(types, assign, order, numbers, other=0):
    """assign: property index of each element; order: of property records"""
    beams, shells = numbers
    elems, refs = [], []
    for i, t in enumerate(types):
        n = mesh.NN[t]
        elems.append((300 - 7 * i, t, [1 + (5 * j + i) % 12
                                       for j in range(n)]))
        refs.append(mesh.elref(i + 1, shells[assign[i]] if kindof(t) == 'shell'
                               else beams[assign[i]], other, n))
    n = len(elems)
    sets = [('first', 4, [[1]], []), ('last', 2, [[n]], []),
            ('rev', 3, [[i] for i in range(n, 0, -1)], []),
            ('odd', 7, [list(range(1, n + 1, 2))], [])]
    m = mesh.Model(PTS, elems, sets)
    props = [gbeamg(beams[k]) for k in order] + \
        [gelth(shells[k]) for k in order]
    m.extra = props + refs if sum(order[:1]) % 2 else refs + props
    return m


SETS = (None, 'first', 'last', 'rev', ['odd', 'last'], 'odd')


def scenarios(tier):
    block = []
    for n in (1, 2, 3, 4):
        for types in itertools.product(TYPES, repeat=n):
            if n == 4 and tier == 'quick' and len(set(types)) < 3:
                continue
            block.append(list(types))
            if len(block) == (8 if n < 4 else 4):
                yield {'kind': 'props', 'block': block, 'tier': tier}
                block = []
    if block:
        yield {'kind': 'props', 'block': block, 'tier': tier}
    for n in (260, 1100, 3000):
        yield {'kind': 'many', 'n': n}
    for k in range(7):
        yield {'kind': 'loads', 'first': k, 'n': 3 if tier == 'quick' else 4}


def run(p, env):
    globals()['run_' + p['kind']](p, env)


def run_props(p, env):
    k = 0
    for types in p['block']:
        n = len(types)
        nprop = 3 if n < 4 or p['tier'] == 'thorough' else 2
        orders = list(itertools.permutations(range(nprop)))
        if n > 2 and p['tier'] == 'quick':
            # every assignment with some order, every order with some
            combos = [(a, orders[i % len(orders)], NUMBERS[i % 3])
                      for i, a in enumerate(itertools.product(
                          range(nprop), repeat=n))]
            if n == 4:
                combos = combos[sum(map(ord, str(types))) % 4::4]
        else:
            combos = itertools.product(
                itertools.product(range(nprop), repeat=n), orders, NUMBERS)
        for assign, order, numbers in combos:
            k += 1
            m = model(types, assign, order, numbers, k % 4)
            f, d = m.open(env, 'FU'[k % 2])
            what = 'elements %s with properties %s of %s (order %s)' % (
                types, assign, numbers, order)
            for sets in SETS:
                check_props(env, d, m, types, assign, numbers, sets, what)
            f.close()
            env.clean()
            env.trace()
    env.outcome('properties')


def check_props(env, d, m, types, assign, numbers, sets, what):
    for kind, meth in (('beam', 'get_section_properties'),
                       ('shell', 'get_shell_thicknesses')):
        idx = m.select(sets, kind)
        w = '%s: %s(%r)' % (what, meth, sets)
        env.step()
        try:
            got = getattr(d, meth)(sets)
        except Exception as e:
            if not idx:
                continue
            raise Violation('%s: %s: %s' % (w, type(e).__name__, e))
        if kind == 'beam':
            got = [[float(r[c]) for c in BEAMG] for r in got]
            exp = [gbeamg_row(numbers[0][assign[i]]) for i in idx]
        else:
            got = [float(x) for x in got]
            exp = [th(numbers[1][assign[i]]) for i in idx]
        if got != exp:
            raise Violation('%s: %s, expected %s' % (w, got, exp))
        env.state((kind, tuple(map(str, exp))))


LOADS = [(1, 'Dead'), (2, ''), (7, 'Dead'), (3, 'load case 3'), (12, 'X' * 60),
         (4, "it's"), (100, '1')]


def run_loads(p, env):
    rest = [k for k in range(len(LOADS)) if k != p['first']]
    for n in range(p['n']):
        for tail in itertools.permutations(rest, n):
            seq = [LOADS[k] for k in (p['first'],) + tail]
            m = mesh.Model(PTS[:2], [(1, 15, [1, 2])],
                           [(nm or 'e', no, [[1]], [])
                            for no, nm in seq if nm != 'Dead'])
            m.extra = [load(no, nm) for no, nm in seq]
            f, d = m.open(env, 'FU'[n % 2])
            what = 'loads %s' % (seq,)
            nums = [no for no, _ in seq] + [55]
            for sub in [None] + [
                    s for k in range(len(nums) + 1)
                    for s in itertools.combinations(nums, k)]:
                forms = [sub]
                if sub is not None:
                    forms = [list(sub), np.array(sub, int), tuple(sub[::-1])]
                    if len(sub) == 1:
                        forms += [sub[0], np.int32(sub[0])]
                exp = dict((no, nm) for no, nm in seq
                           if sub is None or no in sub)
                for form in forms:
                    env.step()
                    try:
                        r = d.get_resultcase_names(form)
                        got = dict((int(k), bytes(v).decode())
                                   for k, v in r.items())
                    except Exception as e:
                        raise Violation('%s: names of %r: %s: %s' % (
                            what, form, type(e).__name__, e))
                    if got != exp:
                        raise Violation('%s: names of %r are %s, expected %s'
                                        % (what, form, got, exp))
                    env.state(sorted(exp.items()))
            got = d.get_setnames()
            want = [s[0] for s in m.sets] or None
            if got is not None:
                got = [bytes(x).decode() for x in got]
            if got != want:
                raise Violation('%s: set names are %s, expected %s' % (
                    what, got, want))
            f.close()
            env.clean()
            env.trace()
    env.outcome('loads')


def load(no, name):
    txt = ['text of %d' % no] if no % 2 else []
    return Rec('TDLOAD', 'D', [4, no, 100 + max(1, len(name)),
                               100 * len(txt) + 12 * len(txt)],
               text=[name] + txt, row={})


def run_many(p, env):
    """many elements, properties, load cases and sets, in mixed orders"""
    n = p['n']
    types = [TYPES[(k * k + k // 5) % 5] for k in range(n)]
    pts = mesh.points(60, 5)
    np_ = n // 3
    # numbers of properties, distinct between the kinds, not sorted
    beams = [(k * 7919) % 10007 * 13 + 2 for k in range(np_)]
    shells = [(k * 104729) % 10007 * 13 + 5 for k in range(np_)]
    assign = [(k * 31 + k // 11) % np_ for k in range(n)]

    def gb(no, k):
        v = [0.] + [k * 16 + j + .5 for j in range(14)]
        return Rec('GBEAMG', 'I', [no] + v[:3], [v[3:]], row={})
    elems, refs = [], []
    for i, t in enumerate(types):
        m = mesh.NN[t]
        elems.append((70000 + (i * 7) % n if n % 7 else 70000 - i, t,
                      [1 + (5 * j + i) % 60 for j in range(m)]))
        refs.append(mesh.elref(i + 1, (shells if kindof(t) == 'shell' else
                                       beams)[assign[i]], 0, m))
    names = ['set %d' % ((k * 7) % 101) for k in range(101)]
    sets = [(nm, 40000 - k, [list(range(1 + k, n + 1, 101))], [])
            for k, nm in enumerate(names)]
    loads = [((k * 7919) % 10007 * 9 + 1, 'load %d' % k) for k in range(np_)]
    m = mesh.Model(pts, elems, sets)
    m.extra = [gb(beams[k], k) for k in range(np_)] + refs + \
        [Rec('GELTH', 'I', [shells[k], k / 8. + .5, 0, 0], row={})
         for k in range(np_)][::-1] + [load(a, b) for a, b in loads]
    f, d = m.open(env, 'U' if n % 200 else 'F')
    for sel in (None, names[5], names[3:90:7], names):
        for kind, meth in (('beam', 'get_section_properties'),
                           ('shell', 'get_shell_thicknesses')):
            env.step()
            idx = m.select(sel, kind)
            got = getattr(d, meth)(sel)
            if kind == 'beam':
                got = [(int(r['geono']), float(r['area'])) for r in got]
                exp = [(beams[assign[i]], assign[i] * 16 + .5) for i in idx]
            else:
                got = [float(x) for x in got]
                exp = [assign[i] / 8. + .5 for i in idx]
            if got != exp:
                j = [k for k in range(max(len(got), len(exp)))
                     if got[k:k+1] != exp[k:k+1]][0]
                raise Violation('%d elements, %s(%s): item %d is %s, expected '
                                '%s' % (n, meth, str(sel)[:60], j,
                                        got[j:j+1], exp[j:j+1]))
    got = [bytes(x).decode() for x in d.get_setnames()]
    if got != names:
        raise Violation('set names are %s' % got)
    every = [a for a, _ in loads]
    for req in (None, every[::3], every[-1], np.array(every[5:200:2]),
                every + [3], [2]):
        env.step()
        got = dict((int(k), bytes(v).decode())
                   for k, v in d.get_resultcase_names(req).items())
        want = every if req is None else np.atleast_1d(req).tolist()
        exp = dict(x for x in loads if x[0] in set(want))
        if got != exp:
            raise Violation('%d loads, names of %s differ' % (
                len(loads), str(req)[:60]))
    f.close()
    env.state(n)
    env.trace()
    env.outcome('many')

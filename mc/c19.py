"""C19: queries are repeatable and do not influence each other.

Space: all sequences of up to k queries (including failing ones) on freshly
opened data sets of four kinds of file, each result scribbled upon before the
next query.  Every result is compared with that of the same query made first
on a fresh data set, the arguments with their original values, and the file
with its original content.
"""
import hashlib

import numpy as np

from . import c15, c16, hier, hydro, mesh, sesam
from .c18 import matrix_recs, wbody
from .common import fs, must_convert, write_file
from .core import Violation

PROPERTY = 'C19'
BOUNDS = {
    'quick': {'sequences': 'all pairs of queries on 5 files (23 to 50 '
              'queries each), each followed by the first one again, and all '
              'triples on 8 to 10 selected queries per file',
              'results': 'overwritten, reshaped, emptied after each query'},
    'thorough': {'sequences': 'all triples of queries', 'results': 'as quick'},
}
RULE = ('state = distinct (query, result); transition = one query')
ASSUMPTIONS = ['queries are made from one thread']


def T():
    return np.array([[0., 1, 0, 0], [-1, 0, 0, 0], [0, 0, 2, 0],
                     [5, 6, 7, 1]], 'f4')


def q(name, *args, **kw):
    return (name, args, kw)


def structural():
    cases = c15.CASES['mix'] + [(1, 3, 0)]
    types = (15, 24, 18, 25, 23)
    m = c15.model(types, cases)
    for k, (run, e, cx) in enumerate(cases):
        for rec in ('RVNODDIS', 'RVNODACC'):
            for n in range(len(m.nodes)):
                m.extra.append(mesh.rvnod(rec, k + 1, n + 1, [
                    float(1000 * k + 10 * n + c) for c in range(6 + 6 * cx)]))
    m.extra += [mesh.elref(i + 1, i + 1) for i in range(len(types))]
    m.extra += [c16.gbeamg(1), c16.gbeamg(5), c16.gelth(4), c16.gelth(2),
                c16.load(2, 'two'), c16.load(1, 'one')]
    qs = [q('get_setnames'), q('get_nodes'), q('get_nodes', 'A'),
          q('get_nodes', None, None, True), q('get_nodes', trans=T()),
          q('get_nodes', ['odd', 'Z'], 'shell', True, T()),
          q('get_nodes', trans='top'), q('get_nodes', 'nix'),
          q('get_nodes', trans=np.ones((3, 3))),
          q('get_nodenumbers'), q('get_nodenumbers', 'odd'),
          q('get_nodenumbers', None, 'beam', True),
          q('get_nodenumbers', numbertype='internal'),
          q('get_nodenumbers', numbertype='x'),
          q('get_elements'), q('get_elements', 'odd'),
          q('get_elements', None, None, True),
          q('get_elements', ['A', 'Z'], 'beam', True),
          q('get_elements', kind='nix'), q('get_elementnumbers'),
          q('get_elementnumbers', 'all', 'shell'),
          q('get_elementnumbers', numbertype='internal'),
          q('get_noderesults', 'displacement', 1, 1),
          q('get_noderesults', 'displacement', 1, [3, 1]),
          q('get_noderesults', 'displacement', 1, 2),
          q('get_noderesults', 'acceleration', 2),
          q('get_noderesults', 'acceleration', 1, 1, 'odd', None, True),
          q('get_noderesults', 'displacement', 1),
          q('get_noderesults', 'velocity'),
          q('get_noderesults', 'displacement', 7),
          q('get_elementresults', 'beamforce', run=2),
          q('get_elementresults', 'beamforce', 'nodes', 1, [1, 3]),
          q('get_elementresults', 'generalstress', 'nodes', 1, 1),
          q('get_elementresults', 'generalstress', 'nodes', 1, [3, 1], 'odd'),
          q('get_elementresults', 'decomposedstress', 'nodes', 1, 2),
          q('get_elementresults', 'decomposedstress', 'nodes', 2),
          q('get_elementresults', 'generalstress'),
          q('get_elementresults', 'stress'),
          q('get_section_properties'), q('get_section_properties', 'Z'),
          q('get_shell_thicknesses'), q('get_shell_thicknesses', ['all']),
          q('get_resultcase_names'), q('get_resultcase_names', [2]),
          q('get_resultcase_names', np.array([1]))]
    return m, qs, [1, 6, 14, 16, 23, 24, 33, 34, 42]


def thick():
    cases = c15.CASES['2c']
    m = c15.model((28, 26, 15, 23), cases)
    qs = []
    for rt in ('generalstress', 'decomposedstress', 'beamforce'):
        for c in (None, 5, [3, 5]):
            for s in (None, 'A', ['Z', 'odd']):
                qs.append(q('get_elementresults', rt, 'nodes', 1, c, s))
    return m, qs, [0, 3, 4, 6, 9, 10, 12, 18, 21]


def hydrodynamic():
    bodies = [(2, 1), (1, 2)]
    have = {(1, 1): (11, 12, 31), (1, 2): (12, 21), (2, 2): (22, 32)}
    h = hydro.Hydro((0., .5), (.25, 1.5, .75), bodies, {1: 2, 2: 1}, 2,
                    {1: ((2, 7), (1, 2))}, extra=[
                        wbody(2, 1)[0], wbody(1, 2)[0]] +
                    matrix_recs(bodies, have, 'type'))
    qs = [q('get_angular_freqs'), q('get_periods'), q('get_directions'),
          q('get_directions', 'radians'), q('get_directions', 'grad'),
          q('get_timesteps'), q('get_sections'), q('get_points'),
          q('get_bodyproperties'), q('get_bodyproperties', 2),
          q('get_bodyproperties', 3), q('get_motion_raos'),
          q('get_motion_raos', 2), q('get_motion_raos', 0),
          q('get_excitationforce_raos'), q('get_excitationforce_raos', 2),
          q('get_sectionforce_raos'), q('get_sectionforce_raos', 2),
          q('get_fluidkinematics_raos'),
          q('get_fluidkinematics_raos', 'pressure'),
          q('get_fluidkinematics_raos', 'velocity'),
          q('get_fluidkinematics_raos', 'nix'), q('get_bodymass'),
          q('get_bodymass', 2, 2), q('get_addedmass'),
          q('get_addedmass', 1, 2), q('get_potentialdamping', 1, 2),
          q('get_viscousdamping', 2, 2), q('get_hydrostatic_restoring'),
          q('get_mooring_restoring', 2, 2), q('get_matrix', 12),
          q('get_matrix', 5), q('get_meandrift'), q('get_meandrift', 2),
          q('get_horiz_meandrift'), q('get_pressure_panel_ids'),
          q('get_pressure_panel_ids', 2), q('get_panel_pressures'),
          q('get_panel_pressures', 2)]
    return h, qs, [0, 1, 3, 11, 17, 18, 20, 24, 37]


def hierarchy():
    qs = []
    for key in ('T100', 'T100/T20', 'T100/T1', 'T100/T2'):
        qs.append(q(key + ':get_setnames'))
    for a in ((1, 1), (1, 2), (2, 1, 2), (1, 1, 1), (1, 1, 4), (9, 1),
              (20, 1, 3)):
        qs.append(q('T100:get_transformation', *a))
    for key in ('T100/T1', 'T100/T2'):
        for kw in ({}, {'trans': 'top'}, {'trans': 'top', 'index': 2},
                   {'trans': 2}, {'trans': 1}, {'trans': 9},
                   {'trans': T()}):
            qs.append(q(key + ':get_nodes', **kw))
    qs.append(q('T100/T1:get_elements'))
    return qs, [0, 4, 6, 7, 11, 12, 13, 17, 18]


FILES = ['struc', 'struc_memory', 'thick', 'hydro', 'hydro_memory', 'hier']


def queries(name):
    if name == 'hier':
        return hierarchy()
    if name.startswith('struc'):
        return structural()[1:]
    if name == 'thick':
        return thick()[1:]
    return hydrodynamic()[1:]


def prepare(env, name):
    """(open function, path to watch)"""
    if name == 'hier':
        src = hier.write(env.path(), hier.SHAPES['three_df'], 'T')
        h5 = must_convert(env, src, env.path('x.h5'))
    else:
        base = name.split('_')[0]
        if base == 'struc':
            src = structural()[0].write(env, 'U')
        elif base == 'thick':
            src = thick()[0].write(env)
        else:
            src = write_file(env.path('G1.SIF'), hydrodynamic()[0].records(),
                             sesam.Layout())
        if name.endswith('memory'):
            def op():
                d = fs().open_sif(src)
                return d.file, d
            return op, src
        h5 = must_convert(env, src, env.path('x.h5'))

    def op():
        f = fs().open_hdf5(h5)
        if name == 'hier':
            return f, f
        return f, list(f)[0]
    return op, h5


def canon(x):
    if isinstance(x, np.ndarray) and x.dtype.names is None:
        return ('array', str(x.dtype), x.shape,
                np.ascontiguousarray(x).tobytes())
    if isinstance(x, np.ndarray):
        return ('rec', str(x.dtype), x.shape, x.tolist().__repr__())
    if isinstance(x, np.generic):
        return ('scalar', repr(x))
    if isinstance(x, dict):
        return ('dict', sorted((repr(k), canon(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [canon(v) for v in x])
    return repr(x)


def scribble(x):
    if isinstance(x, np.ndarray):
        try:
            if x.dtype.names:
                for n in x.dtype.names:
                    x[n] = x[n] * 0 + 3 if x[n].dtype.kind != 'S' else b'?'
            elif x.dtype.kind == 'S':
                x[...] = b'?'
            else:
                x[...] = 77
        except ValueError:
            pass      # read only
        try:
            x.shape = (-1,)
        except (AttributeError, ValueError):
            pass
    elif isinstance(x, dict):
        for v in x.values():
            scribble(v)
        x.clear()
    elif isinstance(x, list):
        for v in x:
            scribble(v)
        del x[:]
    elif isinstance(x, tuple):
        for v in x:
            scribble(v)


def perform(env, d, query):
    """(outcome, raw result)"""
    name, args, kw = query
    env.step()
    if ':' in name:
        key, name = name.split(':')
        d = d[key]
    before = canon((args, sorted(kw.items())))
    try:
        r = getattr(d, name)(*args, **kw)
        out = ('ok', canon(r))
    except Exception as e:
        r = None
        out = ('error', type(e).__name__)
    if canon((args, sorted(kw.items()))) != before:
        raise Violation('%s changes its arguments' % (query,))
    return out, r


def show(seq):
    return ', then '.join('%s%r%s' % (n, a, k or '') for n, a, k in seq)


def scenarios(tier):
    for name in FILES:
        n = len(queries(name)[0])
        for a in range(n):
            yield {'file': name, 'first': a, 'triples': tier == 'thorough'}


def run(p, env):
    qs, sel = queries(p['file'])
    op, watch = prepare(env, p['file'])
    content = hashlib.sha1(open(watch, 'rb').read()).hexdigest()
    base = []
    for x in qs:
        f, d = op()
        base.append(perform(env, d, x)[0])
        env.state((p['file'], x[0], base[-1]))
        f.close()
    oks = sum(b[0] == 'ok' for b in base)
    if oks < len(qs) // 2:
        raise Violation('most queries fail: %s' % [
            (x, b) for x, b in zip(qs, base) if b[0] != 'ok'][:3])

    def sequence(seq):
        f, d = op()
        for k, i in enumerate(seq):
            out, r = perform(env, d, qs[i])
            if out != base[i]:
                raise Violation(
                    'on file %s, the result of the last query of: %s, differs '
                    'from its result on a fresh data set' % (
                        p['file'], show([qs[j] for j in seq[:k+1]])))
            scribble(r)
        f.close()
        env.trace()

    a = p['first']
    for b in range(len(qs)):
        sequence([a, b, a])
        if p['triples'] or (a in sel and b in sel):
            for c in range(len(qs)) if p['triples'] else sel:
                sequence([a, b, c])
    env.outcome('%s: %d of %d queries succeed' % (p['file'], oks, len(qs)))
    if hashlib.sha1(open(watch, 'rb').read()).hexdigest() != content:
        raise Violation('file %s was changed by queries' % p['file'])

"""C10: closing releases the file and every data set of it, and nothing else.

Space: all sequences up to a depth of opening three files (a hierarchy, a
file with three kinds of data, an interface file in memory), closing a File,
closing one of its data sets, closing all files, and failing to open
(missing, damaged and foreign files).  After
every step, every open handle answers correctly, every operation of every
closed File and data set raises ClosedFileError, and files without an open
handle are released.
"""
import os

import numpy as np

from . import c06, hier, hydro, mesh, records, sesam
from .common import fs, must_convert, write_file
from .core import Violation

PROPERTY = 'C10'
BOUNDS = {
    'quick': {'sequences': 'all of 4 operations with up to 3 handles; all of '
              '5 operations with up to 2 handles on 2 files',
              'operations': 'open (3 files), failing open, close File, close '
              'any of its data sets, close all, query'},
    'thorough': {'sequences': 'all of 5 operations with up to 3 handles; all '
                 'of 6 operations with up to 2 handles on 2 files',
                 'operations': 'as quick'},
}
RULE = ('state = open/closed status of all handles; transition = one '
        'operation (or one check of an operation on a closed object)')
ASSUMPTIONS = ['two in-memory data sets of the same file name are not open at '
               'the same time; one thread']

# operations on a data set, by class
STRUC = [('get_setnames', ()), ]
FIRST = STRUC + [
    ('get_nodes', ()), ('get_nodes', ('A',)), ('get_nodenumbers', ()),
    ('get_elements', ()), ('get_elements', (None, 'beam', True)),
    ('get_elementnumbers', ()), ('get_noderesults', ('displacement',)),
    ('get_elementresults', ('beamforce',)), ('get_section_properties', ()),
    ('get_shell_thicknesses', ()), ('get_resultcase_names', ())]
TOP = STRUC + [('get_transformation', (1, 1)),
               ('get_transformation', (1, 1, 1))]
HYDRO = [(n, ()) for n in (
    'get_angular_freqs', 'get_periods', 'get_directions', 'get_timesteps',
    'get_sections', 'get_points', 'get_bodyproperties', 'get_motion_raos',
    'get_excitationforce_raos', 'get_sectionforce_raos',
    'get_fluidkinematics_raos', 'get_bodymass', 'get_addedmass',
    'get_potentialdamping', 'get_viscousdamping', 'get_hydrostatic_restoring',
    'get_mooring_restoring', 'get_meandrift', 'get_horiz_meandrift',
    'get_pressure_panel_ids', 'get_panel_pressures')] + [
    ('get_matrix', (11,)), ('get_directions', ('radians',))]
OPS = {'TopLevelData': TOP, 'InterLevelData': STRUC, 'FirstLevelData': FIRST,
       'HydroData': HYDRO}

FILES = ('A', 'B', 'S')
FOREIGN = []


def open_paths():
    return set(os.path.realpath(os.readlink('/proc/self/fd/' + x))
               for x in os.listdir('/proc/self/fd')
               if os.path.lexists('/proc/self/fd/' + x))


def foreign(d, src):
    """files that cannot be opened: other HDF5 files, damaged ones"""
    import tables
    out = []
    for n, attr in (('1', {}), ('2', {'DATATYPE': 'STRUCTURAL'}),
                    ('3', {'DATATYPE': 'STRUCTURAL', 'LEVEL': 'TOPLEVEL'})):
        out.append(os.path.join(d, 'foreign%s.h5' % n))
        f = tables.open_file(out[-1], 'w')
        g = f.create_group('/', 'T1')
        for k, v in attr.items():
            f.set_node_attr(g, k, v)
        f.close()
    with open(src, 'rb') as f:
        data = f.read()
    for n, b in (('cut', data[:len(data) // 2]), ('empty', b''),
                 ('text', b'no hdf5')):
        out.append(os.path.join(d, n + '.h5'))
        with open(out[-1], 'wb') as f:
            f.write(b)
    return out


def prepare(env):
    """{file: (path, {data set: (method, args, expected)})}"""
    d = env.path()
    shape = hier.SHAPES['two_level']
    src = hier.write(d, shape, 'R', 'F', missing=(2,))
    a = must_convert(env, src, os.path.join(d, 'a.h5'))
    FOREIGN[:] = foreign(d, a)
    qa = {'R10': ('get_transformation', (1, 2), hier.matrix(3)),
          'R10/R1_1': ('get_nodes', (), hier.coords(hier.seed_of(1))),
          'R10/R1_2': ('get_nodes', (), hier.coords(hier.seed_of(3)))}
    b = os.path.join(d, 'b.h5')
    m = mesh.demo('T', 5)
    must_convert(env, m.write(env), b)
    must_convert(env, write_file(env.path('G1.SIF'), hydro.simple(1, 3),
                                 sesam.Layout()), b, append=True)
    t = [[2, 1, 0], ]
    tt = hier.SHAPES['three_df']
    must_convert(env, hier.write(env.path(), tt, 'T', 'F', missing=[
        k for k, _ in hier.lower_files(tt, 'T')][1:]), b, append=True)
    qb = {'T5': ('get_nodenumbers', (), [x[0] for x in m.nodes]),
          'G1': ('get_directions', ('radians',), [0., .5]),
          'T100': ('get_transformation', (1, 1),
                   hier.transformation(tt, 1, 1, 'top')),
          'T100/T20': ('get_setnames', (), None)}
    s = write_file(env.path('G2.SIF'), hydro.simple(2, 7), sesam.Layout())
    qs = {'G2': ('get_angular_freqs', (), [.875, 1.125])}
    return {'A': (a, qa), 'B': (b, qb), 'S': (s, qs)}


class Handle(object):
    def __init__(self, file, obj, data):
        self.file = file
        self.obj = obj          # File
        self.data = data        # {name: data set}
        self.open = True


class World(object):
    def __init__(self, env, files):
        self.env = env
        self.files = files
        self.handles = []
        self.hist = []

    def what(self):
        return 'after %s' % ', '.join(self.hist)

    def enabled(self, maxh, names):
        """operations that can be performed next"""
        nopen = sum(h.open for h in self.handles)
        out = []
        if len(self.handles) < maxh:
            for n in names:
                if n == 'S' and any(h.file == 'S' and h.open
                                    for h in self.handles):
                    continue
                out.append(('open', n))
        for i, h in enumerate(self.handles):
            out.append(('close', i))
            k = sorted(h.data)
            out.append(('closedata', i, k[0]))
            if len(k) > 1:
                out.append(('closedata', i, k[-1]))
        out.append(('closeall',))
        if len(self.handles) == 1:
            out.append(('bad',))
        return out

    def perform(self, op):
        self.hist.append(' '.join(str(x) for x in op))
        self.env.step()
        try:
            self._perform(op)
        except Violation:
            raise
        except Exception as e:
            raise Violation('%s: %s: %s' % (self.what(), type(e).__name__, e))
        self.check()

    def _perform(self, op):
        if op[0] == 'open':
            path, q = self.files[op[1]]
            if op[1] == 'S':
                d = fs().open_sif(path)
                h = Handle('S', d.file, {'G2': d})
            else:
                f = fs().open_hdf5(path)
                h = Handle(op[1], f, dict((k, f[k]) for k in q))
            self.handles.append(h)
        elif op[0] == 'close':
            h = self.handles[op[1]]
            h.obj.close()
            h.open = False
        elif op[0] == 'closedata':
            h = self.handles[op[1]]
            h.data[op[2]].close()
            h.open = False
        elif op[0] == 'closeall':
            import freesif.data.file as m
            m.close_all_files()
            for h in self.handles:
                h.open = False
        elif op[0] == 'bad':
            for fn, n in ((fs().open_hdf5, '/nonexistent/x.h5'),
                          (fs().open_sif, '/nonexistent/T1.FEM')):
                try:
                    fn(n)
                except Exception:
                    continue
                raise Violation('opening %s succeeded' % n)
            for n in FOREIGN:
                try:
                    f = fs().open_hdf5(n)
                except Exception:
                    continue
                if os.path.realpath(n) not in open_paths():
                    raise Violation('opening %s succeeded, but the file is '
                                    'not open' % n)
                f.close()

    def check(self):
        env = self.env
        state = tuple((h.file, h.open) for h in self.handles)
        for i, h in enumerate(self.handles):
            w = '%s: handle %d (%s)' % (self.what(), i, h.file)
            if h.open:
                self.check_open(h, w)
            else:
                self.check_closed(h, w)
        left = open_paths()
        for n in FOREIGN:
            if os.path.realpath(n) in left:
                raise Violation('%s: %s, which could not be opened, is '
                                'still open' % (self.what(), n))
        for n in FILES:
            if not any(h.file == n and h.open for h in self.handles):
                if os.path.realpath(self.files[n][0]) in left:
                    raise Violation('%s: file %s is still open' % (
                        self.what(), n))
        env.state(state)
        env.outcome(sum(x[1] for x in state))

    def check_open(self, h, w):
        q = self.files[h.file][1]
        if h.obj is not None and sorted(h.obj.keys()) != sorted(q):
            raise Violation('%s: data sets are %s' % (w, sorted(h.obj.keys())))
        for k, (meth, args, want) in q.items():
            self.env.step()
            try:
                got = getattr(h.data[k], meth)(*args)
            except Exception as e:
                raise Violation('%s: %s of open data set %s: %s: %s' % (
                    w, meth, k, type(e).__name__, e))
            ok = got is None if want is None else np.array_equal(
                np.asarray(got), np.array(want, dtype='f4')
                if meth != 'get_nodenumbers' else np.array(want))
            if not ok:
                raise Violation('%s: %s of %s gives %r, expected %r' % (
                    w, meth, k, got, want))
            str(h.data[k]), repr(h.data[k])
        str(h.obj), repr(h.obj)

    def check_closed(self, h, w):
        from freesif.exceptions import ClosedFileError
        key = sorted(h.data)[0]
        ops = [('f[%r]' % key, lambda: h.obj[key]),
               ('get', lambda: h.obj.get(key)),
               ('get unknown', lambda: h.obj.get('x', 1)),
               ('keys', lambda: h.obj.keys()),
               ('values', lambda: h.obj.values()),
               ('items', lambda: h.obj.items()),
               ('in', lambda: key in h.obj),
               ('iteration', lambda: list(h.obj))]
        for k, data in h.data.items():
            for meth, args in OPS[type(data).__name__]:
                ops.append(('%s.%s%r' % (k, meth, args),
                            lambda d=data, m=meth, a=args: getattr(d, m)(*a)))
        for n, fn in ops:
            self.env.step()
            try:
                r = fn()
            except ClosedFileError:
                continue
            except Exception as e:
                raise Violation('%s: %s raises %s: %s, not ClosedFileError' % (
                    w, n, type(e).__name__, e))
            raise Violation('%s: %s gives %r' % (w, n, r))
        try:
            str(h.obj), repr(h.obj)
            for k, d in h.data.items():
                str(d), repr(d)
        except Exception as e:
            raise Violation('%s: textual description: %s: %s' % (
                w, type(e).__name__, e))

    def finish(self):
        for h in self.handles:
            h.obj.close()
            h.obj.close()
            h.open = False
            for d in h.data.values():
                d.close()
        self.hist.append('close everything twice')
        self.check()
        # released: the files can be opened for writing
        import tables as tb
        for n in 'AB':
            try:
                tb.open_file(self.files[n][0], 'a').close()
            except Exception as e:
                raise Violation('%s: %s cannot be opened for writing: %s' % (
                    self.what(), n, e))


def scenarios(tier):
    k = 0 if tier == 'quick' else 1
    for names, maxh, depth in ((FILES, 3, 4 + k), (('A', 'S'), 2, 5 + k)):
        for first in names:
            for n in range(12):
                yield {'names': list(names), 'maxh': maxh, 'depth': depth,
                       'first': first, 'second': n}


def run(p, env):
    files = prepare(env)

    def go(prefix, depth):
        w = World(env, files)
        for op in prefix:
            w.perform(op)
        nxt = w.enabled(p['maxh'], p['names'])
        w.finish()
        env.trace()
        if depth == 0:
            return
        if len(prefix) == 1:
            nxt = nxt[p['second']:p['second']+1]
        for op in nxt:
            go(prefix + [op], depth - 1)

    go([('open', p['first'])], p['depth'] - 1)

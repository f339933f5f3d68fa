"""C28: a conversion never touches a file that is in use.

Space: all sequences up to a depth of opening two converted files (by
absolute, relative and linked names), closing one or all of the open Files,
and converting single files, sequences of files, hierarchies and broken files
to either of them (appending, overwriting, by any spelling of the name, as
default target).  After every step every open File and its data sets answer as
when they were opened, and a target in use is unchanged, byte by byte; after
the sequence the targets hold what the permitted conversions stored.
"""
import hashlib
import os

from . import c06, h5
from .common import convert, fs
from .core import Violation

PROPERTY = 'C28'
BOUNDS = {
    'quick': {'sequences': 'all of 3 out of 20 operations, all of 4 out of 8 '
              'operations, after opening the first target'},
    'thorough': {'sequences': 'all of 4 out of 20 operations, all of 5 out '
                 'of 11 operations'},
}
LIMIT_S = 600
RULE = ('state = (content of targets, open handles); transition = one '
        'operation')
ASSUMPTIONS = ['no data set of the same name as the target is open in memory '
               '(documented restriction of open_sif)']

SRC = {'a': 'T1', 'b': 'T2', 'c': 'T1b', 'h': 'R10', 'bad': 'bad'}
# (kind, ...): conv target, spelling, sources, append
OPS = [
    ('open', 'A', 'abs'),
    ('conv', 'A', 'rel', 'b', True),
    ('conv', 'A', 'abs', 'b', False),
    ('close', 0),
    ('conv', 'B', 'rel', 'a', True),
    ('open', 'B', 'rel'),
    ('conv', 'A', 'abs', 'h', True),
    ('conv', 'A', 'link', 'ab', False),
    ('closeall',),
    ('conv', 'A', 'default', 'c', False),
    ('conv', 'B', 'abs', 'c', False),
    # in the longer list only
    ('conv', 'A', 'link', 'h', True),
    ('conv', 'A', 'rel', 'c', False),
    ('conv', 'A', 'rel', 'ba', True),
    ('conv', 'A', 'abs', 'bad', True),
    ('conv', 'A', 'rel', 'bad', False),
    ('conv', 'B', 'rel', 'hb', False),
    ('open', 'A', 'link'),
    ('close', 1),
    ('memory', 'b'),
]
N4 = 11   # in the thorough tier; 8 in the quick one


def scenarios(tier):
    a, b = (3, 4) if tier == 'quick' else (4, 5)
    for i in range(len(OPS)):
        for j in range(len(OPS)) if tier != 'quick' else [None]:
            yield {'first': [i] if j is None else [i, j], 'n': len(OPS),
                   'depth': a}
    n = N4 if tier != 'quick' else 8
    for i in range(n):
        for j in range(n) if tier != 'quick' else [None]:
            yield {'first': [i] if j is None else [i, j], 'n': n, 'depth': b}


def digest(name):
    if not os.path.exists(name):
        return None
    with open(name, 'rb') as f:
        return hashlib.sha1(f.read()).hexdigest()


def answers(f):
    """everything an open File says"""
    out = []
    for k in sorted(f.keys()):
        x = f[k]
        out.append((k, type(x).__name__, str(x)))
        try:
            out.append(list(x.get_nodenumbers()))
        except AttributeError:
            out.append(x.get_setnames())
    return out


class World(object):

    def __init__(self, env, base):
        self.env = env
        self.d = env.path()
        os.chdir(self.d)
        # the first target has the default name of the conversion of T1.FEM
        self.path = {'A': os.path.join(self.d, 'T1.h5'),
                     'B': os.path.join(self.d, 'b.h5')}
        for t in 'AB':
            with open(self.path[t], 'wb') as f:
                f.write(base)
        os.mkdir('links')
        for t in 'AB':
            os.symlink(self.path[t], self.name(t, 'link'))
        self.model = {'A': {'L1': 'L1'}, 'B': {'L1': 'L1'}}
        self.handles = []
        self.hist = []

    def name(self, t, how):
        base = os.path.basename(self.path[t])
        return {'abs': self.path[t], 'rel': base, 'default': None,
                'link': os.path.join(self.d, 'links', t + '.h5')}[how]

    def what(self):
        return 'sequence %s' % (self.hist,)

    def do(self, o):
        self.hist.append(o)
        env = self.env
        if o[0] == 'open':
            env.step()
            try:
                f = fs().open_hdf5(self.name(o[1], o[2]))
            except Exception as e:
                raise Violation('%s: %s: %s' % (
                    self.what(), type(e).__name__, e))
            if set(k for k in f.keys() if '/' not in k) != \
                    set(self.model[o[1]]):
                raise Violation('%s: the File has %s, expected %s' % (
                    self.what(), sorted(f.keys()), self.model[o[1]]))
            self.handles.append((o[1], f, answers(f)))
        elif o[0] == 'close':
            env.step()
            self.handles.pop(o[1])[1].close()
        elif o[0] == 'closeall':
            env.step()
            from freesif.data.file import close_all_files
            close_all_files()
            self.handles = []
        elif o[0] == 'memory':
            env.step()
            x = fs().open_sif(c06.FILES[SRC[o[1]]])
            n = x.get_nodenumbers()
            x.close()
            if list(n) != REFN[o[1]]:
                raise Violation('%s: in memory: %s' % (self.what(), n))
        else:
            self.conv(*o[1:])
        self.check()

    def conv(self, t, how, srcs, append):
        env = self.env
        names = [SRC[srcs]] if srcs == 'bad' else [SRC[s] for s in srcs]
        paths = [c06.FILES[n] for n in names]
        used = any(h[0] == t for h in self.handles)
        m = dict(self.model[t])
        fails = False
        for k, n in enumerate(names):
            m, fails = c06.apply(m, [n, '', True, append or k > 0])
            if fails:
                break
        before = {x: digest(self.path[x]) for x in 'AB'}
        try:
            convert(env, paths if len(paths) > 1 else paths[0],
                    self.name(t, how), append=append)
        except Exception as e:
            if not used and not fails:
                raise Violation('%s: %s: %s' % (
                    self.what(), type(e).__name__, e))
            env.outcome('refused')
        else:
            if used or fails:
                raise Violation('%s: there is no error (the target is %s)' % (
                    self.what(), 'in use' if used else 'not in use'))
            env.outcome('stored')
        for x in 'AB':
            if (x != t or used) and digest(self.path[x]) != before[x]:
                raise Violation('%s: %s was changed' % (self.what(), x))
        if not used:
            self.model[t] = m

    def check(self):
        for t, f, want in self.handles:
            self.env.step()
            try:
                have = answers(f)
            except Exception as e:
                raise Violation('%s: an open File of %s fails: %s: %s' % (
                    self.what(), t, type(e).__name__, e))
            if have != want:
                raise Violation('%s: an open File of %s answers %s, expected '
                                '%s' % (self.what(), t, have, want))
        self.env.state((sorted(self.model['A'].items()),
                        sorted(self.model['B'].items()),
                        [h[0] for h in self.handles]))

    def end(self):
        for t, f, _ in self.handles:
            f.close()
        extra = set(os.listdir(self.d)) - {'T1.h5', 'b.h5', 'links'}
        if extra:
            raise Violation('%s: left behind: %s' % (
                self.what(), sorted(extra)))
        for t in 'AB':
            c06.check_target(self.env, self.path[t], self.model[t],
                             '%s: %s' % (self.what(), t))
            if os.path.islink(self.path[t]) or \
                    not os.path.islink(self.name(t, 'link')):
                raise Violation('%s: the link was replaced' % self.what())
        self.env.trace()


REFN = {}


def run(p, env):
    for s in list(SRC.values()) + ['L1']:
        c06.ref(env, s)
    f = fs().open_sif(c06.FILES['T2'])
    REFN['b'] = list(f.get_nodenumbers())
    f.close()
    base = os.path.join(env.path(), 'base.h5')
    convert(env, c06.FILES['L1'], base)
    base = open(base, 'rb').read()
    sequences(p, env, base, p['first'])
    os.chdir('/')


def sequences(p, env, base, seq):
    if not effective(seq):
        return
    if len(seq) < p['depth']:
        for i in range(p['n']):
            sequences(p, env, base, seq + [i])
        return
    w = World(env, base)
    w.do(('open', 'A', 'abs'))
    for i in seq:
        w.do(OPS[i])
    w.end()


def effective(seq):
    """do all operations of seq have an effect?"""
    n = 1
    for i in seq:
        kind = OPS[i][0]
        if kind == 'open':
            n += 1
        elif kind == 'close':
            if n <= OPS[i][1]:
                return False
            n -= 1
        elif kind == 'closeall':
            if n == 0:
                return False
            n = 0
    return True

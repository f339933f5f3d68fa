"""C25: an input or output error at any point of a conversion is reported and
leaves nothing behind.

Fault injection: the operations of a conversion on its files are numbered
(opening and every read of the interface files; creation of tables and arrays,
every append, flush and attribute on the converted file).  For every number,
that one operation fails: with an input/output error, or with an interrupt by
the user.  Afterwards: the error is reported, no file is open, a target opened
for append is as before, other data sets stored by the same call are complete,
and repeating the conversion succeeds.
"""
import builtins
import io
import os
import shutil
import sys

import tables as tb

from . import c08, h5, hier, sesam
from .common import fs, write_file
from .core import Violation

PROPERTY = 'C25'
BOUNDS = {
    'quick': {'files': '3 small files (T, R, G) formatted and unformatted, 4 '
              'hierarchies, a sequence of two files',
              'faults': 'input/output error of every operation on a file '
              '(append) and of every 3rd (fresh target, in memory); interrupt '
              'at every 3rd (append)', 'repeated': 'after every 5th fault'},
    'thorough': {'files': '9 small files, 8 hierarchies, sequences of two '
                 'files', 'faults': 'every operation once with each of 2 '
                 'errors, append, fresh target, in memory',
                 'repeated': 'after every fault'},
}
RULE = ('state = (file, mode, operation that fails, error, outcome); '
        'transition = one conversion')
ASSUMPTIONS = ['one operation fails, later ones succeed']

ERRORS = (OSError, KeyboardInterrupt)
EXT = ('.FEM', '.SIF', '.SIU')


class Injected(object):
    """numbers the operations, and lets one fail"""

    def __init__(self):
        self.n = 0
        self.at = None
        self.error = None
        self.on = False
        self.where = None
        self.inside = 0     # in an operation of the library that cleans up

    def point(self, where):
        if not self.on or self.inside:
            return
        self.n += 1
        if self.n == self.at:
            self.where = where
            raise self.error('injected')


INJ = Injected()


class Proxy(object):
    """an interface file"""

    def __init__(self, f):
        object.__setattr__(self, '_f', f)

    def __getattr__(self, name):
        a = getattr(self._f, name)
        if name in ('read', 'readline', 'readlines', 'readinto', 'seek'):
            def g(*args, **kw):
                INJ.point(name)
                return a(*args, **kw)
            return g
        return a

    def __setattr__(self, name, value):
        setattr(self._f, name, value)

    def __enter__(self):
        self._f.__enter__()
        return self

    def __exit__(self, *a):
        return self._f.__exit__(*a)

    def __iter__(self):
        return self

    def __next__(self):
        INJ.point('next')
        return next(self._f)


def install():
    """(in the process of one scenario)"""
    real = builtins.open

    def opened(name, *a, **kw):
        if not INJ.on or not str(name).upper().endswith(EXT):
            return real(name, *a, **kw)
        INJ.point('open')
        return Proxy(real(name, *a, **kw))
    builtins.open = io.open = opened

    def wrap(cls, name):
        f = getattr(cls, name)

        def g(self, *a, **kw):
            # (tables flushes on its own account as well)
            if name != 'flush' or sys._getframe(1).f_globals.get(
                    '__name__', '').startswith('freesif'):
                INJ.point(name)
            return f(self, *a, **kw)
        setattr(cls, name, g)
    wrap(tb.Table, 'append')
    wrap(tb.Table, 'flush')
    wrap(tb.EArray, 'append')
    wrap(tb.File, 'create_table')
    wrap(tb.File, 'create_earray')
    wrap(tb.Group, '_f_setattr')
    for name in ('close', 'remove_node'):
        clean(tb.File, name)
    f = tb.open_file

    def open_file(*a, **kw):
        INJ.point('open_file')
        return f(*a, **kw)
    tb.open_file = open_file


def clean(cls, name):
    f = getattr(cls, name)

    def g(self, *a, **kw):
        INJ.inside += 1
        try:
            return f(self, *a, **kw)
        finally:
            INJ.inside -= 1
    setattr(cls, name, g)


def scenarios(tier):
    quick = tier == 'quick'
    parts = 3 if quick else 6
    for part in range(parts):
        for v in range(1 if quick else 3):
            for letter in 'TRG':
                for fmt in 'FU':
                    yield {'kind': 'small', 'letter': letter, 'fmt': fmt,
                           'v': v, 'part': [part, parts], 'dense': not quick}
        for k in range(4 if quick else 8):
            yield {'kind': 'hier', 'hier': c08.HIERS[k][:3],
                   'part': [part, parts], 'dense': not quick}
        for fmt in 'FU':
            yield {'kind': 'sequence', 'fmt': fmt, 'part': [part, parts],
                   'dense': not quick}


def run(p, env):
    install()
    d = env.path()
    if p['kind'] == 'hier':
        letter, fmt, shape = p['hier']
        src = hier.write(d, hier.SHAPES[shape], letter, fmt)
    else:
        fmt = p['fmt']
        letter = p.get('letter', 'T')
        lay = sesam.Layout(fmt=fmt)
        src = write_file(os.path.join(d, c08.name_of(letter, fmt)),
                         c08.small(letter, p.get('v', 0)), lay)
        if p['kind'] == 'sequence':
            src = [src, write_file(os.path.join(d, c08.name_of('R', fmt)),
                                   c08.small('R', 0), lay)]
    names = [src] if isinstance(src, str) else src
    want = [c08.good_content(env, s, str(s)) for s in names]
    tgt = c08.Target(env)
    modes = ('append', 'fresh')
    if len(names) == 1:
        modes += ('memory',)
    for mode in modes:
        n = faultless(env, tgt, src, mode)
        for at in range(1 + p['part'][0], n + 1, p['part'][1]):
            k = (at - 1) // p['part'][1]
            if not p['dense'] and mode != 'append' and k % 3:
                continue
            for e, error in enumerate(ERRORS):
                # (interrupts at every third operation only)
                if not p['dense'] and e and k % 3 != 1:
                    continue
                one(env, tgt, src, names, want, mode, at, error,
                    p['dense'] or k % 5 == 0,
                    '%s %s %s' % (p['kind'], p.get('hier') or (letter, fmt),
                                  mode))


def convert(tgt, src, mode):
    if mode == 'memory':
        fs().open_sif(src).close()
    else:
        fs().sif2hdf5(src, tgt.path, append=mode == 'append')


def faultless(env, tgt, src, mode):
    shutil.copyfile(tgt.old, tgt.path)
    INJ.n, INJ.at, INJ.on = 0, None, True
    env.step()
    try:
        convert(tgt, src, mode)
    except Exception as e:
        raise Violation('%s: conversion of the valid file failed: %s: %s' % (
            mode, type(e).__name__, e))
    finally:
        INJ.on = False
    return INJ.n


def one(env, tgt, src, names, want, mode, at, error, retry, what):
    shutil.copyfile(tgt.old, tgt.path)
    before = os.stat(tgt.path).st_mtime_ns
    INJ.n, INJ.at, INJ.error, INJ.where = 0, at, error, None
    INJ.on = True
    err = None
    env.step()
    try:
        convert(tgt, src, mode)
    except (Exception, KeyboardInterrupt) as e:
        err = type(e).__name__
    finally:
        INJ.on = False
    if INJ.where is None:       # not reached
        env.outcome('not reached')
        return
    what = '%s: %s at operation %d (%s)' % (what, error.__name__, at,
                                            INJ.where)
    if err is None:
        raise Violation('%s: no error was reported' % what)
    left = c08.open_files(env.tmp)
    left += [f.filename for f in list(tb.file._open_files.handlers)]
    if left:
        raise Violation('%s: still open: %s' % (what, left))
    if mode != 'memory':
        untouched = os.stat(tgt.path).st_mtime_ns == before
        got = h5.file_content(tgt.path)
        # the data sets that are complete
        ok = []
        for n in range(len(want)):
            exp = dict(tgt.content) if mode == 'append' or untouched else {}
            for w in want[:n]:
                exp.update(w)
            ok.append(h5.diff_content(exp, got))
        if all(ok):
            raise Violation('%s: left on the target: %s' % (what, ok[0]))
        try:
            f = fs().open_hdf5(tgt.path)
            for k in list(f.keys()):
                f[k].get_setnames() if hasattr(f[k], 'get_setnames') else 0
            f.close()
        except Exception as e:
            raise Violation('%s: the target cannot be used afterwards: %s: '
                            '%s' % (what, type(e).__name__, e))
        done = [n for n in range(len(ok)) if not ok[n]][0]
    else:
        done = 0
    env.state((what, err))
    env.outcome((INJ.where, err, done))
    if retry:
        env.step()
        try:
            convert(tgt, src if not done else names[done:],
                    'append' if done else mode)
        except Exception as e:
            raise Violation('%s: converting again failed: %s: %s' % (
                what, type(e).__name__, e))
        if mode != 'memory':
            exp = dict(tgt.content) if mode == 'append' else {}
            for w in want:
                exp.update(w)
            diff = h5.diff_content(exp, h5.file_content(tgt.path))
            if diff:
                raise Violation('%s: after converting again: %s' % (what,
                                                                    diff))
    env.trace()

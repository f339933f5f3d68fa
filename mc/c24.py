"""C24: opening a file in memory equals converting it and opening the result.

Space: (a) all kinds of files (single model, load, result and hydrodynamic
files, hierarchies with some lower level files) in all formats, with and
without prefix, in upper and lower case, named by absolute or relative path,
with or without converted files of the same name in the working directory:
every query of a pool has the same outcome on both data sets; (b) all
sequences up to a depth of opening same-named and other files (valid ones and
truncated ones) in memory, converting them, and closing.
"""
import hashlib
import os

from . import c06, c10, c19, hier, hydro, mesh, sesam
from .common import fs, must_convert, write_file
from .core import Violation

PROPERTY = 'C24'
BOUNDS = {
    'quick': {'kinds': 'T, L and R model, 2 result files, 2 hydrodynamic '
              'files, T and R hierarchies of 4 shapes with all and some lower '
              'files', 'names': 'formatted and unformatted, 3 prefixes, upper '
              'and lower case, 3 ways to name the path', 'queries': '13 to 50 '
              'by data set', 'histories': 'all sequences of 4 operations on 4 '
              'files and 3 broken ones'},
    'thorough': {'kinds': 'hierarchies of 9 shapes', 'names': 'as quick',
                 'queries': 'as quick', 'histories': '5 operations'},
}
RULE = ('state = distinct (data set, query, outcome) or open/closed status; '
        'transition = one query or operation')
ASSUMPTIONS = ['in-memory data sets of the same file name are not open at the '
               'same time', 'the number in the file name is the one on the '
               'file']

SINGLE = ('T', 'L', 'R', 'struc', 'thick', 'hydro', 'hydro2')
SHAPES = ('two_level', 'reverse', 'three_df', 'mixed')
PREFIX = ('', 'pre-', 'R2_T1')


def records_of(kind):
    """(letter, number, records)"""
    if kind in 'TLR':
        return kind, 5, mesh.demo(kind, 5).records()
    if kind == 'struc':
        m = c19.structural()[0]
        return m.letter, m.no, m.records()
    if kind == 'thick':
        m = c19.thick()[0]
        return m.letter, m.no, m.records()
    if kind == 'hydro':
        return 'G', 1, c19.hydrodynamic()[0].records()
    return 'G', 12, hydro.simple(12, 3)


def ext_of(letter, fmt):
    return 'FEM' if letter in 'TL' else 'SIF' if fmt == 'F' else 'SIU'


def write_single(d, kind, fmt, prefix, lower):
    letter, no, recs = records_of(kind)
    n = '%s%d.%s' % (letter, no, ext_of(letter, fmt))
    return write_file(os.path.join(d, prefix + (n.lower() if lower else n)),
                      recs, sesam.Layout(fmt=fmt))


def pool(key, data):
    """queries for a data set"""
    q = c19.q
    name = type(data).__name__
    out = [q(n, *a) for n, a in c10.OPS[name]]
    if name == 'FirstLevelData':
        out += c19.structural()[1] + [
            q('get_nodes', trans=t, index=i) for t in ('top', 1, 2, 3, 4)
            for i in (1, 2)] + [q('get_noderesults', 'displacement', 1, 1),
                                q('get_elementresults', 'generalstress',
                                  'nodes', 1, [3, 5], 'A')]
    elif name == 'HydroData':
        out += c19.hydrodynamic()[1]
    else:
        out += [q('get_transformation', *a) for a in (
            (1, 1), (1, 2), (2, 1, 2), (1, 1, 4), (9, 1), (20, 1, 3))]
    return out


def listing(*dirs):
    out = []
    for top in dirs:
        for d, _, names in os.walk(top):
            for n in sorted(names):
                p = os.path.join(d, n)
                with open(p, 'rb') as f:
                    out.append((p, hashlib.sha1(f.read()).hexdigest()))
    return sorted(out)


def scenarios(tier):
    for kind in SINGLE:
        for fmt in 'FU':
            for prefix in PREFIX:
                for lower in (0, 1):
                    yield {'kind': 'same', 'file': kind, 'fmt': fmt,
                           'prefix': prefix, 'lower': lower}
    shapes = SHAPES if tier == 'quick' else sorted(hier.SHAPES)
    for shape in shapes:
        for letter in 'TR':
            for fmt in 'FU':
                for prefix in PREFIX[:2]:
                    for lower in (0, 1):
                        yield {'kind': 'same', 'shape': shape,
                               'letter': letter, 'fmt': fmt,
                               'prefix': prefix, 'lower': lower}
    for a in HOPS:
        for b in HOPS:
            yield {'kind': 'history', 'first': [a, b],
                   'n': 4 if tier == 'quick' else 5}


def run(p, env):
    globals()['run_' + p['kind']](p, env)


def compare(env, mem, conv, what):
    """all data sets of two Files"""
    if sorted(mem.keys()) != sorted(conv.keys()):
        raise Violation('%s: data sets %s in memory, %s on the converted '
                        'file' % (what, sorted(mem.keys()),
                                  sorted(conv.keys())))
    n = 0
    for key in sorted(conv.keys()):
        a, b = mem[key], conv[key]
        if type(a) is not type(b):
            raise Violation('%s: %s is a %s in memory, a %s on the converted '
                            'file' % (what, key, type(a).__name__,
                                      type(b).__name__))
        for q in pool(key, b):
            x = c19.perform(env, a, q)[0]
            y = c19.perform(env, b, q)[0]
            env.state((what, key, repr(q), y))
            n += y[0] == 'ok'
            if x != y:
                raise Violation('%s: %s of %s: %s in memory, %s on the '
                                'converted file' % (
                                    what, c19.show([q]), key,
                                    str(x)[:200], str(y)[:200]))
    if n < 2:
        raise Violation('%s: all queries failed' % what)
    env.trace()


def run_same(p, env):
    missing = [()]
    if 'shape' in p:
        shape = hier.SHAPES[p['shape']]
        low = [k for k, _ in hier.lower_files(shape, p['letter'])]
        missing = [(), tuple(low[1:]), tuple(low[:1])] if low else [()]
    for miss in missing:
        for how in ('abs', 'rel', 'here', 'beside', 'open'):
            d = env.path()
            what = '%s missing %s, path %s' % (
                [p[k] for k in sorted(p) if k != 'kind'], list(miss), how)
            if 'shape' in p:
                src = hier.write(d, shape, p['letter'], p['fmt'], miss,
                                 p['prefix'], bool(p['lower']))
                top = '%s%s%d' % (p['prefix'], p['letter'], shape[0][0])
            else:
                src = write_single(d, p['file'], p['fmt'], p['prefix'],
                                   p['lower'])
                letter, no, _ = records_of(p['file'])
                top = '%s%s%d' % (p['prefix'], letter, no)
            out = env.path()
            h5 = os.path.join(out, 'conv.h5')
            if how in ('beside', 'open'):
                # the converted file has the default name and is in the
                # working directory
                h5 = os.path.join(out, os.path.basename(src)[:-3] + 'h5')
            must_convert(env, src, h5, what)
            os.chdir(d if how == 'here' else out)
            name = {'abs': src, 'rel': os.path.relpath(src)}.get(how, src)
            if how == 'here':
                name = os.path.basename(src)
            f = fs().open_hdf5(h5) if how == 'open' else None
            before = listing(d, out)
            env.step()
            try:
                data = fs().open_sif(name)
            except Exception as e:
                raise Violation('%s: open_sif: %s: %s' % (
                    what, type(e).__name__, e))
            if f is None:
                f = fs().open_hdf5(h5)
            if top not in f:
                raise Violation('%s: the data sets are %s' % (
                    what, sorted(f.keys())))
            if data is not data.file[top]:
                raise Violation('%s: open_sif does not return %s' % (
                    what, top))
            compare(env, data.file, f, what)
            data.close()
            f.close()
            if listing(d, out) != before:
                raise Violation('%s: files changed: %s, before %s' % (
                    what, listing(d, out), before))
    os.chdir('/')
    env.outcome('same')


# -- histories -------------------------------------------------------------- #

# two files of the same name, one with another number, a lower case one
SRC = {'a': ('T5.FEM', 1, 5), 'b': ('T5.FEM', 2, 5), 'c': ('T6.FEM', 3, 6),
       'd': ('t5.fem', 5, 5)}
# two truncated ones, one with another number than its name tells
BROKEN = {'x': 'T5.FEM', 'y': 'R5.SIF', 'z': 'T5.FEM'}
HOPS = ['open a', 'open b', 'open c', 'open d', 'bad x', 'bad y',
        'bad z', 'close',
        'closefile', 'closeall', 'convert']


def run_history(p, env):
    d = env.path()
    files, want = {}, {}
    for k, (name, seed, no) in SRC.items():
        os.mkdir(os.path.join(d, k))
        files[k] = write_file(os.path.join(d, k, name), c06.lean(seed, no),
                              sesam.Layout(fmt='F'))
        want[k] = [10 * seed + i for i in range(seed % 3 + 1)]
    for k, name in BROKEN.items():
        os.mkdir(os.path.join(d, k))
        files[k] = os.path.join(d, k, name)
        data = sesam.encode(c06.lean(4, 5), sesam.Layout(fmt='F'))
        if k == 'y':
            data = sesam.encode(mesh.demo('R', 5).records(),
                                sesam.Layout(fmt='F'))
        with open(files[k], 'wb') as f:
            f.write(data[:len(data) * 2 // 3 // 82 * 82])
        if k == 'z':
            write_file(files[k], c06.lean(4, 6), sesam.Layout(fmt='F'))
    work = env.path()
    os.chdir(work)
    before = listing(d, work)
    used = {}

    def enabled(opened, op):
        verb, _, k = op.partition(' ')
        if verb == 'open':
            return not any(SRC[o][0] == SRC[k][0] for o in opened)
        if verb == 'bad':
            return not any(SRC[o][0] == BROKEN[k] for o in opened)
        if verb in ('close', 'closefile'):
            return bool(opened)
        return True

    def go(seq):
        opened = {}
        hist = []
        for op in seq:
            if not enabled(opened, op):
                for data in opened.values():
                    data.close()
                return False
            verb, _, k = op.partition(' ')
            hist.append(op)
            what = 'after %s' % ', '.join(hist)
            env.step()
            try:
                if verb == 'open':
                    opened[k] = fs().open_sif(files[k])
                elif verb == 'bad':
                    try:
                        data = fs().open_sif(files[k])
                    except Exception:
                        pass
                    else:
                        if k != 'z':
                            raise Violation('%s: the broken file was opened'
                                            % what)
                        data.close()
                elif verb == 'close':
                    opened.pop(min(opened)).close()
                elif verb == 'closefile':
                    opened.pop(max(opened)).file.close()
                elif verb == 'closeall':
                    import freesif.data.file as m
                    m.close_all_files()
                    opened.clear()
                else:
                    h5 = os.path.join(d, 'conv.h5')
                    must_convert(env, files['a'], h5, what)
                    f = fs().open_hdf5(h5)
                    n = f['T5'].get_nodenumbers().tolist()
                    f.close()
                    os.remove(h5)
                    if n != want['a']:
                        raise Violation('%s: converted numbers %s' % (what,
                                                                      n))
                for o, data in opened.items():
                    n = data.get_nodenumbers().tolist()
                    if n != want[o]:
                        raise Violation('%s: node numbers of %s are %s, '
                                        'expected %s' % (what, o, n, want[o]))
            except Violation:
                raise
            except Exception as e:
                raise Violation('%s: %s: %s' % (what, type(e).__name__, e))
            env.state(tuple(sorted(opened)))
        for data in opened.values():
            data.close()
        env.trace()
        return True

    def extend(seq):
        if not go(seq):
            return
        if len(seq) < p['n']:
            for op in HOPS:
                extend(seq + [op])

    extend(p['first'])
    if listing(d, work) != before:
        raise Violation('files were changed: %s' % listing(d, work))
    os.chdir('/')
    env.outcome('history')

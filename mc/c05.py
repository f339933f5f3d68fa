"""C05: a conversion does not depend on earlier conversions in the session.

Space: all sequences of up to 3 (thorough: 4 over a smaller pool) conversions
over a pool of files that are chosen to collide: the same numbers with other
element types, result points, component counts, complex flags and hierarchies,
selected records, and conversions that fail in different places.  Every
conversion has to have the outcome that it has in a fresh process.
"""
import itertools
import os
import pickle
import shutil
import tempfile

from . import c02, core, h5, hier, records, sesam
from .common import convert, fs, write_file
from .core import Violation
from .records import Ctx, make
from .sesam import Rec

PROPERTY = 'C05'
BOUNDS = {
    'quick': {'history': 'every conversion out of 19 after every single '
              'other one in a fresh process; every window of 3 conversions '
              '(de Bruijn sequence of order 3, in 48 processes)'},
    'thorough': {'history': 'as quick, and all sequences of 3 earlier '
                 'conversions out of 19, followed by each of the 19'},
}
RULE = ('state = (last two conversions, conversion) with its outcome; '
        'transition = one conversion')
ASSUMPTIONS = ['conversions follow one another in one process; conversions '
               'in concurrent threads are not supported by the package']


def elem(elno, eltyp, base=0):
    n = records.ELTYPES[eltyp]
    nod = [base + i + 1 for i in range(n)]
    return Rec('GELMNT1', 'I', [elno, elno, eltyp, 0], [nod],
               row=dict(elnox=elno, elno=elno, eltyp=eltyp, eltyad=0),
               vl={'nodin': nod})


def elref(elno, seed, ecc):
    l2, l3 = [seed, seed + 1, seed + 2, seed + 3], [seed, -1, seed, seed]
    return Rec('GELREF1', 'I', [elno, seed, seed, seed],
               [l2, l3, [seed + 10 + i for i in range(ecc)]], row={})


def rfile(grid, ncomp, cx, seed, seltyp=1, points=True, resref=True,
          comps=True, ielcor=True):
    """single results file with one element, number 1"""
    (nok, noj, noi), flags, nsptra, nlay = records._GRIDS[grid]
    ctx = Ctx(seed)
    out = [records.irecsize(), records.hier_row(1, seltyp, 1, 1),
           records.iend(1), records.irecsize(), records.ident(seltyp)]
    ijk = nok * 10000 + noj * 100 + noi
    cont, nsp = [], 0
    for fl in flags:
        if fl == '1':
            nsp += 1
            cont += [nsp] + ctx.fs(3)
        else:
            cont.append(-1)
    cont += ctx.fs(9 * nsptra)
    if points:
        out.append(Rec('RDPOINTS', 'R', [9 + len(cont), 1, 1, 15],
                       [[15, nsp, ijk, nsptra, nlay] + cont], row={}))
    if ielcor:
        if not points:
            nok, noj, noi, nlay = 1, 1, 3, 0
        n = nok + noj + noi + 2 * nlay
        vals = ctx.fs(n)
        out.append(Rec('RDIELCOR', 'R', [3 + n, 15, 1, vals[0]], [vals[1:]],
                       row={}))
    if comps:
        c = ctx.is_(ncomp)
        out.append(Rec('RDFORCES', 'R', [3 + ncomp, 15, ncomp, c[0]], [c[1:]],
                       row={}))
    if resref:
        out.append(Rec('RDRESREF', 'R', [7, 1, 1, 1], [[1, cx, 0]], row={}))
    vals = ctx.fs(nsp * ncomp * (cx + 1))
    out.append(Rec('RVFORCES', 'R', [5 + len(vals), 1, 1, 1], [[15] + vals],
                   row={}))
    return out + [records.iend()]


def tfile(eltyps, seed, seltyp=1, elements=True):
    out = [records.ident(seltyp)]
    ctx = Ctx(seed)
    out += [make('GNODE', ctx, 0) for _ in range(3)]
    if elements:
        out += [elem(i + 1, t) for i, t in enumerate(eltyps)]
    out += [elref(i + 1, seed, records.ELTYPES[t])
            for i, t in enumerate(eltyps)]
    ctx = Ctx(seed)
    out += [make('GSETMEMB', ctx, 0), make('TDSETNAM', ctx, 0)]
    return out + [records.iend()]


# name: (function writing files to a directory and returning the arguments)
def _w(name, recs, fmt='F', cut=None, **kw):
    def f(d):
        p = write_file(os.path.join(d, name), recs, sesam.Layout(fmt=fmt))
        if cut:
            b = open(p, 'rb').read()
            open(p, 'wb').write(b[:int(len(b) * cut)])
        return [(p, kw)]
    return f


def _h(shape, letter, fmt='F', cut=None, **kw):
    def f(d):
        p = hier.write(d, hier.SHAPES[shape], letter, fmt, prefix=kw.pop(
            'fileprefix', ''))
        if cut:
            low = os.path.join(d, cut)
            b = open(low, 'rb').read()
            open(low, 'wb').write(b[:len(b) * 2 // 3])
        return [(p, kw)]
    return f


def _seq(*fns):
    def f(d):
        out = []
        for k, fn in enumerate(fns):
            dd = os.path.join(d, 'q%d' % k)
            os.mkdir(dd)
            for p, kw in fn(dd):
                out.append((p, dict(kw, append=k > 0)))
        return out
    return f


POOL = {
    'T_beam': _w('T1.FEM', tfile([15, 15, 24], 200)),
    'T_shell': _w('xT1.FEM', tfile([28, 26, 25, 23], 300), 'U'),
    'T_noelem': _w('T1.FEM', tfile([15], 400, elements=False)),
    'T_noident': _w('T1.FEM', tfile([15, 24], 450)[1:]),
    'R_a': _w('R1.SIF', rfile(0, 6, 0, 500)),
    'R_b': _w('R1.SIU', rfile(3, 4, 1, 600), 'U'),
    'R_nopoints': _w('R1.SIF', rfile(0, 6, 0, 700, points=False)),
    'R_noresref': _w('R1.SIF', rfile(0, 6, 1, 800, resref=False)),
    'R_nocomp': _w('R1.SIF', rfile(1, 6, 1, 850, comps=False)),
    'R_ielcor': _w('R1.SIF', [r for r in rfile(0, 6, 0, 900, points=False)
                              if r.name != 'RVFORCES']),
    'G': _w('G1.SIF', [records.ident(3)] +
            [make(n, Ctx(77), 0) for n in ('WGLOBDEF', 'WBODY', 'WDRESREF',
                                           'W1EXFORC')] + [records.iend()]),
    'only': _w('T1.FEM', tfile([15, 15, 24], 200), only=['GNODE', 'IDENT']),
    'only_bad': _w('T1.FEM', tfile([15, 15, 24], 200),
                   only=['GELREF1', 'IDENT']),
    'cut_T': _w('T1.FEM', tfile([24, 24, 15], 950), cut=.8),
    'hier_R': _h('two_level', 'R'),
    'hier_T': _h('three_df', 'T', 'U'),
    'hier_R_cut': _h('two_level', 'R', cut='R2H3.SIF'),
    'hier_T_prefix': _h('two_same', 'T', fileprefix='pre_', prefix='a_',
                        usefileprefix=False),
    'seq': _seq(_w('T2.FEM', tfile([25], 970, 2)),
                _w('R2.SIF', rfile(2, 3, 1, 980, 2)), _h('one_level', 'R')),
}
NAMES = list(POOL)
REF = {}


def perform(name, d):
    """outcome of the conversion in the current process"""
    os.mkdir(d)
    dst = os.path.join(d, 'out.h5')
    try:
        for p, kw in POOL[name](d):
            fs().sif2hdf5(p, dst, **kw)
    except Exception as e:
        return 'error', None
    return 'ok', h5.file_content(dst)


def in_child(fn):
    """result of fn() in a forked process"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                data = pickle.dumps(fn())
            except BaseException as e:
                data = pickle.dumps(('crash', repr(e)))
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ('crash', 'no result')


def setup():
    root = core.scratch_root()
    devnull = os.open(os.devnull, os.O_WRONLY)
    keep = os.dup(1)
    os.dup2(devnull, 1)
    try:
        for n in NAMES:
            REF[n] = in_child(lambda: perform(n, os.path.join(root, n)))
        setup_siblings(root)
    finally:
        os.dup2(keep, 1)
        shutil.rmtree(root)


# --------------------------------------------------------------------------
# files of one hierarchy
# --------------------------------------------------------------------------

SIBS = [(10, 1, 2, 0), (1, 1, 1, 1), (2, 1, 1, 1), (3, 1, 1, 1)]


def _results(*a, **kw):
    return [r for r in rfile(*a, **kw) if r.name[:2] in ('RD', 'RV')]


def _elements(eltyps, refs, seed):
    return ([elem(i + 1, t) for i, t in enumerate(eltyps)] +
            [elref(i + 1, seed, records.ELTYPES[t])
             for i, t in enumerate(refs)])


# name: (valid, records)
LOWER = {
    'R': {
        'small': (True, _results(0, 6, 0, 2000)),
        'large': (True, _results(3, 4, 1, 2200)),
        'other': (True, _results(1, 2, 0, 2400)),
        'plain': (True, []),
        'no points': (False, _results(0, 6, 0, 2600, points=False,
                                      ielcor=False)),
        'no points, coordinates only': (True, [
            r for r in _results(0, 6, 0, 2700, points=False)
            if r.name != 'RVFORCES']),
        'no complex flag': (False, _results(0, 6, 1, 2800, resref=False)),
        'no components': (False, _results(0, 6, 0, 2900, comps=False)),
    },
    'T': {
        'beams': (True, _elements([15, 15, 24], [15, 15, 24], 2000)),
        'shells': (True, _elements([28, 26], [28, 26], 2200)),
        'one': (True, _elements([23], [23], 2300)),
        'plain': (True, []),
        'no elements': (False, _elements([], [15], 2400)),
        'too few elements': (False, _elements([25], [25, 15, 24], 2600)),
    },
}
SIBREF = {}


def write_siblings(d, letter, fmt, top, names):
    """hierarchy with the given variants (None: file is missing) of the lower
    files; returns the path of the top level file"""
    lay = sesam.Layout(fmt=fmt)
    ext = '.' + hier.ext_of(letter, fmt)
    recs = hier.top_records(SIBS, letter)
    recs[-1:-1] = LOWER[letter][top][1]
    p = write_file(os.path.join(d, letter + '10' + ext), recs, lay)
    for (k, base), n in zip(hier.lower_files(SIBS, letter), names):
        if n is None:
            continue
        recs = [records.ident(SIBS[k][0])] + hier.mesh(hier.seed_of(k), 2)[:4]
        if letter == 'R':
            recs.insert(0, records.irecsize())
        write_file(os.path.join(d, base + ext), recs + LOWER[letter][n][1] +
                   [records.iend()], lay)
    return p


def perform_siblings(d, *args):
    os.mkdir(d)
    p = write_siblings(d, *args)
    dst = os.path.join(d, 'out.h5')
    try:
        fs().sif2hdf5(p, dst)
    except Exception:
        return 'error', None
    return 'ok', h5.file_content(dst)


def of_group(content, letter, k):
    """what is stored for the lower file k (None: for the top level file)"""
    lower = ['/%s10/%s%d' % (letter, letter, SIBS[i][0]) +
             ('_1' if letter == 'R' else '') for i in range(1, 4)]

    def owner(path):
        for i, g in enumerate(lower):
            if path == g or path.startswith(g + '/'):
                return i
        return None
    return sorted((x, v) for x, v in content.items() if owner(x) == k)


def setup_siblings(root):
    for letter in 'RT':
        for fmt in 'FU':
            for n in LOWER[letter]:
                for k in range(4):
                    names = [None] * 3
                    top = 'plain'
                    if k < 3:
                        names[k] = n
                    else:
                        top = n
                    d = os.path.join(root, 'sib')
                    r = in_child(lambda: perform_siblings(d, letter, fmt, top,
                                                          names))
                    shutil.rmtree(d)
                    SIBREF[letter, fmt, n, k if k < 3 else None] = (
                        r[0], r[1] and of_group(r[1], letter,
                                                k if k < 3 else None))


def run_siblings(p, env):
    letter, fmt, top = p['siblings']
    for n, v in LOWER[letter].items():
        for k in (None, 0, 1, 2):
            got = SIBREF[letter, fmt, n, k][0]
            if got != ('ok' if v[0] else 'error'):
                raise Violation('conversion of a hierarchy with one lower '
                                'file (%s) in a fresh session: %s' % (n, got))
    for names in itertools.product(LOWER[letter], repeat=3):
        res = perform_siblings(env.path() + '/x', letter, fmt, top, names)
        env.step()
        bad = [n for n in (top,) + names if not LOWER[letter][n][0]]
        what = '%s %s hierarchy of %s, %s' % (fmt, letter, top, list(names))
        if (res[0] == 'error') != bool(bad):
            raise Violation('%s: outcome %s, but %s' % (
                what, res[0], 'the file with %s cannot be converted' % bad[0]
                if bad else 'each of the files can be converted'))
        env.state((letter, fmt, top, names))
        env.outcome((letter, 'sib', res[0]))
        env.trace()
        if bad:
            continue
        for k, n in enumerate((top,) + names):
            k = k - 1 if k else None
            want = dict(SIBREF[letter, fmt, n, k][1])
            got = dict(of_group(res[1], letter, k))
            d = h5.diff_content(want, got)
            if d:
                raise Violation('%s: file %s: %s' % (what, k, d))


EXPECT_ERROR = {'T_noelem', 'T_noident', 'R_nopoints', 'R_noresref',
                'R_nocomp', 'only_bad', 'cut_T', 'hier_R_cut'}


def scenarios(tier):
    yield {'history': [], 'depth': 1}
    for letter in 'RT':
        for fmt in 'FU':
            for top in LOWER[letter]:
                yield {'siblings': [letter, fmt, top]}
    for a in NAMES:
        yield {'history': [a], 'depth': 1}
    seq = de_bruijn(len(NAMES), 3)
    n = (len(seq) + 47) // 48
    for i in range(0, len(seq), n):
        yield {'chain': [NAMES[k] for k in
                         (seq + seq[:2])[i:i + n + 2]]}
    if tier == 'thorough':
        for a in NAMES:
            for b in NAMES:
                yield {'history': [a, b], 'depth': 2}


def de_bruijn(k, n):
    a, out = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                out.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return out


def compare(name, res, hist):
    ref = REF[name]
    if res[0] != ref[0]:
        raise Violation('%s after %s: outcome %s, in a fresh session %s' % (
            name, hist, res[0], ref[0]))
    if ref[0] == 'ok':
        d = h5.diff_content(ref[1], res[1])
        if d:
            raise Violation('%s after %s: %s' % (name, hist, d))


def run(p, env):
    if 'siblings' in p:
        return run_siblings(p, env)
    hist = []
    for k, (n, r) in enumerate(sorted(REF.items())):
        want = 'error' if n in EXPECT_ERROR else 'ok'
        if r[0] != want:
            raise Violation('conversion of %s in a fresh session: %s, '
                            'expected %s' % (n, r[0], want))
    if 'chain' in p:
        for n in p['chain']:
            d = env.path()
            res = perform(n, d + '/x')
            env.step()
            shutil.rmtree(d)
            compare(n, res, hist)
            hist.append(n)
            if len(hist) > 2:
                env.state((hist[-3:], res[0]))
                env.trace()
            env.outcome((n, res[0]))
        return
    for n in p['history']:
        res = perform(n, env.path() + '/x')
        env.step()
        compare(n, res, hist)
        hist.append(n)
    explore(env, hist, p['depth'])


def explore(env, hist, depth):
    for n in NAMES:
        d = env.path()

        def sub():
            r = perform(n, d + '/x')
            if depth > 1:
                e2 = core.Env(d)
                try:
                    compare(n, r, hist)
                    explore(e2, hist + [n], depth - 1)
                except Violation as v:
                    return ('violation', str(v))
                return r + ((e2.transitions, e2.traces, e2.states),)
            return r
        res = in_child(sub)
        env.step()
        if res[0] == 'violation':
            raise Violation(res[1])
        if len(res) > 2:
            env.transitions += res[2][0]
            env.traces += res[2][1]
            env.states |= res[2][2]
        compare(n, res, hist)
        env.state((hist[-2:], n, res[0]))
        env.outcome((n, res[0]))
        env.trace()
        shutil.rmtree(d)

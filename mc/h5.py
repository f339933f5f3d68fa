"""Reading converted files back with plain PyTables, and comparing with the
expectation (see records.expected)."""
import numpy as np
import tables as tb

from .core import Violation

GROUP_ATTRS = ('RECORDS', 'LEVEL', 'INDEX', 'DATATYPE', 'SELTYP', 'FILETYPE')


# administrative records may or may not be listed
ADMIN = ('IRECSIZE', 'IEND', 'IDENT', 'DATE', 'HIERARCH')


def _plain(x):
    if isinstance(x, bytes):
        return x.decode('latin-1')
    if isinstance(x, np.generic):
        return x.item()
    return x


def node_content(node):
    data = node.read()
    data = np.asarray(data)
    return (str(data.dtype.descr if data.dtype.names else data.dtype),
            data.shape, data.tobytes())


def group_content(group, attrs=True):
    """{leaf: content} and attributes of one group (not its subgroups)"""
    out = {}
    for name, leaf in group._v_leaves.items():
        out[name] = node_content(leaf)
    if attrs:
        a = {}
        for n in group._v_attrs._f_list('user'):
            x = group._v_attrs[n]
            if n == 'RECORDS':   # administrative records are not of interest
                x = [r for r in x if str(r).lower() in group._v_leaves]
            a[n] = repr(_plain(x))
        out['@attrs'] = tuple(sorted(a.items()))
    return out


def file_content(fname, attrs=True):
    """{group path: {leaf: content}} of a whole file"""
    f = tb.open_file(fname, 'r')
    try:
        out = {}
        for g in f.walk_groups('/'):
            c = group_content(g, attrs)
            if g._v_pathname == '/':
                c.pop('@attrs', None)
                if not c:
                    continue
            out[g._v_pathname] = c
        return out
    finally:
        f.close()


def diff_content(a, b):
    """short description of the first difference, or None"""
    for g in sorted(set(a) | set(b)):
        if g not in a or g not in b:
            return 'group %s only in %s' % (g, 'one' if g in a else 'other')
        x, y = a[g], b[g]
        for n in sorted(set(x) | set(y)):
            if n not in x or n not in y:
                return '%s/%s only in %s' % (g, n, 'one' if n in x else
                                             'other')
            if x[n] != y[n]:
                if n == '@attrs':
                    return '%s attributes %r != %r' % (g, x[n], y[n])
                return '%s/%s differs (%s %s / %s %s)' % (
                    g, n, x[n][0], x[n][1], y[n][0], y[n][1])
    return None


def _same(col, values, dtype):
    exp = np.array(values, dtype=dtype)
    exp = exp.reshape((len(values),) + col.shape[1:]) if len(values) else exp
    return (col.shape == exp.shape or (not len(values) and not len(col))) \
        and np.array_equal(col, exp)


def _text(b):
    if isinstance(b, bytes):
        b = b.decode('latin-1')
    return str(b).rstrip()


def check_group(f, path, exp, where=''):
    """compare the tables and arrays of a group with the expectation; the
    group must not hold any other tables"""
    if path not in f:
        raise Violation('%sgroup %s is missing, groups are %s' % (
            where, path, [g._v_pathname for g in f.walk_groups('/')]))
    g = f.get_node(path)
    names = set(n for n, leaf in g._v_leaves.items()
                if isinstance(leaf, tb.Table))
    want = set(n.lower() for n in exp)
    if names != want:
        raise Violation('%s%s: tables %s, expected %s' % (
            where, path, sorted(names - want) or names,
            sorted(want - names) or want))
    listed = [str(_plain(x)) for x in g._v_attrs['RECORDS']] \
        if 'RECORDS' in g._v_attrs else []
    odd = set(x for x in listed if x not in ADMIN) ^ set(
        x for x in exp if x not in ADMIN)
    if odd or len(set(listed)) != len(listed):
        raise Violation('%s%s: listed record types %s, in the group %s' % (
            where, path, listed, sorted(exp)))
    for n in sorted(exp):
        check_table(f, path, n, exp[n], where)


def check_table(f, path, name, exp, where=''):
    lname = name.lower()
    tab = f.get_node(path, lname).read()
    rows = exp['rows']
    w = '%s%s/%s: ' % (where, path, lname)
    if len(tab) != len(rows):
        raise Violation('%s%d rows, %d records on the file' % (
            w, len(tab), len(rows)))
    cols = set()
    for r in rows:
        cols.update(r)
    for c in sorted(cols):
        if c not in tab.dtype.names:
            raise Violation('%sno column %s' % (w, c))
        vals = [r[c] for r in rows]
        if vals and isinstance(vals[0], tuple) and vals[0][0] == 'text':
            got = [_text(x) for x in tab[c]]
            if got != [_text(v[1]) for v in vals]:
                raise Violation('%s%s is %r, expected %r' % (w, c, got, vals))
            continue
        dt = tab.dtype[c].base
        if not _same(tab[c], vals, dt):
            k = next(k for k in range(len(rows)) if not np.array_equal(
                tab[c][k], np.array(vals[k], dtype=dt)))
            raise Violation('%s%s of record %d is %r, on the file %r' % (
                w, c, k, tab[c][k].tolist(), vals[k]))
        # a value with a fraction must not have been stored as an integer
        if dt.kind in 'iu':
            k = next((k for k, v in enumerate(vals)
                      if np.any(np.array(v) != np.array(v, dtype=dt))), None)
            if k is not None:
                raise Violation('%s%s of record %d is stored as %s: %r' % (
                    w, c, k, dt, vals[k]))
    for a, items in exp['vl'].items():
        try:
            arr = f.get_node(path, '%s_%s' % (lname, a)).read()
        except tb.NoSuchNodeError:
            raise Violation('%sarray %s is missing' % (w, a))
        start, stop = tab[a + '_start'], tab[a + '_stop']
        if isinstance(arr, list):
            arr = np.array(arr)
        flat, lens = [], []
        for it in items:
            flat.extend(it)
            lens.append(len(it))
        glen = [max(0, int(q) - int(p)) for p, q in zip(start, stop)]
        if glen != lens:
            k = next(k for k in range(len(lens)) if glen[k] != lens[k])
            raise Violation('%s%s of record %d has %d items (%d:%d), on the '
                            'file %d' % (w, a, k, glen[k], start[k], stop[k],
                                         lens[k]))
        idx = np.concatenate([np.arange(p, q) for p, q in zip(start, stop)]
                             or [np.zeros(0)]).astype(int)
        if len(idx) and (idx.max() >= len(arr) or idx.min() < 0):
            raise Violation('%s%s slices go beyond the array (%d items)' % (
                w, a, len(arr)))
        got = arr[idx]
        if flat and isinstance(flat[0], tuple) and flat[0][0] == 'text':
            got = [_text(x) for x in got]
            if got != [_text(v[1]) for v in flat]:
                raise Violation('%s%s is %r, expected %r' % (
                    w, a, got, [v[1] for v in flat]))
        elif flat and not _same(got, flat, arr.dtype):
            e = np.array(flat, dtype=arr.dtype).reshape(got.shape)
            k = int(np.nonzero((got != e).reshape(len(got), -1).any(1))[0][0])
            r = int(np.searchsorted(np.cumsum(lens), k, side='right'))
            raise Violation('%s%s of record %d: item is %r, on the file %r' % (
                w, a, r, got[k].tolist(), flat[k]))

"""Independent decoder of vtu files, see c20 and c21."""
import base64
import struct
import xml.etree.ElementTree as ET

import numpy as np

from .core import Violation

NUMPY = {'Int8': 'i1', 'UInt8': 'u1', 'Int16': 'i2', 'UInt16': 'u2',
         'Int32': 'i4', 'UInt32': 'u4', 'Int64': 'i8', 'UInt64': 'u8',
         'Float32': 'f4', 'Float64': 'f8'}
# order of the nodes in the connectivity, by element type; and of results
# given per node of an element
CON = {23: [0, 2, 1], 28: [0, 2, 4, 6, 1, 3, 5, 7]}
RES = {26: [0, 2, 4, 1, 3, 5]}
VTKTYPE = {15: 3, 23: 21, 24: 9, 25: 5, 26: 22, 28: 23}


def array(el, order, header):
    """(name, dtype, components, component names, values)"""
    if el.tag != 'DataArray' or el.get('format') != 'binary':
        raise Violation('unexpected element %s %s' % (el.tag, el.attrib))
    dt = np.dtype(order + NUMPY[el.get('type')])
    raw = base64.b64decode((el.text or '').strip(), validate=True)
    hs = struct.calcsize(header)
    n, = struct.unpack(header, raw[:hs])
    if n != len(raw) - hs:
        raise Violation('array %r: header says %d bytes, there are %d' % (
            el.get('Name'), n, len(raw) - hs))
    ncomp = int(el.get('NumberOfComponents'))
    v = np.frombuffer(raw[hs:], dt)
    if ncomp < 1 or len(v) % ncomp:
        raise Violation('array %r: %d values in %d components' % (
            el.get('Name'), len(v), ncomp))
    comp = {}
    for k, x in el.attrib.items():
        if k.startswith('ComponentName'):
            comp[int(k[13:])] = x
        elif k not in ('type', 'Name', 'NumberOfComponents', 'format'):
            raise Violation('unexpected attribute %s' % k)
    return (el.get('Name'), dt.newbyteorder('=').name, ncomp,
            [comp[k] for k in sorted(comp)] if sorted(comp) == list(
                range(len(comp))) else comp, v.reshape(-1, ncomp))


def read(path):
    """[{'points', 'cells': (con, off, types), 'n': (points, cells),
    'blocks': [(tag, [array])]}]"""
    try:
        root = ET.parse(path).getroot()
    except ET.ParseError as e:
        raise Violation('not well-formed: %s' % e)
    if root.tag != 'VTKFile' or root.get('type') != 'UnstructuredGrid':
        raise Violation('root element is %s %s' % (root.tag, root.attrib))
    # attribute header_type belongs to version 1.0
    if root.get('version') not in ('1.0', '2.0', '2.1', '2.2'):
        raise Violation('version of the format: %s' % root.get('version'))
    order = {'LittleEndian': '<', 'BigEndian': '>'}[root.get('byte_order')]
    header = order + {'UInt64': 'Q', 'UInt32': 'I'}[root.get('header_type')]
    if [x.tag for x in root] != ['UnstructuredGrid']:
        raise Violation('children of the root: %s' % [x.tag for x in root])
    out = []
    for p in root[0]:
        if p.tag != 'Piece':
            raise Violation('%s in the grid' % p.tag)
        d = {'n': (int(p.get('NumberOfPoints')), int(p.get('NumberOfCells'))),
             'blocks': []}
        tags = [x.tag for x in p]
        if tags[:2] != ['Points', 'Cells']:
            raise Violation('a piece has the elements %s' % tags)
        a = [array(x, order, header) for x in p[0]]
        if len(a) != 1 or a[0][2] != 3:
            raise Violation('points: %s' % (a,))
        d['points'] = a[0]
        c = dict((x[0], x) for x in
                 [array(x, order, header) for x in p[1]])
        if sorted(c) != ['connectivity', 'offsets', 'types'] or \
                len(p[1]) != 3:
            raise Violation('cells: %s' % sorted(c))
        d['cells'] = tuple(c[k] for k in ('connectivity', 'offsets', 'types'))
        for b in p[2:]:
            if b.tag not in ('PointData', 'CellData'):
                raise Violation('a piece has the elements %s' % tags)
            d['blocks'].append((b.tag, [array(x, order, header) for x in b]))
        out.append(d)
    return out


def reorder(values, offsets, types, how):
    """list of rows in the order of the nodes of the vtk element"""
    out = []
    start = 0
    for stop, t in zip(offsets, types):
        rows = [values[i] for i in range(start, stop)]
        p = how.get(int(t))
        out += [rows[i] for i in p] if p else rows
        start = stop
    return out


def same_array(got, name, arr, compnames, what, rows=None):
    """compare a decoded array with the one given to the writer"""
    arr = np.asarray(arr)
    nc = 1 if arr.ndim == 1 else arr.shape[1]
    exp = np.array(rows if rows is not None else arr,
                   dtype=arr.dtype.newbyteorder('=')).reshape(-1, nc)
    w = '%s: array %r' % (what, name)
    if got[0] != name:
        raise Violation('%s has the name %r' % (w, got[0]))
    if got[1] != arr.dtype.name:
        raise Violation('%s has the type %s, expected %s' % (
            w, got[1], arr.dtype.name))
    if got[2] != nc:
        raise Violation('%s has %d components, expected %d' % (
            w, got[2], nc))
    if got[3] != list(compnames or []):
        raise Violation('%s has the component names %r, expected %r' % (
            w, got[3], compnames))
    g = np.ascontiguousarray(got[4].astype(exp.dtype))
    if g.shape != exp.shape or g.tobytes() != \
            np.ascontiguousarray(exp).tobytes():
        raise Violation('%s has the values %s, expected %s' % (
            w, g.tolist(), exp.tolist()))


def same_piece(d, points, cells, what):
    con, off, typ = cells
    if d['n'] != (len(points), len(off)):
        raise Violation('%s: the piece has %s points and cells, expected '
                        '%s' % (what, d['n'], (len(points), len(off))))
    if not np.array_equal(d['points'][4], np.asarray(points)) or \
            d['points'][1] != np.asarray(points).dtype.name:
        raise Violation('%s: points are %s %s' % (
            what, d['points'][1], d['points'][4].tolist()))
    exp = (reorder(con, off, typ, CON), off, [VTKTYPE[int(t)] for t in typ])
    for got, e, name in zip(d['cells'], exp, ('connectivity', 'offsets',
                                              'types')):
        if [int(x) for x in got[4].ravel()] != [int(x) for x in e] or \
                got[2] != 1 or 'int' not in got[1]:
            raise Violation('%s: %s is %s, expected %s' % (
                what, name, got[4].ravel().tolist(), list(e)))

"""Independent encoder for SESAM interface files (formatted and unformatted).

A record is a ``Rec``; ``encode`` turns a list of them into the bytes of a
file, with every choice the physical format leaves open given explicitly in a
``Layout``.  Nothing here uses the code under test.
"""
import struct

BLANK8 = ' ' * 8


class Rec(object):
    """One SESAM record.

    kind   'I' input record (continuation lines have 8 leading blanks),
           'R' result record (plain continuation values, field count first),
           'T' text record (DATE, TEXT), 'D' description record (TDxxxxxx),
           'H' header only.
    head   the (up to) four values of the header line
    cont   list of groups of values; each group starts on a new line ('I')
    text   list of text lines ('T', 'D')
    table  name of the table the record should end up in (None: nowhere)
    row    expected fields {column: value}
    vl     expected variable length parts {array: [items]}
    opt    number of trailing values in the last group which may be left out
    """

    __slots__ = ('name', 'kind', 'head', 'cont', 'text', 'table', 'row', 'vl',
                 'opt')

    def __init__(self, name, kind, head, cont=(), text=(), row=None, vl=None,
                 table=True, opt=0):
        self.name = name
        self.kind = kind
        self.head = [float(x) for x in head]
        self.cont = [[float(x) for x in g] for g in cont if len(g)]
        self.text = list(text)
        self.row = row
        self.vl = vl or {}
        self.table = table and row is not None
        self.opt = opt


class Layout(object):
    """The choices left open by the physical format.

    fmt     'F' or 'U'
    chunk   U: physical record length of result records in values.  An int or
            a list that is used cyclically (over the whole file, so that all
            alignments occur)
    pad     pad the last line of an input record to four values
    eol     F: line terminator
    lead    U: length byte written for a full (128 byte) record that is
            continued: 128 or 129
    tail    U: write the final 0x82 byte
    full    F: values use the full width of their 16 columns
    hpad    header lines have four values also if the record has fewer
    """

    def __init__(self, fmt='F', chunk=32, pad=True, eol='\n', lead=129,
                 tail=True, full=False):
        self.full = full
        self.fmt = fmt
        self.chunk = chunk
        self.pad = pad
        self.eol = eol
        self.lead = lead
        self.tail = tail

    def as_dict(self):
        return dict(self.__dict__)


def ffloat(x, full=False):
    if full:    # no blanks between values; one or two zeros more at the end
        s = '{:.8E}'.format(x)
        m, e = s.split('E')
        return m + '0' * (15 - len(m) - len(e)) + 'E' + e
    return '{:16.8E}'.format(x)


def encode(recs, lay):
    if lay.fmt == 'F':
        return _encode_f(recs, lay)
    return _encode_u(recs, lay)


def _padded(group, pad, n=4):
    out = list(group)
    if pad:
        while len(out) % n:
            out.append(0.)
    return out


def record_lines_f(r, lay):
    """list of (without terminator) lines of a formatted record"""
    lines = ['{:<8}'.format(r.name) + ''.join(
        ffloat(x, lay.full) for x in r.head)]
    for g in r.cont:
        g = _padded(g, lay.pad)
        for i in range(0, len(g), 4):
            lines.append(BLANK8 + ''.join(
                ffloat(x, lay.full) for x in g[i:i+4]))
    for t in r.text:
        lines.append(BLANK8 + t)
    return lines


def _encode_f(recs, lay):
    out = []
    for r in recs:
        out.extend(record_lines_f(r, lay))
    return (lay.eol.join(out) + lay.eol).encode('latin-1')


def _phys(payload, cont=False, lay=None):
    n = len(payload)
    assert 0 < n <= 128, n
    b = n
    if n == 128 and cont and lay is not None:
        b = lay.lead
    return bytes([b]) + payload + bytes([b])


def _pack(values):
    return struct.pack('{}f'.format(len(values)), *values)


class _Chunker(object):
    def __init__(self, chunk):
        self.sizes = [chunk] if isinstance(chunk, int) else list(chunk)
        self.i = 0

    def next(self):
        s = self.sizes[self.i % len(self.sizes)]
        self.i += 1
        return s


def record_phys_u(r, lay, chunker):
    """list of physical records (with length bytes)"""
    out = [_phys(r.name.ljust(8).encode('latin-1') + _pack(r.head))]
    if r.kind == 'I':
        for g in r.cont:
            g = _padded(g, lay.pad)
            for i in range(0, len(g), 4):
                out.append(_phys(BLANK8.encode() + _pack(g[i:i+4])))
    elif r.kind == 'R':
        vals = [x for g in r.cont for x in g]
        i = 0
        if getattr(lay, 'only', None) is not None:
            chunker = _Chunker(lay.sizes if r.name == lay.only else 32)
        while i < len(vals):
            n = chunker.next()
            part = vals[i:i+n]
            i += n
            out.append(_phys(_pack(part), cont=i < len(vals), lay=lay))
    elif r.kind == 'T':
        for t in r.text:
            out.append(_phys((BLANK8 + t).ljust(72).encode('latin-1')))
    elif r.kind == 'D':
        for t in r.text:
            out.append(_phys(t.encode('latin-1') or b' '))
    return out


def _encode_u(recs, lay):
    chunker = _Chunker(lay.chunk)
    out = [b'K']
    for r in recs:
        out.extend(record_phys_u(r, lay, chunker))
    if lay.tail:
        out.append(b'\x82')
    return b''.join(out)


def boundaries(recs, lay):
    """byte offsets (in the encoding of recs) just behind each record"""
    chunker = _Chunker(lay.chunk)
    pos = 1 if lay.fmt == 'U' else 0
    out = []
    for r in recs:
        if lay.fmt == 'U':
            pos += sum(len(p) for p in record_phys_u(r, lay, chunker))
        else:
            pos += sum(len(l) + len(lay.eol) for l in record_lines_f(r, lay))
        out.append(pos)
    return out

"""Data to encode, in every documented shape, with what it must read as."""
import datetime
import struct

from . import model
from .observe import freeze

REFUSE = object()


class Want:
    """One element that the encoded document must contain."""
    __slots__ = ('defn', 'value', 'children')

    def __init__(self, defn, value=None, children=None):
        self.defn, self.value, self.children = defn, value, children

    def __repr__(self):
        return '<%s %r>' % (self.defn and self.defn.name, self.value if self.children is None
                            else self.children)


def edge(ch):
    """ A number of bytes about where its encoding takes one more. """
    near = ch.weighted([(10, 127), (20, 16383), (8, 2097151)])
    return near + ch.pick([0, 0, -1, 1, -2, -3, -4, -5, 2])


def gen_value(ch, d, length=None, edges=False):
    """(python value, value it must read back as) for a leaf element."""
    kind = d.kind
    length = d.length if length is None else length
    if kind == 'uint':
        v = ch.pick([0, 1, 127, 128, 255, 256, 65535, 2 ** 32 - 1, 2 ** 32, 2 ** 56, 2 ** 63,
                     2 ** 64 - 1])
        if ch.chance(1, 3):
            v = ch.below(1 << ch.pick([8, 16, 33, 64]))
        return v, v if length is None or v < 1 << (8 * length) else REFUSE
    if kind == 'int':
        v = ch.pick([0, 1, -1, 127, 128, -128, -129, 255, -256, 32767, 32768, -32769,
                     2 ** 31, -2 ** 31 - 1, 2 ** 63 - 1, -2 ** 63, 2 ** 55, -2 ** 55 - 1])
        if ch.chance(1, 3):
            v = ch.below(1 << 64) - (1 << 63)
        if length is None or -(1 << (8 * length - 1)) <= v < 1 << (8 * length - 1):
            return v, v
        return v, REFUSE
    if kind == 'float':
        v = ch.pick([0.0, 1.5, -2.25, 1e300, 1.1, float('inf'), float('-inf'), float('nan'),
                     -0.0, 5e-324, 3.4e38, 7, 2 ** 53 + 1, 0, 16777217.0, 1e15 + 1, 2.0 ** 31 - 1])
        if ch.chance(1, 6):
            # whole numbers and short fractions around where precision ends
            v = float((1 << ch.between(20, 54)) + ch.between(-3, 3)) * ch.pick([1, -1, 0.5, 0.125])
        if length == 4:
            if isinstance(v, float) and v == 1e300:
                return v, REFUSE
            return v, struct.unpack('>f', struct.pack('>f', v))[0]
        return v, float(v)
    if kind == 'str':
        v = ch.pick(['', 'a', 'Hello', 'x<y>&"z', '~ !', 'long text, longer than most',
                     'Z\u00fcrich', 'tab\tnl\n', '\x7f'])
        v *= ch.pick([1, 1, 1, 9, 20])
        b = v.encode('ascii', 'replace')
        if ch.chance(1, 4):
            v = ch.pick([bytes, bytearray])(b)
        b = bytes(c if 32 <= c < 127 else 63 for c in b)
        if length is not None:
            b = b[:length]
        return v, b.decode('ascii')
    if kind == 'utf8':
        v = ch.pick([t for t in model.TEXTS]) * ch.pick([1, 1, 1, 7, 40])
        b = v.encode('utf-8')
        if length is not None and len(b) > length:
            b = b[:length]
            try:
                return v, b.decode('utf-8')
            except UnicodeDecodeError:
                return v, ('cut', b)
        return v, v
    if kind == 'date':
        v = ch.pick([datetime.datetime(2001, 1, 1), datetime.datetime(2001, 1, 1, 0, 0, 0, 1),
                     datetime.datetime(2000, 12, 31, 23, 59, 59, 999999),
                     datetime.datetime(1970, 1, 1), datetime.datetime(2026, 2, 28, 12, 30, 15, 250),
                     datetime.datetime(1710, 1, 1), datetime.datetime(2292, 1, 1, 1, 1, 1, 7)])
        if ch.chance(1, 3):
            v = datetime.datetime(2001, 1, 1) + datetime.timedelta(
                microseconds=ch.below(1 << 53) - (1 << 52))
        if ch.chance(1, 20):
            return ch.pick([datetime.datetime.min, datetime.datetime.max]), REFUSE
        return v, v
    if kind == 'bin':
        v = ch.data(ch.pick([0, 1, 5, 126, 127, 128, 300]))
        if edges and length is None and ch.chance(1, 8):
            v = ch.data(edge(ch))
        style = ch.below(4)
        if style == 1:
            v = bytearray(v)
        elif style == 2:
            v = None if ch.chance(1, 2) else '\u00e9text'
        b = b'' if v is None else v.encode('utf-8') if isinstance(v, str) else bytes(v)
        if length is not None and len(b) > length:
            return v, REFUSE
        return v, bytearray(b.ljust(length or 0, b'\0'))
    if kind == 'void':
        return ch.pick([None, b'zz', 7, '']), bytearray()
    raise AssertionError(kind)


class Gen:
    """Draws data and the elements it stands for."""

    def __init__(self, ch, m, bad=0, nodes=25, depth=4, edges=False):
        self.ch, self.m = ch, m
        self.edges = edges
        self.left = nodes
        self.depth = depth
        self.bad = bad
        self.shapes = set()

    def key(self, d):
        return d.eid if self.ch.chance(1, 8) else d.name

    def leaf(self, d):
        v, w = gen_value(self.ch, d, edges=self.edges)
        if self.bad and self.ch.chance(self.bad, 1000):
            v = self.ch.pick([{'x': 1}, object, 3 + 4j])
            if d.kind != 'void':
                w = REFUSE
        self.left -= 1
        return v, Want(d, w)

    def master(self, d, depth):
        self.left -= 1
        if self.ch.chance(1, 10):
            self.shapes.add('None')
            return None, Want(d, children=[])
        data, kids = self.content(d, depth + 1)
        return data, Want(d, children=kids)

    def pick(self, d):
        ch, m = self.ch, self.m
        ids = list(m.roots) if d is None else list(d.children) + sorted(m.globals)
        if ch.chance(1, 12):
            ids = sorted(m.byid)      # the hierarchy is not enforced
        ids = [i for i in ids if m.byid[i].name != 'EBML']
        return m.byid[ch.pick(ids)] if ids else None

    def one(self, d, depth):
        """(value for this element's key, [Want, ...])."""
        ch = self.ch
        if d.kind != 'master':
            if d.multiple and ch.chance(1, 3):
                vals = [self.leaf(d) for _ in range(ch.below(4))]
                self.shapes.add('list of values')
                seq = [v for v, _ in vals]
                return (tuple(seq) if ch.chance(1, 4) else seq), [w for _, w in vals]
            v, w = self.leaf(d)
            return v, [w]
        if d.multiple and ch.chance(1, 3):
            vals = [self.master(d, depth) for _ in range(ch.between(1, 3))]
            if all(isinstance(v, dict) for v, _ in vals):
                self.shapes.add('list of dicts')
                return [v for v, _ in vals], [w for _, w in vals]
            if all(isinstance(v, list) and v for v, _ in vals):
                self.shapes.add('list of lists')
                return [v for v, _ in vals], [w for _, w in vals]
            return vals[0][0], [vals[0][1]]
        v, w = self.master(d, depth)
        return v, [w]

    def content(self, d, depth):
        """(data, wanted elements) of a master, or of the document (d None)."""
        ch = self.ch
        shape = ch.weighted([(3, 'dict'), (3, 'tuples')])
        items, want = [], []
        if depth <= self.depth:
            for _ in ch.repeat(8, 4):
                if self.left <= 0:
                    break
                c = self.pick(d)
                if c is None:
                    break
                k = self.key(c)
                if shape == 'dict' and any(self.m.byid.get(x, None) is c or x == c.name
                                           for x, _ in items):
                    continue
                v, w = self.one(c, depth)
                items.append((k, v))
                want.extend(w)
        if self.bad and ch.chance(self.bad, 2000):
            items.append(('NoSuchElement', 1))
            want.append(Want(None, REFUSE))
        if shape == 'dict' or not items:
            self.shapes.add('dict')
            return dict(items), want
        self.shapes.add('tuples')
        return items, want


def document(ch, m, bad=0, nodes=25, edges=False):
    """(data, wanted root elements, Gen)."""
    g = Gen(ch, m, bad, nodes, edges=edges)
    data, want = g.content(None, 1)
    if ch.chance(1, 30) or not want:
        data, want = ch.pick([{}, [], ()]), []
        g.shapes.add('empty')
    e = m.byname.get('EBML')
    if e is not None and e.kind == 'master' and ch.chance(1, 8):
        # the caller's own header
        v, w = g.master(e, 1)
        g.shapes.add('own header')
        want = [w] + want
        data = dict([('EBML', v)] + list(data.items())) if isinstance(data, dict) \
            else [('EBML', v)] + list(data)
    if isinstance(data, dict) and data and ch.chance(1, 4):
        items = list(data.items())
        k = ch.below(len(items) + 1)
        data = [dict(items[:k]), dict(items[k:])]
        g.shapes.add('document list of dicts')
    elif isinstance(data, list) and ch.chance(1, 4):
        data = tuple(data)
        g.shapes.add('tuple of tuples')
    return data, want, g


def values(wants):
    for w in wants:
        if w.children is None:
            yield w.value
        else:
            yield from values(w.children)


def refused(wants):
    return any(v is REFUSE for v in values(wants))


def has_cut(wants):
    return any(isinstance(v, tuple) for v in values(wants))


def freeze_data(v):
    """A deep, comparable copy of data, including its exact types."""
    if isinstance(v, dict):
        return ('dict', tuple((k, freeze_data(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(freeze_data(x) for x in v))
    if isinstance(v, bytearray):
        return ('bytearray', bytes(v))
    if isinstance(v, float):
        return freeze(v)
    return (type(v).__name__, v)


def same(w, node):
    """Does a parsed node carry the wanted leaf value?"""
    if isinstance(w.value, tuple):               # text cut inside a character
        return node.payload[:len(w.value[1])] == w.value[1]
    got = model.leaf_value(node.kind, node.payload)
    if isinstance(w.value, float):
        return got == w.value or (got != got and w.value != w.value)
    return model.same_value(got, w.value)

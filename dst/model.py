"""Independent executable model of EBML schemata and documents.

Nothing here imports the code under test.  It provides
  * SchemaModel: definitions, as generated at random or read from the shipped
    schema files, and the XML text that defines them;
  * Node: one element of a document, with the bytes it is stored as and the
    value, offsets and children that reading it must report;
  * gen_document: random documents (boundary-biased sizes, size lengths, ids);
  * refparse: a reference decoder for the documented format.
"""
import datetime
import glob
import os
import struct
from xml.etree import ElementTree as ET
from xml.sax.saxutils import quoteattr

KINDS = ('uint', 'int', 'float', 'str', 'utf8', 'date', 'bin')
TAGS = {'uint': 'UIntegerElement', 'int': 'IntegerElement', 'float': 'FloatElement',
        'str': 'StringElement', 'utf8': 'UnicodeElement', 'date': 'DateElement',
        'bin': 'BinaryElement', 'master': 'MasterElement', 'void': 'BinaryElement'}
TAG_KIND = {'UIntegerElement': 'uint', 'IntegerElement': 'int', 'FloatElement': 'float',
            'StringElement': 'str', 'UnicodeElement': 'utf8', 'DateElement': 'date',
            'BinaryElement': 'bin', 'MasterElement': 'master'}
EPOCH = datetime.datetime(2001, 1, 1)


class Def:
    def __init__(self, eid, name, kind, multiple=False, mandatory=False, glob=False,
                 precache=None, length=None, default=None):
        self.eid = eid
        self.name = name
        self.kind = kind
        self.multiple = multiple
        self.mandatory = mandatory
        self.glob = glob
        self.precache = precache
        self.length = length
        self.default = default
        self.children = []          # ids, in definition order

    def __repr__(self):
        return '<%s %s 0x%X>' % (self.kind, self.name, self.eid)


class SchemaModel:
    def __init__(self):
        self.byid = {}
        self.byname = {}
        self.roots = []
        self.globals = set()
        self.doctype = None
        self.version = None
        self.xml = None
        self.file = None            # shipped schema file, if any

    def add(self, d, parent=None):
        if d.eid not in self.byid:
            self.byid[d.eid] = d
            self.byname[d.name] = d
            if d.glob:
                self.globals.add(d.eid)
        lst = self.roots if parent is None else parent.children
        if d.eid not in lst:
            lst.append(d.eid)
        return d

    def valid_child(self, d, eid):
        """Is eid allowed inside an unknown-size master defined by d?"""
        return bool(d.children) and (eid in d.children or eid in self.globals)

    def finish(self):
        dt = self.byid.get(0x4282)
        self.doctype = dt.default if dt else None
        dv = self.byid.get(0x4287)
        self.version = int(dv.default) if dv and dv.default else None


# ---------------------------------------------------------------------------
# Schemata
# ---------------------------------------------------------------------------

def _bool(v, default=False):
    return default if not v else v.strip()[0] in 'Tt1'


def read_schema_file(path):
    """Model of a shipped schema definition."""
    m = SchemaModel()
    m.file = os.path.basename(path)

    def crawl(el, parent):
        kind = TAG_KIND.get(el.tag)
        if kind is None:
            return
        a = el.attrib
        eid = int(a['id'], 16) if 'id' in a else None
        name = a['name'].strip() if 'name' in a else None
        d = m.byid.get(eid) or m.byname.get(name)
        if d is None:
            length = a.get('length')
            g = a.get('global')
            isg = int(g) != 0 if g is not None and g.strip().isdigit() else (
                a.get('level', '').strip() == '-1')
            d = Def(eid, name, kind, _bool(a.get('multiple')), _bool(a.get('mandatory')), isg,
                    _bool(a.get('precache')) if 'precache' in a else None,
                    int(length, 0) if length else None, a.get('default'))
            if name == 'Void':
                d.kind = 'void'
        m.add(d, parent)
        if kind == 'master':
            for ch in el:
                crawl(ch, d)

    for ch in ET.parse(path).getroot():
        crawl(ch, None)
    m.finish()
    return m


_shipped = {}


def shipped(repo):
    if not _shipped:
        for p in sorted(glob.glob(os.path.join(repo, 'ebmlite', 'schemata', '*.xml'))):
            _shipped[os.path.basename(p)] = read_schema_file(p)
    return _shipped


def gen_eid(ch, used, lo_class=0):
    """An unused, valid element id of a random class."""
    for _ in range(200):
        c = ch.weighted([(6, 0), (4, 1), (2, 2), (2, 3)])
        c = max(c, lo_class)
        lo, hi = ((0x81, 0xFE), (0x4080, 0x7FFE), (0x204000, 0x3FFFFE),
                  (0x10200000, 0x1FFFFFFE))[c]
        eid = lo + ch.below(hi - lo + 1)
        if eid not in used:
            used.add(eid)
            return eid
    for eid in range(0x4080, 0x7FFE):
        if eid not in used:
            used.add(eid)
            return eid


HEADER = (('EBMLVersion', 0x4286, 'uint', '1'), ('EBMLReadVersion', 0x42F7, 'uint', '1'),
          ('EBMLMaxIDLength', 0x42F2, 'uint', '4'), ('EBMLMaxSizeLength', 0x42F3, 'uint', '8'),
          ('DocType', 0x4282, 'str', 'simdoc'), ('DocTypeVersion', 0x4287, 'uint', '3'),
          ('DocTypeReadVersion', 0x4285, 'uint', '2'))
RESERVED = {0x1A45DFA3, 0xEC, 0xBF, 0x80, 0xFF} | {h[1] for h in HEADER}


def gen_schema(ch, kinds=KINDS, lengths=False, doctype='simdoc', deep=True):
    m = SchemaModel()
    used = set(RESERVED)
    ebml = m.add(Def(0x1A45DFA3, 'EBML', 'master', multiple=ch.chance(1, 4), mandatory=True))
    for name, eid, kind, default in HEADER:
        if name == 'DocType':
            default = doctype
        m.add(Def(eid, name, kind, default=default), ebml)
    if not ch.chance(1, 5):
        m.add(Def(0xEC, 'Void', 'void', multiple=True, glob=True))
    if ch.chance(1, 3):
        m.add(Def(0xBF, 'Check', 'bin', multiple=ch.chance(1, 2), glob=True))
    if ch.chance(1, 4):
        m.add(Def(gen_eid(ch, used), 'GMaster', 'master', multiple=True, glob=True))
    masters = []

    def leaf(parent, i):
        kind = kinds[(i + ch.below(len(kinds))) % len(kinds)]
        d = Def(gen_eid(ch, used), '%s%d' % (kind.title(), i), kind, multiple=ch.chance(2, 3),
                precache=ch.pick([None, None, None, True, False]))
        if lengths and ch.chance(1, 4):
            d.length = {'uint': [8, 3], 'int': [8, 5], 'float': [8, 4], 'str': [12, 3],
                        'utf8': [16, 200], 'bin': [20, 130], 'date': [8]}[kind]
            d.length = ch.pick(d.length)
        return m.add(d, parent)

    nm = ch.between(1, 5)
    for i in range(nm):
        parent = None if i == 0 else ch.pick([None] + masters + masters)
        d = m.add(Def(gen_eid(ch, used), 'Master%d' % i, 'master', multiple=not ch.chance(1, 4)),
                  parent)
        masters.append(d)
    gm = m.byname.get('GMaster')
    homes = masters + ([gm] if gm else [])
    for i in range(ch.between(2, 12)):
        leaf(ch.pick(homes + [None] * (len(homes) // 3 + 1)), i)
    # repeated definitions: the same element valid in several masters
    for d in list(m.byid.values()):
        if d is ebml or d.eid in (x[1] for x in HEADER):
            continue
        if ch.chance(1, 5):
            home = ch.pick(homes)
            if d.eid not in home.children and (deep or d.kind != 'master'):
                m.add(d, home)
    m.xml = schema_xml(m)
    m.finish()
    return m


def schema_xml(m):
    seen = set()
    out = ['<?xml version="1.0" encoding="utf-8"?>', '<Schema>']

    def attrs(d, first):
        a = ['id="0x%X"' % d.eid, 'name=%s' % quoteattr(d.name)]
        # (definitions after the first need only one of the two)
        a = ' '.join(a if first or d.eid % 3 == 0 else a[d.eid % 3 - 1:][:1])
        if first:
            if d.multiple:
                a += ' multiple="1"'
            if d.mandatory:
                a += ' mandatory="1"'
            if d.glob:
                a += ' global="1"'
            if d.precache is not None:
                a += ' precache="%d"' % d.precache
            if d.length is not None:
                a += ' length="%d"' % d.length
            if d.default is not None:
                a += ' default=%s' % quoteattr(d.default)
        return a

    def emit(eid, ind):
        d = m.byid[eid]
        first = eid not in seen
        seen.add(eid)
        tag = TAGS[d.kind]
        if d.kind == 'master' and first and d.children:
            out.append('%s<%s %s>' % (ind, tag, attrs(d, first)))
            for c in d.children:
                emit(c, ind + ' ')
            out.append('%s</%s>' % (ind, tag))
        else:
            out.append('%s<%s %s/>' % (ind, tag, attrs(d, first)))

    for eid in m.roots:
        emit(eid, ' ')
    out.append('</Schema>')
    return '\n'.join(out)


# ---------------------------------------------------------------------------
# Documents
# ---------------------------------------------------------------------------

class Node:
    __slots__ = ('defn', 'eid', 'payload', 'children', 'size_len', 'unknown', 'offset',
                 'payload_off', 'end', 'parent', 'hdr')

    def __init__(self, defn, eid, payload=None, children=None, size_len=None, unknown=False):
        self.defn = defn
        self.eid = eid
        self.payload = payload
        self.children = children
        self.size_len = size_len
        self.unknown = unknown
        self.offset = self.payload_off = self.end = None
        self.parent = None
        self.hdr = None

    @property
    def kind(self):
        return self.defn.kind if self.defn else 'unknown'

    @property
    def name(self):
        return self.defn.name if self.defn else 'UnknownElement'

    @property
    def is_master(self):
        return self.kind == 'master'

    @property
    def size(self):
        return self.end - self.payload_off

    def body(self):
        if self.is_master:
            return b''.join(c.encoded() for c in self.children)
        return self.payload

    def encoded(self):
        body = self.body()
        return self.header(len(body)) + body

    def header(self, n):
        return enc_id(self.eid) + (enc_unknown(self.size_len or 1) if self.unknown
                                   else enc_size(n, self.size_len))

    def __repr__(self):
        return '<%s 0x%X @%s+%s%s>' % (self.name, self.eid, self.offset,
                                       None if self.end is None else self.size,
                                       ' unknown-size' if self.unknown else '')


def enc_id(eid):
    return eid.to_bytes((eid.bit_length() + 7) // 8, 'big')


def min_size_len(n):
    length = 1
    while n > (1 << (7 * length)) - 2:
        length += 1
    return length


def enc_size(n, length=None):
    length = max(length or 1, min_size_len(n))
    return ((1 << (7 * length)) | n).to_bytes(length, 'big')


def enc_unknown(length=1):
    return ((1 << (7 * length + 1)) - 1).to_bytes(length, 'big')


def layout(nodes, pos=0, parent=None):
    """Assign offsets; returns the end position."""
    for n in nodes:
        n.parent = parent
        n.offset = pos
        if n.is_master:
            body_len = sum(enc_len(c) for c in n.children)
        else:
            body_len = len(n.payload)
        n.hdr = n.header(body_len)
        n.payload_off = pos + len(n.hdr)
        if n.is_master:
            layout(n.children, n.payload_off, n)
        n.end = n.payload_off + body_len
        pos = n.end
    return pos


def enc_len(n):
    body = sum(enc_len(c) for c in n.children) if n.is_master else len(n.payload)
    return len(n.header(body)) + body


def flatten(nodes):
    for n in nodes:
        yield n
        if n.is_master:
            yield from flatten(n.children)


class DecodeError(Exception):
    """Reading this payload as its type legitimately raises."""


NO_VALUE = object()


def leaf_value(kind, payload):
    """The value a complete payload of this kind must read as."""
    n = len(payload)
    if kind in ('bin', 'unknown'):
        return bytearray(payload)
    if kind == 'void':
        return bytearray()
    if kind == 'uint':
        if n > 8:
            return NO_VALUE
        return int.from_bytes(payload, 'big')
    if kind == 'int':
        if n > 8:
            return NO_VALUE
        return int.from_bytes(payload, 'big', signed=True)
    if kind == 'float':
        if n == 0:
            return 0.0
        if n == 4:
            return struct.unpack('>f', payload)[0]
        if n == 8:
            return struct.unpack('>d', payload)[0]
        return NO_VALUE
    if kind == 'date':
        if n != 8:
            return NO_VALUE
        ns = int.from_bytes(payload, 'big', signed=True)
        return EPOCH + datetime.timedelta(microseconds=ns // 1000)
    text = payload.split(b'\0', 1)[0]
    if kind == 'str':
        return text.decode('ascii', 'replace')
    if kind == 'utf8':
        try:
            return text.decode('utf-8')
        except UnicodeDecodeError:
            return NO_VALUE
    raise AssertionError(kind)


def same_value(a, b):
    if isinstance(b, float) and b != b:
        return isinstance(a, float) and a != a
    if isinstance(b, float):
        return type(a) is float and struct.pack('>d', a) == struct.pack('>d', b)
    if isinstance(b, (bytes, bytearray)):
        return isinstance(a, (bytes, bytearray)) and bytes(a) == bytes(b)
    return type(a) is type(b) and a == b


TEXTS = ['', 'a', 'text', 'Zug\u00e9', '\u65e5\u672c\u8a9e', 'x<y>&"\'z', 'tab\tnl\n', '\U0001F600!',
         ' lead and trail ', "quo'te", '{}', 'ord()']


def gen_payload(ch, kind, big=False, plain=False):
    """Payload bytes that decode to a value (never an error)."""
    if kind in ('uint', 'int'):
        n = ch.pick([1, 0, 2, 8, 3, 4, 5, 7, 6])
        style = ch.below(4)
        if style == 0:
            return bytes([ch.below(256)]).rjust(n, b'\0')[:n] if n else b''
        if style == 1:
            return bytes([ch.pick([0, 0x7f, 0x80, 0xff])]) * n
        if style == 2:
            return (bytes([ch.pick([0x80, 0x7f, 1, 0xff])]) +
                    bytes([ch.pick([0, 0xff])]) * 8)[:n]
        return bytes(ch.below(256) for _ in range(n))
    if kind == 'float':
        n = ch.pick([8, 4, 0])
        if not n:
            return b''
        v = ch.pick([1.5, 0.0, -0.0, -1.25, 1e30, 3.141592653589793, float('inf'),
                     float('-inf'), float('nan'), 1e-40])
        if plain and (v != v or v in (float('inf'), float('-inf'))):
            v = 2.25
        return struct.pack('>f' if n == 4 else '>d', v)
    if kind == 'date':
        v = ch.pick([0, 1000, 999, -1, -1000, 10 ** 18, -10 ** 18, 2 ** 63 - 1, -2 ** 63,
                     86400 * 10 ** 9])
        if ch.chance(1, 3):
            v = ch.below(1 << 62) - (1 << 61)
        if plain:
            v -= v % 1000
        return v.to_bytes(8, 'big', signed=True)
    if kind == 'str':
        s = ch.pick(['', 'a', 'Hello', 'x<y>&"z', 'nan', '12', 'ord()', 'tilde~', ' sp '])
        b = s.encode('ascii') * ch.pick([1, 1, 1, 2, 40])
        if not plain:
            b += ch.pick([b'', b'', b'\0', b'\0\0\0', b'\0junk', b'\xe9'])
        return b
    if kind == 'utf8':
        s = ch.pick(TEXTS) * ch.pick([1, 1, 1, 2, 30])
        b = s.encode('utf-8')
        if not plain:
            b += ch.pick([b'', b'', b'\0', b'\0\0\0\0', b'\0\xff'])
        return b
    # binary, void, unknown
    style = ch.weighted([(8, 0), (3, 1), (1, 2)])
    if style == 0:
        n = ch.below(12)
    elif style == 1:
        n = ch.near(126, 127, 128, 64, 255)
    else:
        n = ch.near(16382, 16383) if big else ch.near(300, 512)
    return ch.data(n)


class DocSpec:
    """Knobs of a generated document, drawn per run."""

    def __init__(self, ch, unknown_size=5, misplaced=True, unknown_ids=True, big=False,
                 plain=False, depth=None, nodes=None, size_lens=True, bad=0):
        self.bad = bad                        # percent of values that cannot be read
        self.unknown_size = unknown_size      # percent of masters
        self.misplaced = misplaced
        self.unknown_ids = unknown_ids
        self.big = big
        self.plain = plain
        self.depth = depth or ch.pick([2, 3, 4, 6])
        self.nodes = nodes or ch.pick([6, 15, 40])
        self.size_lens = size_lens


def gen_size_len(ch, spec):
    if not spec.size_lens:
        return None
    return ch.weighted([(8, None), (2, 4), (2, 8), (1, 2), (1, 3), (1, 5), (1, 6), (1, 7)])


def gen_children(ch, m, d, spec, depth, left):
    """Children for a master (or, with d None, the document)."""
    out = []
    valid = [m.byid[i] for i in (m.roots if d is None else d.children)]
    if d is None:
        valid = [x for x in valid if x.name != 'EBML']
    globs = [m.byid[i] for i in sorted(m.globals)]
    every = None
    for _ in ch.repeat(12, mean=5):
        if left[0] <= 0:
            break
        k = ch.weighted([(12, 'valid'), (2, 'glob'), (2, 'unknown' if spec.unknown_ids else 'valid'),
                         (2, 'any' if spec.misplaced else 'valid')])
        if k == 'glob' and globs:
            c = ch.pick(globs)
        elif k == 'unknown':
            eid = gen_eid(ch, set(m.byid) | {0x80, 0xFF})
            left[0] -= 1
            out.append(Node(None, eid, gen_payload(ch, 'bin', spec.big),
                            size_len=gen_size_len(ch, spec)))
            continue
        elif k == 'any':
            if every is None:
                every = [x for x in m.byid.values() if x.name != 'EBML']
            c = ch.pick(every)
        else:
            if not valid:
                continue
            c = ch.pick(valid)
        left[0] -= 1
        out.append(gen_node(ch, m, c, spec, depth, left))
    return out


def gen_node(ch, m, c, spec, depth, left):
    sl = gen_size_len(ch, spec)
    if c.kind == 'master':
        kids = [] if depth >= spec.depth else gen_children(ch, m, c, spec, depth + 1, left)
        unknown = bool(spec.unknown_size) and ch.chance(spec.unknown_size, 100)
        return Node(c, c.eid, children=kids, size_len=sl, unknown=unknown)
    if spec.bad and ch.chance(spec.bad, 100):
        payload = bad_payload(ch, c)
        if payload is not None:
            return Node(c, c.eid, payload, size_len=sl)
    return Node(c, c.eid, gen_payload(ch, c.kind, spec.big, spec.plain), size_len=sl)


def bad_payload(ch, c):
    """Bytes that are no value (of an element that is not read in passing)."""
    if c.kind == 'utf8' and not c.precache:
        return ch.pick([b'\xff', b'ok \xc3', b'\xe2\x82', b'ok \xff\0\0'])
    if c.kind == 'date' and c.precache is False:
        return ch.data(ch.pick([0, 1, 4, 7, 9, 16]))
    if c.kind == 'float' and c.precache is False:
        return ch.data(ch.pick([1, 2, 3, 5, 7, 9, 10]))
    return None


class DocModel:
    """A generated document: schema model, root nodes, bytes."""

    def __init__(self, m, roots):
        self.m = m
        self.roots = roots
        layout(roots)
        self.data = b''.join(n.encoded() for n in roots)
        self.reparse()

    def reparse(self):
        """Replace the tree by what the documented format says the bytes mean
        (unknown-size masters may swallow or lose following elements)."""
        if any(n.unknown for n in flatten(self.roots)):
            self.roots = refparse(self.data, self.m)

    @property
    def has_header(self):
        return bool(self.roots) and self.roots[0].name == 'EBML' and self.roots[0].defn is not None

    def visible(self, headers):
        return self.roots[1:] if self.has_header and not headers else self.roots

    def all_nodes(self, headers=True):
        return list(flatten(self.visible(headers)))

    def describe(self):
        return ' '.join('%s0x%X%s' % ('  ' * 0, n.eid, '?' if n.unknown else '')
                        for n in flatten(self.roots))


def gen_document(ch, m, spec, header=None):
    for _ in range(50):
        left = [spec.nodes]
        roots = gen_children(ch, m, None, spec, 1, left)
        if header is None:
            want = 'EBML' in m.byname and not ch.chance(1, 5)
        else:
            want = header
        if want:
            e = m.byname['EBML']
            kids = []
            for cid in e.children:
                c = m.byid[cid]
                if c.kind in ('uint', 'str') and not ch.chance(1, 5):
                    pay = b'\x01' if c.kind == 'uint' else b'simdoc'
                    kids.append(Node(c, cid, pay, size_len=gen_size_len(ch, spec)))
            roots.insert(0, Node(e, e.eid, children=kids, size_len=gen_size_len(ch, spec)))
        try:
            doc = DocModel(m, roots)
        except Ambiguous:
            continue
        return doc
    return DocModel(m, [])


# ---------------------------------------------------------------------------
# Reference decoder
# ---------------------------------------------------------------------------

class Ambiguous(Exception):
    """An unknown-size master would run past the end of its parent: the
    format does not say which wins, so such documents are not used."""


class Malformed(Exception):
    pass


def read_header(data, pos):
    """(eid, idlen, size or None, sizelen); None when the data ends."""
    if pos >= len(data):
        return None
    b = data[pos]
    if b < 0x10:
        raise Malformed('id')
    il = 1 if b >= 128 else 2 if b >= 64 else 3 if b >= 32 else 4
    if pos + il >= len(data):
        return None
    eid = int.from_bytes(data[pos:pos + il], 'big')
    p = pos + il
    b = data[p]
    sl = 1
    while sl < 8 and not b & (0x80 >> (sl - 1)):
        sl += 1
    if p + sl > len(data):
        return None
    v = int.from_bytes(data[p:p + sl], 'big') & ((1 << (7 * sl)) - 1)
    if v == (1 << (7 * sl)) - 1:
        v = None
    return eid, il, v, sl


def refparse(data, m, pos=0, end=None):
    """The element tree that data means.  Only for well-formed data."""
    end = len(data) if end is None else end
    nodes, _ = _parse_run(data, m, pos, end, None)
    _set_parents(nodes, None)
    return nodes


def _set_parents(nodes, parent):
    for n in nodes:
        n.parent = parent
        if n.is_master:
            _set_parents(n.children, n)


def _parse_run(data, m, pos, end, unknown_of):
    """Elements from pos: to end, or for an unknown-size master's content up
    to the first element that is not valid in it."""
    out = []
    while pos < end:
        h = read_header(data, pos)
        if h is None:
            raise Malformed('truncated')
        eid, il, size, sl = h
        if unknown_of is not None and not m.valid_child(unknown_of, eid):
            break
        d = m.byid.get(eid)
        n = Node(d, eid, size_len=sl, unknown=size is None)
        n.offset = pos
        n.payload_off = pos + il + sl
        n.hdr = data[pos:n.payload_off]
        if n.is_master:
            if size is None:
                n.children, n.end = _parse_run(data, m, n.payload_off, end, d)
                if n.end == end and end < len(data):
                    h2 = read_header(data, end)
                    if h2 is not None and m.valid_child(d, h2[0]):
                        raise Ambiguous()
            else:
                n.end = n.payload_off + size
                n.children, e2 = _parse_run(data, m, n.payload_off, n.end, None)
                if e2 != n.end:
                    raise Malformed('children overrun')
        else:
            if size is None:
                raise Malformed('unknown-size leaf')
            n.end = n.payload_off + size
            n.payload = data[n.payload_off:n.end]
        if n.end > end:
            raise Malformed('overrun')
        out.append(n)
        pos = n.end
    return out, pos

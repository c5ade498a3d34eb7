"""Compare what the library reports with what the model says it must report."""
import os
import warnings

from . import runner
from .model import NO_VALUE, leaf_value, same_value
from .world import Violation, injected

_lib = {}


def lib():
    """Import the library (late, so that simulators are installed first)."""
    if not _lib:
        import ebmlite
        import ebmlite.core
        import ebmlite.util
        import ebmlite.xml_codecs
        import ebmlite.threaded_file
        import ebmlite.encoding
        import ebmlite.decoding
        assert os.path.realpath(ebmlite.__file__).startswith(os.path.realpath(runner.REPO)), \
            ebmlite.__file__
        warnings.simplefilter('ignore')
        c = ebmlite.core
        _lib.update(core=c, util=ebmlite.util, codecs=ebmlite.xml_codecs,
                    threaded=ebmlite.threaded_file, encoding=ebmlite.encoding,
                    decoding=ebmlite.decoding)
        _lib['classes'] = {
            'uint': c.UIntegerElement, 'int': c.IntegerElement, 'float': c.FloatElement,
            'str': c.StringElement, 'utf8': c.UnicodeElement, 'date': c.DateElement,
            'bin': c.BinaryElement, 'void': c.VoidElement, 'unknown': c.UnknownElement,
            'master': c.MasterElement}
    return _lib


def fail(kind, node, msg):
    raise Violation(kind, '%r: %s' % (node, msg))


def check_ident(el, n, base=0):
    """Identity: nothing here may touch the stream."""
    L = lib()
    if el.id != n.eid:
        fail('wrong-id', n, 'id is %r' % (el.id,))
    if el.name != n.name:
        fail('wrong-name', n, 'name is %r' % (el.name,))
    if not isinstance(el, L['classes'][n.kind]):
        fail('wrong-type', n, 'class is %r' % (type(el).__mro__,))
    if el.offset != base + n.offset:
        fail('wrong-offset', n, 'offset is %r, expected %r' % (el.offset, base + n.offset))
    if el.payloadOffset != base + n.payload_off:
        fail('wrong-payload-offset', n, 'payloadOffset is %r' % (el.payloadOffset,))


def check_size(el, n, base=0):
    if el.size != n.size:
        fail('wrong-size', n, 'size is %r, expected %r' % (el.size, n.size))


def check_raw(el, n, data):
    got = el.getRaw()
    if bytes(got) != data[n.offset:n.end]:
        fail('wrong-raw', n, 'getRaw() gave %d bytes %r, expected %d bytes %r' % (
            len(got), bytes(got)[:40], n.end - n.offset, data[n.offset:n.end][:40]))


def check_rawvalue(el, n, data):
    got = el.getRawValue()
    if bytes(got) != data[n.payload_off:n.end]:
        fail('wrong-raw-value', n, 'getRawValue() gave %d bytes %r, expected %d bytes' % (
            len(got), bytes(got)[:40], n.size))


def check_value(el, n, data, base=0):
    if n.is_master:
        check_children(el.value, n, base)
        return
    want = leaf_value(n.kind, n.payload)
    if want is NO_VALUE and n.kind in ('date', 'float', 'utf8'):
        try:
            got = el.value
        except (OSError, ValueError) as e:
            if injected(e):
                raise
            return
        fail('wrong-value', n, 'value is %r of bytes that are none' % (got,))
    got = el.value
    if want is not NO_VALUE and not same_value(got, want):
        fail('wrong-value', n, 'value is %r, expected %r' % (got, want))


def check_children(got, n, base=0, kids=None):
    kids = n.children if kids is None else kids
    got = list(got)
    if len(got) != len(kids):
        fail('wrong-children', n, '%d children, expected %d: %r' % (len(got), len(kids), got[:6]))
    for g, k in zip(got, kids):
        check_ident(g, k, base)


def check_len(el, n):
    if n.is_master:
        want = len(n.children)
    elif n.kind in ('bin', 'void', 'unknown', 'str'):
        want = n.size
    elif n.kind == 'utf8':
        v = leaf_value('utf8', n.payload)
        if v is NO_VALUE:
            return
        want = len(v)
    else:
        return
    got = len(el)
    if got != want:
        fail('wrong-length', n, 'len is %r, expected %r' % (got, want))


def model_dump(n):
    """(dict, ambiguous keys) as documented; None when unreadable."""
    if not n.is_master:
        return leaf_value(n.kind, n.payload)
    out = {}
    for c in n.children:
        v = model_dump(c)
        if c.defn is not None and c.defn.multiple:
            out.setdefault(c.name, []).append(v)
        elif c.name in out:
            out[c.name] = NO_VALUE          # repeated though not 'multiple'
        else:
            out[c.name] = v
    return out


def check_dump(got, want, where='dump', n=None):
    if want is NO_VALUE:
        return
    if isinstance(want, dict):
        if not isinstance(got, dict) or list(sorted(got)) != list(sorted(want)):
            fail('wrong-dump', n, '%s: %r, expected keys %r' % (where, got, sorted(want)))
        for k in want:
            check_dump(got[k], want[k], where + '/' + k, n)
    elif isinstance(want, list):
        if not isinstance(got, list) or len(got) != len(want):
            fail('wrong-dump', n, '%s: %r, expected %d items' % (where, got, len(want)))
        for i, (g, w) in enumerate(zip(got, want)):
            check_dump(g, w, '%s[%d]' % (where, i), n)
    elif not same_value(got, want):
        fail('wrong-dump', n, '%s: %r, expected %r' % (where, got, want))


def has_unreadable(nodes):
    from .model import flatten
    return any(not x.is_master and leaf_value(x.kind, x.payload) is NO_VALUE
               for x in flatten(nodes))


def check_tree(elements, nodes, data, base=0, raw=True):
    """Full comparison of a list of elements with model nodes."""
    elements = list(elements)
    if len(elements) != len(nodes):
        fail('wrong-children', None, '%d elements, expected %d: %r vs %r' % (
            len(elements), len(nodes), elements[:8], nodes[:8]))
    for el, n in zip(elements, nodes):
        check_ident(el, n, base)
        check_size(el, n)
        if raw:
            check_raw(el, n, data)
            check_rawvalue(el, n, data)
        check_len(el, n)
        if n.is_master:
            check_tree(el, n.children, data, base, raw)
        else:
            check_value(el, n, data, base)


def snapshot(el, depth=0):
    """Everything an element reports, as plain data (for comparisons where
    the library is its own reference)."""
    L = lib()
    if isinstance(el, L['core'].MasterElement):
        v = [snapshot(c, depth + 1) for c in el]
    else:
        v = freeze(el.value)
    return (el.id, el.name, el.offset, el.size, v)


def freeze(v):
    if isinstance(v, dict):
        return ('dict', tuple(sorted((k, freeze(x)) for k, x in v.items())))
    if isinstance(v, (list, tuple)):
        return ('list', tuple(freeze(x) for x in v))
    if isinstance(v, (bytes, bytearray)):
        return ('bytes', bytes(v))
    if isinstance(v, float):
        return ('float', v.hex() if v == v else 'nan')
    return (type(v).__name__, v)


_schema_cache = {}


def load_model_schema(m, L=None):
    """A library Schema for a schema model."""
    L = L or lib()
    if m.file:
        return L['core'].loadSchema(m.file)
    import io
    return L['core'].Schema(io.StringIO(m.xml))


def check_xml(root, nodes, base, offsets, sizes, ids, m):
    """toXml output against the model: structure and attributes."""
    def cmp(xs, ns):
        xs = list(xs)
        if len(xs) != len(ns):
            fail('wrong-xml', None, '%d xml elements, expected %d' % (len(xs), len(ns)))
        for x, n in zip(xs, ns):
            if x.tag != n.name:
                fail('wrong-xml', n, 'tag %r' % x.tag)
            if ids and x.get('id') != '0x%X' % n.eid:
                fail('wrong-xml', n, 'id %r' % x.get('id'))
            if offsets and x.get('offset') != str(base + n.offset):
                fail('wrong-xml', n, 'offset %r' % x.get('offset'))
            if sizes and x.get('size') != str(n.size):
                fail('wrong-xml', n, 'size %r' % x.get('size'))
            if n.is_master:
                cmp(x, n.children)
            elif n.kind not in ('bin', 'void', 'unknown'):
                want = leaf_value(n.kind, n.payload)
                if want is not NO_VALUE and n.kind in ('uint', 'int') \
                        and x.get('value') != str(want):
                    fail('wrong-xml', n, 'value %r' % x.get('value'))
    cmp(root, nodes)

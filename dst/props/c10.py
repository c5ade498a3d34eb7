"""C10: EBML to XML and back: lossless on any seekable stream, loud on failure."""
import io
import pathlib
from xml.etree import ElementTree as ET

from .. import model, observe
from ..interrupts import LineInterrupt
from ..observe import lib
from ..simfs import SimFS
from ..streams import SimStream
from ..world import SimCrash, Violation, injected
from . import c09, c14
from .c04 import pick_schema

RUNS = {'quick': 16000, 'thorough': 400000}
RULE = ('each run: a generated or shipped schema and document converted to XML with drawn options '
        'and codecs (optionally serialised, commented and re-parsed), converted back onto a '
        'stream at an arbitrary position or a named file while reads, seeks, tells, writes and '
        'closes fail, tear or are interrupted at seeded points, then again without faults; the '
        'output is parsed by an independent decoder and compared with the original document, '
        'the bytes around the region with what was there; non-trivial = at least one element '
        'was converted; distinct by document, options and faults')
REAL = ['ebmlite.util (toXml, xml2ebml, loadXml)', 'ebmlite.xml_codecs', 'ebmlite.core',
        'ebmlite.encoding', 'ebmlite.decoding', 'xml.etree', 'io buffering']
STUB = ['source and target streams (SimStream) or simulated file system below io buffering']
ASSUMPTIONS = ['streams have buffered semantics: a write that returns wrote everything',
               'ASCII strings hold printable ASCII, text no NUL (which ends it when read)',
               'the contents of Void elements are not content; their size is',
               'elements of fixed length have that length',
               'dates are not within a microsecond of the earliest that can be stored',
               '0.0 and -0.0 are the same value',
               'text with characters XML cannot represent may be refused']
PROBES = ('options with sizes', 'options without ids', 'base64 columns', 'hex codec',
          'ignore codec', 'serialised', 'parsed from file', 'comments', 'element as root',
          'unknown-size master', 'unknown element', 'unknown refused', 'header added',
          'sizeLength given', 'sizeLength attribute', 'size length refused', 'mid-stream',
          'named output', 'error surfaced', 'interrupted', 'crashed', 'loadXml',
          'read error in toXml', 'schema by name', 'shipped schema', 'grown size',
          'fixed-length element', 'command-line tools', 'tool refused',
          'temporary file by another program')


def setup():
    lib()
    c14.setup()


def same_tree(got, want, content, where):
    """Nodes parsed from the output against the original nodes."""
    if [n.eid for n in got] != [n.eid for n in want]:
        raise Violation('wrong-elements', 'in %s: %r, original has %r' % (
            where, got[:8], want[:8]))
    for g, w in zip(got, want):
        if w.is_master:
            same_tree(g.children, w.children, content, repr(w))
            continue
        if w.kind == 'void':
            if g.size != w.size:
                raise Violation('wrong-void', '%r became %r' % (w, g))
            continue
        if w.kind in ('bin', 'unknown'):
            if content and g.payload != w.payload:
                raise Violation('wrong-value', '%r: %r became %r' % (
                    w, w.payload[:60], g.payload[:60]))
            continue
        a, b = model.leaf_value(g.kind, g.payload), model.leaf_value(w.kind, w.payload)
        if not model.same_value(a, b) and not (type(a) is type(b) is float and a == b):
            raise Violation('wrong-value', '%r: %r became %r' % (w, b, a))


def with_size_length(n, sl):
    """Size of a master's contents if every master's size takes sl bytes
    and every other size is as short as it can be."""
    total = 0
    for c in n.children:
        total += len(model.enc_id(c.eid))
        if c.is_master:
            total += sl + with_size_length(c, sl)
        else:
            total += model.min_size_len(c.size) + c.size
    return total


def codec(ch, world, X):
    k = ch.weighted([(3, 'name'), (3, 'base64'), (3, 'hex'), (1, 'ignore')])
    if k == 'name':
        name = ch.pick(['base64', 'hex'])
        return name, name, True
    if k == 'base64':
        cols = ch.pick([76, None, 0, 1, 4, 5, 64, 100, 76])
        if cols != 76:
            world.probe('base64 columns')
        return X.Base64Codec(cols=cols), 'base64 cols=%r' % cols, True
    if k == 'hex':
        world.probe('hex codec')
        a = dict(width=ch.pick([2, 1, 3, 4, 16]), cols=ch.pick([32, None, 0, 1, 2, 7, 16]),
                 offsets=ch.chance(1, 2))
        return X.HexCodec(**a), 'hex %r' % sorted(a.items()), True
    world.probe('ignore codec')
    return 'ignore', 'ignore', False


def xml_can_hold(s):
    return all(c in '\t\n\r' or '\x20' <= c <= '\ud7ff' or '\ue000' <= c <= '\ufffd'
               or c >= '\U00010000' for c in s)


def clean_strings(nodes):
    """Keep to the declared assumptions on text."""
    for n in model.flatten(nodes):
        if n.kind == 'str' and not n.is_master:
            t = n.payload.split(b'\0', 1)[0]
            if any(not 32 <= c < 127 for c in t):
                return False
        # (the microsecond the earliest date starts in began before it)
        if n.kind == 'date' and n.payload[:6] == b'\x80\0\0\0\0\0' and \
                n.payload[6:] < b'\x04\0':
            return False
    return True


def fit(n):
    """Make a leaf conform to the length its schema fixes."""
    size, p, kind = n.defn.length, n.payload, n.kind
    if kind in ('uint', 'int'):
        pad = b'\xff' if kind == 'int' and p[:1] >= b'\x80' else b'\0'
        p = p[-size:].rjust(size, pad)
    elif kind == 'float':
        p = p if len(p) == size else bytes(b'\x3f\x80' + bytes(size - 2))
    elif kind == 'date':
        p = p if len(p) == 8 else bytes(8)
    elif kind in ('str', 'utf8'):
        t = p.split(b'\0')[0].decode('utf8')
        while len(t.encode('utf8')) > size:
            t = t[:-1]
        p = t.encode('utf8').ljust(size, b'\0')
    elif kind == 'bin':
        p = p[:size].ljust(size, b'\x11')
    n.payload = p


def big_master(ch, m):
    """A document whose sizes are close to where their encoding grows."""
    parents = [d for d in m.byid.values() if d.kind == 'master' and d.name != 'EBML']
    if not parents:
        return None
    d = ch.pick(sorted(parents, key=lambda d: d.eid))
    inner = [model.Node(d, d.eid, children=[], size_len=ch.pick([None, 1]))
             for _ in range(ch.between(1, 60))]
    if ch.chance(1, 2):
        # (most of them further down)
        kept = []
        for n in inner:
            (ch.pick(kept).children if kept and ch.chance(9, 10) else kept).append(n)
        inner = kept
    top = model.Node(d, d.eid, children=inner, size_len=ch.pick([None, 8]))
    limit = ch.pick([126, 16382, 16382])
    model.layout([top])
    room = limit - top.size - ch.below(70)
    eid = model.gen_eid(ch, set(m.byid) | {0x80, 0xFF})
    if room > 12:
        top.children.append(model.Node(None, eid, bytes(room - 8)))
    return model.DocModel(m, [top])


def run(world):
    ch = world.ch
    L = lib()
    util = L['util']
    m = pick_schema(ch, world, shipped=25, lengths=ch.chance(1, 2))
    doc = big_master(ch, m) if ch.chance(1, 12) else None
    if doc is None:
        spec = model.DocSpec(ch, unknown_size=ch.pick([0, 0, 10, 30]), big=ch.chance(1, 10))
        doc = model.gen_document(ch, m, spec)
    else:
        world.probe('grown size')
    if not clean_strings(doc.roots):
        world.mark('skipped')
        return
    fixed = [n for n in model.flatten(doc.roots)
             if not n.is_master and n.defn is not None and n.defn.length is not None]
    if fixed:
        world.probe('fixed-length element')
        for n in fixed:
            fit(n)
        doc = model.DocModel(m, doc.roots)
    if any(n.unknown for n in model.flatten(doc.roots)):
        world.probe('unknown-size master')
    fs = SimFS(world)
    fs.install()
    fs.mkdir('/sim/d')
    # -- where the schema comes from --------------------------------------
    if m.file:
        schema = observe.load_model_schema(m)
        schema_arg = schema if ch.chance(1, 2) else ch.pick([m.file, pathlib.Path(m.file)])
    elif ch.chance(1, 3):
        world.probe('schema by name')
        fs.put('/sim/s/sim.xml', m.xml.encode())
        schema = L['core'].loadSchema('/sim/s/sim.xml')
        schema_arg = ch.pick([schema, '/sim/s/sim.xml', pathlib.Path('/sim/s/sim.xml')])
    else:
        schema = schema_arg = observe.load_model_schema(m)
    if ch.chance(1, 8):
        return tools(world, fs, m, doc)
    # -- the document -------------------------------------------------------
    base = ch.pick([0, 0, 5])
    blob = bytes(base) + doc.data
    src = ch.weighted([(4, 'sim'), (1, 'bytesio'), (2, 'file'), (1, 'path')])
    stream = None
    load_headers = ch.chance(2, 3)
    if src == 'sim':
        stream = SimStream(world, blob, start=base, label='in')
        d = schema.load(stream, headers=load_headers)
    elif src == 'bytesio':
        b = io.BytesIO(blob)
        b.seek(base)
        d = schema.load(b, headers=load_headers)
    else:
        base = 0
        fs.put('/sim/d/in.ebml', doc.data)
        p = '/sim/d/in.ebml'
        d = schema.load(pathlib.Path(p) if src == 'path' else p, headers=load_headers)
    roots = doc.visible(load_headers)
    opts = dict(offsets=ch.chance(1, 2), sizes=ch.chance(1, 2), types=ch.chance(1, 2),
                ids=ch.chance(4, 5))
    if opts['sizes']:
        world.probe('options with sizes')
    if not opts['ids']:
        world.probe('options without ids')
    bc, bdesc, content = codec(ch, world, L['codecs'])
    vc, vdesc, _ = codec(ch, world, L['codecs']) if ch.chance(1, 3) else ('ignore', 'ignore', 0)
    target, want, root_is = d, roots, 'document'
    if roots and ch.chance(1, 4):
        world.probe('element as root')
        i = ch.below(len(roots))
        target, want, root_is = d[i], [roots[i]], 'element'
        n = roots[i]
        while n.is_master and n.children and ch.chance(1, 2):
            i = ch.below(len(n.children))
            target, n = target[i], n.children[i]
            want = [n]
        if n.kind == 'unknown':
            target, want, root_is = d, roots, 'document'
    flat = list(model.flatten(want))
    has_unknown = any(n.kind == 'unknown' for n in flat)
    if has_unknown:
        world.probe('unknown element')
    world.nontrivial += bool(flat)
    world.case = ('%s, %s from %s, %d bytes (%s): toXml %s binary=%s void=%s' % (
        m.file or 'generated schema', root_is, src, len(doc.data), doc.describe()[:200],
        ' '.join(k for k in sorted(opts) if opts[k]), bdesc, vdesc))
    world.mark(m.file, root_is, doc.data[:200], len(doc.data), sorted(opts.items()), bdesc, vdesc)

    def to_xml():
        return util.toXml(target, binary_codec=bc, void_codec=vc, **opts)

    # -- reading faults must not lose anything ---------------------------
    if stream is not None and ch.chance(1, 3):
        world.plan('read_error', ch.pick([5, 20]), most=2)
        world.plan('seek_error', ch.pick([5, 20]), most=1)
        world.plan('interrupt_io', ch.pick([10, 40]), most=1)
        before = dict(world.faults)
        try:
            to_xml()
        except BaseException as e:
            if not injected(e):
                raise
            world.probe('read error in toXml')
        else:
            if world.faults != before:
                raise Violation('hidden-error', 'toXml() succeeded although reading failed')
        world.unplan()
    root = to_xml()
    observe.check_xml(root if root_is == 'document' else [root], want, base,
                      opts['offsets'], opts['sizes'], opts['ids'], m)
    # -- edits a user may make ---------------------------------------------
    slattrs = {}
    if ch.chance(1, 5):
        for el in list(root.iter()):
            if ch.chance(1, 4):
                el.insert(ch.below(len(el) + 1), ET.Comment('a comment'))
                world.probe('comments')
    if ch.chance(1, 5):
        els = [e for e in root.iter() if isinstance(e.tag, str)]
        els = els[1:] if root_is == 'document' else els
        if len(els) == len(flat):
            for i, e in enumerate(els):
                if ch.chance(1, 3):
                    sl = ch.pick([8, 4, 5])
                    e.set('sizeLength', str(sl))
                    slattrs[i] = sl
                    world.probe('sizeLength attribute')
    # -- how it travels --------------------------------------------------
    texts_ok = all(xml_can_hold(model.leaf_value(n.kind, n.payload)) for n in flat
                   if not n.is_master and n.kind in ('utf8', 'str'))
    how = ch.weighted([(2, 'element'), (1, 'tree'), (4, 'text'), (2, 'file')])
    enc = ch.pick(['utf-8', 'us-ascii', 'utf-16'])
    text = None
    if how in ('text', 'file'):
        try:
            text = ET.tostring(root, encoding=enc)
        except Exception as e:
            raise Violation('not-serialisable', '%r' % (e,))
        world.probe('serialised')
        if how == 'file':
            world.probe('parsed from file')
            fs.put('/sim/d/in.xml', text)
        if not texts_ok:
            return

    def xml_arg():
        if how == 'element':
            return root
        if how == 'tree':
            return ET.ElementTree(root)
        if how == 'file':
            return '/sim/d/in.xml'
        return io.BytesIO(text)

    # -- options of the way back ------------------------------------------
    headers = ch.chance(1, 2)
    size_length = ch.pick([None, None, None, 4, 8, 5, 3, 2, 1])
    unknown = ch.chance(3, 4)
    kw = dict(headers=headers, sizeLength=size_length, unknown=unknown)
    if size_length:
        world.probe('sizeLength given')
    world.case += '; %s%s, xml2ebml %r' % (how, ' comments/attrs' if slattrs else '', kw)
    world.case = world.case[:900]
    world.mark(how, sorted(kw.items(), key=str), sorted(slattrs))
    has_header = any(n.name == 'EBML' for n in want)
    added = c09.header_want(m) if headers and not has_header and 'EBML' in schema else []
    if added:
        world.probe('header added')

    def must_refuse():
        return has_unknown and not (unknown and opts['ids'])

    # -- the reference: onto an empty buffer, without faults ---------------
    full = None
    out = io.BytesIO()
    try:
        n = util.xml2ebml(xml_arg(), out, schema_arg, **kw)
    except NameError as e:
        if not must_refuse():
            raise Violation('refused', repr(e))
        world.probe('unknown refused')
    except ValueError as e:
        if slattrs and (opts['sizes'] or size_length):
            return          # edited sizes may contradict the enclosing element's
        if size_length is None:
            raise Violation('refused', '%s: %r' % (world.case, e))
        cap = (1 << (7 * size_length)) - 2
        if not any(k.is_master and with_size_length(k, max([size_length] + list(
                slattrs.values()))) > cap for k in flat):
            raise Violation('refused', '%s: %r' % (world.case, e))
        world.probe('size length refused')
    else:
        full = out.getvalue()
        if must_refuse():
            raise Violation('unknown-accepted', 'gave %r' % (full[:60],))
        if n != len(full):
            raise Violation('wrong-count', 'returned %r, wrote %d' % (n, len(full)))
        nodes = c09.parse(full, m)
        k = len(added)
        c09.compare(added, nodes[:k], 'header', world)
        same_tree(nodes[k:], want, content, root_is)
        got = list(model.flatten(nodes[k:]))
        for i, g in enumerate(got):
            if i in slattrs and g.payload_off - g.offset - len(model.enc_id(g.eid)) != slattrs[i]:
                raise Violation('wrong-size-length', '%r, attribute is %d' % (g, slattrs[i]))
        # and the library reads it back the same way
        observe.check_tree(schema.loads(full),
                           nodes[1:] if nodes and nodes[0].name == 'EBML' else nodes, full)
    # -- onto real targets --------------------------------------------------
    for attempt in range(ch.between(1, 3)):
        back(world, fs, util, schema_arg, xml_arg, kw, full, nodes if full is not None else [],
             attempt == 0 or ch.chance(1, 2))
        world.unplan()
    if full is not None and ch.chance(1, 4) and headers and unknown and size_length is None:
        load_xml(world, fs, util, m, schema_arg, xml_arg, full, nodes)


def tools(world, fs, m, doc):
    """The same, through the command-line tools."""
    ch = world.ch
    world.probe('command-line tools')
    core = lib()['core']
    fs.put('/sim/d/in.ebml', doc.data)
    if m.file:
        sch = m.file
    else:
        sch = '/sim/s/sim.xml'
        fs.put(sch, m.xml.encode())
    core.SCHEMA_PATH.insert(1, '/sim/s')
    codec = ch.pick(['base64', 'hex', 'ignore'])
    opts = ch.pick([[], ['-s'], ['--single']]) + ch.pick([[], ['-m'], ['--max']])
    one = ['/sim/d/in.ebml', sch, '-e', codec] + opts
    to_file = ch.chance(1, 2)
    if to_file:
        one += ['-o', '/sim/d/mid.xml']
    two = ['/sim/d/mid.xml', sch]
    named = ch.chance(1, 2)
    if named:
        two += ['-o', '/sim/d/out.ebml']
    world.case = 'ebml2xml %s; xml2ebml %s; %s' % (' '.join(one), ' '.join(two),
                                                  doc.describe()[:300])
    world.mark('tools', opts, codec, doc.data[:200], len(doc.data))
    flat = list(model.flatten(doc.roots))
    world.nontrivial += bool(flat)
    texts_ok = all(xml_can_hold(model.leaf_value(n.kind, n.payload)) for n in flat
                   if not n.is_master and n.kind in ('utf8', 'str'))
    # (without identifiers in the XML, unknown elements cannot be converted back)
    ids = '-m' in opts or '--max' in opts
    ok = texts_ok and not observe.has_unreadable(doc.roots)
    r = c14.invoke(world, fs, 'ebml2xml', one)
    if r.status:
        if ok:
            raise Violation('tool-failed', 'ebml2xml: exit %r, %r %s' % (
                r.status, r.exc, r.stderr[:200]))
        world.probe('tool refused')
        return
    if not to_file:
        fs.put('/sim/d/mid.xml', r.console)
    r = c14.invoke(world, fs, 'xml2ebml', two)
    if r.status:
        if ids or not any(n.kind == 'unknown' for n in flat):
            raise Violation('tool-failed', 'xml2ebml: exit %r, %r %s' % (
                r.status, r.exc, r.stderr[:200]))
        world.probe('tool refused')
        return
    out = fs.get('/sim/d/out.ebml') if named else r.console
    nodes = c09.parse(out, m)
    has_header = any(n.name == 'EBML' for n in doc.roots)
    k = 0
    if not has_header and 'EBML' in m.byname:
        added = c09.header_want(m)
        k = len(added)
        c09.compare(added, nodes[:k], 'header', world)
    same_tree(nodes[k:], doc.roots, codec != 'ignore', 'document')


def back(world, fs, util, schema_arg, xml_arg, kw, full, nodes, faulty):
    ch = world.ch
    how = ch.weighted([(4, 'sim'), (1, 'bytesio'), (2, 'name'), (2, 'file')])
    pre = ch.pick([b'', b'before', bytes(300)])
    tail = ch.pick([b'', b'behind', b'\x55' * 4000])
    s = node = None
    kinds = []
    if how in ('sim', 'bytesio'):
        if pre or tail:
            world.probe('mid-stream')
        if how == 'sim':
            s = SimStream(world, pre + tail, start=len(pre), label='out')
            kinds = ['write_error', 'partial_write', 'seek_error', 'tell_error', 'interrupt_io',
                     'crash']
            target = s
        else:
            target = io.BytesIO(pre + tail)
            target.seek(len(pre))
    else:
        fs.frozen = False
        kinds = ['fwrite_error', 'fwrite_short', 'fseek_error', 'fclose_error', 'crash']
        if how == 'name':
            world.probe('named output')
            pre = tail = b''
            fs.put('/sim/d/out.ebml', ch.pick([b'', b'old']))
            target = ch.pick(['/sim/d/out.ebml', pathlib.Path('/sim/d/out.ebml')])
            kinds.append('open_error')
        else:
            node = fs.put('/sim/d/out.ebml', pre + tail)
            target = open('/sim/d/out.ebml', 'r+b', buffering=ch.pick([-1, 2, 16, 100]))
            target.seek(len(pre))
    if faulty:
        for k in kinds:
            if ch.chance(1, 2):
                world.plan(k, ch.pick([3, 1, 10, 30]))
    line = ch.below(200) if faulty and ch.chance(1, 5) else 0
    before = {k: v for k, v in world.faults.items() if k != 'fwrite_short'}
    err = None
    end = None
    try:
        with LineInterrupt(world, line):
            n = util.xml2ebml(xml_arg(), target, schema_arg, **kw)
        if how == 'file':
            end = target.tell()
            target.close()
    except SimCrash as e:
        world.probe('crashed')
        err = e
    except BaseException as e:
        if not injected(e):
            if full is not None or not isinstance(e, Exception):
                raise
        else:
            world.probe('interrupted' if not isinstance(e, Exception) else 'error surfaced')
        err = e
    fired = {k: v for k, v in world.faults.items() if k != 'fwrite_short'} != before
    world.unplan()
    if how == 'sim':
        store, end = bytes(s.data), s.pos
    elif how == 'bytesio':
        store, end = target.getvalue(), target.tell()
    else:
        store = fs.get('/sim/d/out.ebml')
    if err is None:
        if fired:
            raise Violation('hidden-error', 'a fault was injected but the conversion succeeded')
        if full is None:
            raise Violation('accepted', 'refused before, now wrote %r' % (store[:60],))
        if n != len(full):
            raise Violation('wrong-count', 'returned %r, wrote %d' % (n, len(full)))
        if store != pre + full + tail[len(full):]:
            i = next((i for i, (a, b) in enumerate(zip(store, pre + full + tail[len(full):]))
                      if a != b), -1)
            raise Violation('wrong-output', '%d bytes, first difference at %d; %s' % (
                len(store), i, [len(pre), len(full), len(tail)]))
        if end is not None and end != len(pre) + len(full):
            raise Violation('wrong-position', 'position %d, region ends at %d' % (
                end, len(pre) + len(full)))
    elif how != 'name':
        if store[:len(pre)] != pre:
            raise Violation('wrote-outside', 'bytes before the region are %r' % store[:len(pre)])
        if full is not None and store[len(pre) + len(full):] != tail[len(full):]:
            raise Violation('wrote-outside', 'bytes behind the region changed')
    if how == 'file':
        try:
            target.close()
        except Exception:
            pass


def load_xml(world, fs, util, m, schema_arg, xml_arg, full, nodes):
    ch = world.ch
    world.probe('loadXml')
    fs.frozen = False
    where = ch.pick([':memory:', None, None, '/sim/d/loaded.ebml', pathlib.Path('/sim/d/l2.ebml')])
    theirs = {}

    def intrude(path):
        fs.put(path, b'theirs: ' + path.encode())
        theirs[path] = fs.get(path)

    if where is None:
        # other programs use the same directory for temporary files
        for i in range(ch.below(3)):
            intrude('/sim/tmp/simtmp%d' % (i + 1 + ch.below(2)))
        left = [ch.below(4)]

        def other(path, mode):
            if left[0] and path.startswith('/sim/tmp/') and path.count('/') == 3 and \
                    path not in fs.files and not mode.startswith('r'):
                left[0] -= 1
                if ch.chance(1, 2):
                    world.probe('temporary file by another program')
                    intrude(path)
        fs.on_open = other
    try:
        d = util.loadXml(xml_arg(), schema_arg, where)
    finally:
        fs.on_open = None
    for path, data in theirs.items():
        if fs.files.get(path) is None or fs.get(path) != data:
            raise Violation('not-its-own', "loadXml() changed %s, which was another program's" % path)
    roots = nodes[1:] if nodes and nodes[0].name == 'EBML' else nodes
    observe.check_tree(d, roots if not list_has_header(d) else nodes, full)
    d.close()
    if where not in (None, ':memory:') and (
            str(where) not in fs.files or bytes(fs.get(str(where))) != bytes(full)):
        raise Violation('not-written', 'loadXml() did not write the document to %s' % where)


def list_has_header(d):
    first = next(iter(d), None)
    return first is not None and first.name == 'EBML'

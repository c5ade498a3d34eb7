"""C09: encoding to a stream: complete on success, a clean prefix on failure."""
import io
import struct

from .. import encdata, model, observe
from ..interrupts import LineInterrupt
from ..observe import lib
from ..simfs import SimFS
from ..streams import SimStream, WriteOnlyStream
from ..world import SimCrash, Violation, injected
from .c04 import pick_schema

RUNS = {'quick': 20000, 'thorough': 600000}
RULE = ('each run: a generated or shipped schema and data in a seeded mixture of the documented '
        'shapes, encoded to a stream or file with write errors, torn and short writes, crashes '
        'and interruptions at seeded points, then again without faults; output is parsed by an '
        'independent decoder and compared with the data; non-trivial = something was encoded; '
        'distinct by schema, data shapes, values and faults')
REAL = ['ebmlite.core (encode, read back)', 'ebmlite.encoding', 'ebmlite.decoding',
        'io buffering']
STUB = ['the output stream (SimStream) or simulated file system below io buffering']
ASSUMPTIONS = ['the stream has buffered semantics: a write that returns wrote everything',
               'text values contain no NUL, which ends the text when it is read']
PROBES = ('shape dict', 'shape tuples', 'shape list of values', 'shape list of dicts',
          'shape list of lists', 'shape own header', 'shape document list of dicts', 'shape None', 'with headers',
          'refused', 'error surfaced', 'interrupted', 'crashed', 'torn write', 'retried',
          'explicit size length', 'explicit length', 'explicit master length', 'infinite', 'file output',
          'write-only stream', 'list for one element', 'shape empty', 'mid-stream', 'refused before', 'interrupted before', 'fixed-length element')
CUT = 'C09-unicode-cut'
SHORT = 'C09-short-master'


def setup():
    lib()


def header_want(m):
    """The default header elements the schema describes."""
    e = m.byname.get('EBML')
    if e is None:
        return []
    kids = []
    for name in ('EBMLVersion', 'EBMLReadVersion', 'DocType', 'DocTypeVersion',
                 'DocTypeReadVersion'):
        d = m.byname.get(name)
        if d is not None and d.default is not None:
            v = d.default if name == 'DocType' else int(d.default)
            kids.append(encdata.Want(d, v))
    return [encdata.Want(e, children=kids)]


def compare(wants, nodes, where, world):
    if len(wants) != len(nodes):
        raise Violation('wrong-elements', '%s: %r, data has %r' % (where, nodes, wants))
    for w, n in zip(wants, nodes):
        if n.eid != w.defn.eid:
            raise Violation('wrong-elements', '%s: %r, data has %r' % (where, n, w))
        if w.children is not None:
            compare(w.children, n.children, n.name, world)
        else:
            if isinstance(w.value, tuple):
                if CUT in world.known_ids:
                    world.known[CUT] = world.known.get(CUT, 0) + 1
                else:
                    raise Violation('unreadable-text', '%r of %r' % (n.payload, w))
            if not encdata.same(w, n):
                raise Violation('wrong-value', '%r: %r reads as %r, data has %r' % (
                    n, n.payload[:60], model.leaf_value(n.kind, n.payload), w.value))
            if w.defn.length is not None and n.size != w.defn.length:
                raise Violation('wrong-element-length', '%r, schema says %d' % (
                    n, w.defn.length))


def parse(data, m):
    try:
        return model.refparse(data, m)
    except (model.Malformed, model.Ambiguous, AttributeError, IndexError) as e:
        raise Violation('malformed-output', '%r from %r' % (e, data[:80]))


def run(world):
    ch = world.ch
    if ch.chance(1, 5):
        return elements(world) if ch.chance(1, 5) else element(world)
    m = pick_schema(ch, world, shipped=25, lengths=True)
    if any(d.length for d in m.byid.values()):
        world.probe('fixed-length element')
    schema = observe.load_model_schema(m)
    data, want, g = encdata.document(ch, m, bad=ch.pick([0, 0, 20]),
                                   edges=ch.chance(1, 3))
    for s in g.shapes:
        world.probe('shape ' + s)
    headers = ch.chance(1, 3)
    if headers:
        world.probe('with headers')
        want = header_want(m) + want
    own = 'own header' in g.shapes
    if own:
        world.probe('shape own header')
    before = encdata.freeze_data(data)
    world.case = ('%s headers=%s %r' % (m.file or 'generated schema', headers, data))[:600]
    world.mark(m.file, headers, repr(data)[:400])
    world.nontrivial += bool(want)
    refuse = encdata.refused(want)

    def unmodified():
        if encdata.freeze_data(data) != before:
            raise Violation('data-modified', '%r, was %r' % (data, before))

    try:
        full = schema.encodes(data, headers=headers)
    except Exception as e:
        if not refuse:
            raise Violation('refused', 'valid data raised %r' % (e,))
        world.probe('refused')
        full = None
    else:
        if refuse:
            raise Violation('accepted', 'data that cannot be encoded gave %r' % (full[:80],))
        full = bytes(full)
        nodes = parse(full, m)
        if own and headers:
            # one header or two is not specified; the rest is
            if not nodes or nodes[0].name != 'EBML':
                raise Violation('wrong-header', '%r begins with %r' % (world.case, nodes[:1]))
            compare([w for w in want if w.defn is None or w.defn.name != 'EBML'],
                    [n for n in nodes if n.name != 'EBML'], 'document', world)
        else:
            compare(want, nodes, 'document', world)
        # and the library reads it back the same way
        doc = schema.loads(full)
        roots = nodes[1:] if nodes and nodes[0].name == 'EBML' else nodes
        if not encdata.has_cut(want):
            observe.check_tree(doc, roots, full)
        if headers and 'EBML' in m.byname and not own:
            if doc.type != schema.type or doc.version != schema.version:
                raise Violation('wrong-header', 'type %r version %r' % (doc.type, doc.version))
    unmodified()

    if ch.chance(1, 3):
        again(world, m, schema, data, headers, full)
        unmodified()
    for attempt in range(ch.between(1, 3)):
        faulty = attempt == 0 or ch.chance(1, 2)
        out(world, m, schema, data, headers, full, faulty)
        world.unplan()
        unmodified()
        if attempt:
            world.probe('retried')


def again(world, m, schema, data, headers, full):
    """encodes() after others that failed or were interrupted, or not."""
    ch = world.ch
    for _ in range(ch.between(1, 3)):
        if ch.chance(1, 2):
            other = encdata.document(ch, m, bad=ch.pick([30, 60]))[0]
            try:
                schema.encodes(other, headers=ch.chance(1, 2))
            except Exception:
                world.probe('refused before')
        else:
            try:
                with LineInterrupt(world, ch.pick([10, 40, 150])):
                    schema.encodes(data, headers=ch.chance(1, 2))
            except BaseException as e:
                if not injected(e) and full is not None:
                    raise
                world.probe('interrupted before')
        try:
            got = bytes(schema.encodes(data, headers=headers))
        except Exception as e:
            if full is not None:
                raise Violation('refused', 'the second time, valid data raised %r' % (e,))
            got = None
        if got != full:
            raise Violation('wrong-output', 'encoded again after %s: %r, was %r' % (
                'others', got, full))


def out(world, m, schema, data, headers, full, faulty):
    ch = world.ch
    how = ch.weighted([(4, 'sim'), (2, 'file'), (1, 'bytesio')])
    pre = ch.pick([b'', b'', b'existing bytes'])
    store = None
    if how == 'sim':
        s = SimStream(world, pre + (b'old content' if pre and ch.chance(1, 2) else b''),
                      start=len(pre))
        tail = bytes(s.data[len(pre):])
        if tail:
            world.probe('mid-stream')
        target = WriteOnlyStream(s) if ch.chance(1, 4) else s
        if target is not s:
            world.probe('write-only stream')
        store = s.data
        kinds = ['write_error', 'partial_write', 'interrupt_io', 'crash']
    elif how == 'bytesio':
        target = io.BytesIO(pre)
        target.seek(len(pre))
        tail = b''
        kinds = []
    else:
        world.probe('file output')
        if SimFS not in (type(x) for x in (getattr(world, 'fs', None),)):
            world.fs = SimFS(world)
            world.fs.install()
        world.fs.frozen = False
        node = world.fs.put('/sim/d/out.ebml', pre)
        node.data[:] = pre
        target = open('/sim/d/out.ebml', 'ab', buffering=ch.pick([-1, 2, 16, 100]))
        store = node.data
        tail = b''
        kinds = ['fwrite_error', 'fwrite_short', 'crash']
    if faulty:
        for k in kinds:
            if ch.chance(1, 2):
                world.plan(k, ch.pick([3, 1, 10]))
    n = ch.below(120) if faulty and ch.chance(1, 4) else 0
    before = {k: v for k, v in world.faults.items() if k != 'fwrite_short'}
    err = None
    try:
        with LineInterrupt(world, n):
            got = schema.encode(target, data, headers=headers)
        if got is not target:
            raise Violation('wrong-result', 'encode returned %r' % (got,))
        if how == 'file':
            target.close()
    except Violation:
        raise
    except SimCrash as e:
        world.probe('crashed')
        err = e
    except BaseException as e:
        if not injected(e):
            if full is None and isinstance(e, Exception):
                err = e
            else:
                raise
        else:
            world.probe('interrupted' if not isinstance(e, Exception) else 'error surfaced')
        err = e
    fired = {k: v for k, v in world.faults.items() if k != 'fwrite_short'} != before
    if how == 'bytesio':
        store = target.getvalue()
    if err is None:
        if fired:
            raise Violation('hidden-error', 'a fault was injected but encoding succeeded')
        if full is None:
            raise Violation('accepted', 'data that cannot be encoded was written')
        got = bytes(store)
        if got[:len(pre)] != pre or got[len(pre):len(pre) + len(full)] != full or \
                got[len(pre) + len(full):] != tail[len(full):]:
            raise Violation('wrong-output', '%r, expected %r + %r' % (got, pre, full))
    else:
        got = bytes(store)
        if got[:len(pre)] != pre:
            raise Violation('wrong-output', 'earlier bytes are %r' % (got[:len(pre)],))
        if full is not None:
            wrote = got[len(pre):]
            # bytes not reached yet are still what was there
            k = 0
            while k < len(wrote) and k < len(full) and wrote[k] == full[k]:
                k += 1
            if wrote[k:] != tail[k:] and not any(
                    wrote == full[:j] + tail[j:] for j in range(len(full) + 1)):
                raise Violation('not-a-prefix', '%r, complete bytes are %r' % (wrote, full))
            if k < len(wrote):
                world.probe('torn write')
    if how == 'file':
        world.unplan()
        try:
            target.close()
        except Exception:
            pass


def elements(world):
    """A list given to an element's own encode(): one element for each."""
    ch = world.ch
    m = pick_schema(ch, world, shipped=15, lengths=True)
    schema = observe.load_model_schema(m)
    many = [i for i in sorted(m.byid) if m.byid[i].multiple]
    masters = [i for i in many if m.byid[i].kind == 'master']
    if masters and ch.chance(1, 2):
        many = masters
    if not many:
        return
    d = m.byid[ch.pick(many)]
    cls = schema[d.name]
    g = encdata.Gen(ch, m, nodes=12, depth=2)
    kw = {}
    if ch.chance(1, 2):
        kw['lengthSize'] = ch.pick([2, 3, 4, 8])
    if d.kind == 'master':
        items = [g.master(d, 1) for _ in range(ch.between(1, 3))]
        bad = encdata.refused([w for _, w in items])
        items = [list(v) if isinstance(v, tuple) else v for v, _ in items]
        if any(isinstance(v, list) and v and not isinstance(v[0], tuple) for v in items):
            return
        if ch.chance(1, 2):
            kw['infinite'] = True
        elif ch.chance(1, 3):
            kw['length'] = ch.pick([5, 60, 3000])
    else:
        if ch.chance(1, 3):
            kw['length'] = ch.pick({'float': [4, 8], 'date': [8]}.get(d.kind, [1, 3, 8]))
        vals = [encdata.gen_value(ch, d, kw.get('length')) for _ in range(ch.below(4))]
        bad = any(v is encdata.REFUSE for _, v in vals)
        items = [v for v, _ in vals]
    world.probe('list for one element')
    world.case = ('encode %r: %r %r' % (d, items, kw))[:600]
    world.mark('elements', d.kind, repr(items)[:200], sorted(kw.items()))
    world.nontrivial += 1
    before = encdata.freeze_data(items)
    one = []
    for v in items:
        try:
            one.append(bytes(cls.encode(v, **kw)))
        except Exception as e:
            bad = True
    try:
        got = bytes(cls.encode(items, **kw))
    except Exception as e:
        if not bad:
            raise Violation('refused', '%s raised %r' % (world.case, e))
        return
    finally:
        if encdata.freeze_data(items) != before:
            raise Violation('data-modified', repr(items))
    if bad or got != b''.join(one):
        raise Violation('wrong-list', '%s gave %r, one by one %r%s' % (
            world.case, got[:80], b''.join(one)[:80], ' and an error' if bad else ''))


def element(world):
    """One element's own encode(): lengths, size lengths, unknown sizes."""
    ch = world.ch
    m = pick_schema(ch, world, shipped=15, lengths=True)
    schema = observe.load_model_schema(m)
    d = m.byid[ch.pick(sorted(m.byid))]
    cls = schema[d.name]
    ls = ch.pick([None, 1, 2, 3, 4, 5, 6, 7, 8])
    length = None
    infinite = False
    g = encdata.Gen(ch, m, nodes=12, depth=2, edges=ch.chance(1, 2))
    refuse = False
    if d.kind == 'master':
        infinite = ch.chance(1, 2)
        data, w = g.master(d, 1)
        refuse = encdata.refused([w])
        if ch.chance(1, 3):
            world.probe('explicit master length')
            length = ch.pick([1, 2, 5, 8, 20, 60, 200, 3000])
            if ch.chance(1, 6):
                length = encdata.edge(ch)
    else:
        if ch.chance(1, 2):
            length = {'float': [4, 8], 'date': [8]}.get(d.kind, [1, 2, 3, 5, 7, 8, 130])
            length = ch.pick(length)
            if d.kind in ('uint', 'int'):
                length = min(length, 8)
            if d.kind in ('bin', 'str', 'utf8', 'void') and ch.chance(1, 6):
                length = encdata.edge(ch)
            world.probe('explicit length')
        data, v = encdata.gen_value(ch, d, length, edges=True)
        refuse = v is encdata.REFUSE
        w = encdata.Want(d, v)
        if d.kind == 'void' and length is None:
            length = d.length
        infinite = ch.chance(1, 12)
        if infinite:
            refuse = True
    if ls is not None:
        world.probe('explicit size length')
    if infinite and d.kind == 'master':
        world.probe('infinite')
    before = encdata.freeze_data(data)
    world.case = 'encode %r: %r length=%r lengthSize=%r infinite=%r' % (
        d, data, length, ls, infinite)
    world.case = world.case[:600]
    world.mark('element', d.kind, repr(data)[:200], length, ls, infinite)
    world.nontrivial += 1
    body = None
    if d.kind == 'master' and length is not None and not refuse and not infinite:
        # its contents do not depend on the length
        body = bytes(cls.encode(data))
        k = model.read_header(body, 0)
        body = body[k[1] + k[3]:]
        if len(body) > length:
            refuse = True
    try:
        got = bytes(cls.encode(data, length=length, lengthSize=ls, infinite=infinite))
    except Exception as e:
        if not refuse:
            # refusing is right only if the size cannot be stored that short
            try:
                whole = bytes(cls.encode(data, length=length))
            except Exception as e2:
                raise Violation('refused', '%s raised %r' % (world.case, e2))
            size = model.read_header(whole, 0)[2]
            if ls is None or infinite or size <= (1 << (7 * ls)) - 2:
                raise Violation('refused', '%s raised %r' % (world.case, e))
        world.probe('refused')
        if encdata.freeze_data(data) != before:
            raise Violation('data-modified', repr(data))
        return
    if encdata.freeze_data(data) != before:
        raise Violation('data-modified', repr(data))
    if refuse:
        raise Violation('accepted', '%s gave %r' % (world.case, got[:60]))
    h = model.read_header(got, 0)
    if h is None or h[0] != d.eid:
        raise Violation('malformed-output', '%s gave %r' % (world.case, got[:60]))
    eid, il, size, sl = h
    if ls is not None and sl != ls:
        raise Violation('wrong-size-length', '%s gave %r' % (world.case, got[:60]))
    if infinite != (size is None):
        raise Violation('wrong-size', '%s gave %r' % (world.case, got[:60]))
    if body is not None and size == length > len(body) and got[il + sl:] == body and \
            SHORT in world.known_ids:
        world.known[SHORT] = world.known.get(SHORT, 0) + 1
        return
    padded = body is not None and length is not None and length > len(body)
    body = got[il + sl:]
    if size is not None and len(body) != size:
        raise Violation('wrong-size', '%s gave size %r with %d bytes' % (
            world.case, size, len(body)))
    # (contents of an unknown-size master end at the first invalid child, so
    # they are compared as its bytes)
    if d.kind == 'master':
        kids = parse(body, m)
        if padded and len(kids) > len(w.children) and kids[-1].eid == 0xec:
            kids.pop()
        compare(w.children, kids, d.name, world)
    else:
        n = model.Node(d, eid, body)
        n.offset, n.payload_off, n.end = 0, il + sl, len(got)
        d2 = model.Def(d.eid, d.name, d.kind, length=length if length is not None else d.length)
        compare([encdata.Want(d2, w.value)], [n], 'element', world)

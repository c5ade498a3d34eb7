"""C06: truncated and growing documents: intact data, never invented data."""
from .. import model, observe
from ..observe import lib
from ..simfs import SimFS
from ..streams import SimStream
from ..world import Violation
from .c04 import pick_schema

RUNS = {'quick': 20000, 'thorough': 700000}
RULE = ('each run: a generated or shipped schema and document, cut at a drawn byte (the crash of '
        'its writer) and in most runs growing again at drawn stream operations (even in the '
        'middle of one parse); every element returned is compared with the complete document; '
        'non-trivial = the cut removed something or data arrived while reading; distinct by '
        'document, cut, growth and accesses')
REAL = ['ebmlite.core', 'ebmlite.decoding', 'io buffering']
STUB = ['the stream or file (SimStream / simulated file system)', 'the other process appending']
ASSUMPTIONS = ['a read returns all bytes present, up to those asked for',
               'what an unknown-size master, a cached value or a document length reported '
               'once stays valid for that object (fresh objects see the appended data)']
PROBES = ('by index', 'cut inside an id', 'cut inside a size', 'cut inside a number', 'cut inside a payload',
          'grew during a call', 'partial number refused', 'unknown-size master', 'partial master',
          'iterator resumed after growth')


def setup():
    lib()


SHORT_INT = 'C06-short-signed-int'


class Reader:
    def __init__(self, world, doc, stream, avail):
        self.world = world
        self.doc = doc
        self.stream = stream
        self.avail = avail          # callable: bytes present now
        self.left = 4000

    def fail(self, kind, n, msg):
        raise Violation(kind, '%r with %d of %d bytes: %s' % (
            n, self.avail(), len(self.doc.data), msg))

    def element(self, el, n, k0):
        """An element that was returned; k0 bytes were there before the call."""
        k1 = self.avail()
        if n.payload_off > k1:
            self.fail('invented-element', n, 'returned as %r though its header is cut' % (el,))
        observe.check_ident(el, n)
        if not n.unknown:
            observe.check_size(el, n)

    def leaf(self, el, n):
        k0 = self.avail()
        full = observe.leaf_value(n.kind, n.payload)
        try:
            got = el.value
        except Exception as e:
            if n.end <= k0 and full is not observe.NO_VALUE:
                self.fail('intact-element-unreadable', n, 'value raised %r' % (e,))
            self.world.probe('partial number refused')
            return
        if n.end <= k0:
            if full is not observe.NO_VALUE and not self.partial(el, n, got, full):
                self.fail('wrong-value', n, 'value is %r, expected %r' % (got, full))
            return
        if full is observe.NO_VALUE or observe.same_value(got, full):
            if n.kind in ('str', 'utf8', 'bin', 'void', 'unknown') or n.end <= self.avail() \
                    or full is observe.NO_VALUE or n.size == 0:
                return
        if not self.prefix(n, got, full) and not self.short_int(n, got):
            self.fail('invented-value', n, 'value is %r, written was %r' % (got, full))

    def short_int(self, n, got):
        """Listed finding: a signed integer of which only the first bytes are
        there reads as the number those bytes alone would be."""
        if n.kind != 'int' or SHORT_INT not in self.world.known_ids or type(got) is not int:
            return False
        for k in range(1, n.size):
            if got == int.from_bytes(n.payload[:k], 'big', signed=True):
                self.world.known[SHORT_INT] = self.world.known.get(SHORT_INT, 0) + 1
                return True
        return False

    def prefix(self, n, got, full):
        if n.kind in ('bin', 'unknown', 'void'):
            return isinstance(got, (bytes, bytearray)) and bytes(full).startswith(bytes(got))
        if n.kind in ('str', 'utf8'):
            return isinstance(got, str) and full.startswith(got)
        return False

    def partial(self, el, n, got, full):
        """Right, or a prefix cached before the rest arrived."""
        if observe.same_value(got, full):
            return True
        if id(el) in self.early and (self.prefix(n, got, full) or self.short_int(n, got)):
            return True
        return False

    early = ()

    def raw(self, el, n):
        k0 = self.avail()
        try:
            a, b = bytes(el.getRaw()), bytes(el.getRawValue())
        except Exception as e:
            if n.end <= k0:
                self.fail('intact-element-unreadable', n, 'getRaw raised %r' % (e,))
            return
        k1 = self.avail()
        d = self.doc.data
        size = n.size
        if n.unknown:
            size = min(size, len(b))          # as far as it was known then
        for got, start, end in ((a, n.offset, n.payload_off + size),
                                (b, n.payload_off, n.payload_off + size)):
            if d[start:end][:len(got)] != got or len(got) < min(end, k0) - start:
                self.fail('wrong-raw', n, '%r' % (got[:40],))

    def walk(self, it, nodes, depth=0, k0=None):
        """Iterate freshly, checking every element against the document."""
        w = self.world
        k0 = self.avail() if k0 is None else k0
        i = 0
        made = k0 if isinstance(it, list) else None     # when its elements were parsed
        it = iter(it)
        while True:
            before = self.avail() if made is None else made
            try:
                el = next(it)
            except StopIteration:
                if i < len(nodes) and nodes[i].end <= k0:
                    self.fail('missing-element', nodes[i], 'iteration ended before it')
                return
            except Exception as e:
                if i < len(nodes) and nodes[i].end > before:
                    w.log('iteration raised', type(e).__name__, 'at', nodes[i].offset)
                    return
                self.fail('intact-element-unreadable', nodes[i] if i < len(nodes) else None,
                          'iteration raised %r' % (e,))
            if i >= len(nodes):
                self.fail('invented-element', None, 'extra element %r' % (el,))
            n = nodes[i]
            i += 1
            self.element(el, n, k0)
            if n.end > before:
                self.early = set(self.early) | {id(el)}
                self.keep.append(el)
            self.visit(el, n, depth)

    def visit(self, el, n, depth):
        ch = self.world.ch
        op = ch.below(4)
        if op == 1:
            self.raw(el, n)
        if n.is_master:
            if n.payload_off < self.avail() < n.end:
                self.world.probe('partial master')
            if op == 2:
                # a list of children: all of them or an error
                k0 = self.avail()
                try:
                    kids = el.value
                except Exception as e:
                    if n.end <= k0:
                        self.fail('intact-element-unreadable', n, 'value raised %r' % (e,))
                    kids = None
                if kids is not None:
                    self.walk(list(kids), n.children, depth + 1, k0)
            if op == 3 and n.end <= self.avail():
                observe.check_len(el, n) if not n.unknown else len(el)
            self.walk(el, n.children, depth + 1)
        else:
            self.leaf(el, n)


def run(world):
    ch = world.ch
    m = pick_schema(ch, world, shipped=20)
    spec = model.DocSpec(ch, unknown_size=ch.pick([0, 10, 50]))
    doc = model.gen_document(ch, m, spec)
    nodes = list(model.flatten(doc.roots))
    unknown = any(n.unknown for n in nodes)
    if unknown:
        world.probe('unknown-size master')
    data = doc.data
    # where the writer stopped: anywhere, most often near an element boundary
    if nodes and ch.chance(2, 3):
        n = ch.pick(nodes)
        cut = ch.pick([n.offset, n.payload_off, n.end]) + ch.pick([0, 1, 2, -1, 3, -2])
    else:
        cut = ch.below(len(data) + 1)
    cut = max(0, min(len(data), cut))
    for n in nodes:
        il = len(model.enc_id(n.eid))
        if n.offset < cut < n.offset + il:
            world.probe('cut inside an id')
        elif n.offset + il <= cut < n.payload_off:
            world.probe('cut inside a size')
        elif n.payload_off < cut < n.end and not n.is_master:
            world.probe('cut inside a payload' if n.kind not in ('int', 'uint', 'float', 'date')
                        else 'cut inside a number')
    if cut < len(data):
        world.fired('truncated')
    schema = observe.load_model_schema(m)
    headers = ch.chance(1, 2)
    how = ch.weighted([(3, 'sim'), (2, 'file')])
    world.mark(m.file, how, headers, cut, data[:64], len(data))
    grow = ch.chance(2, 3) and cut < len(data)
    if how == 'sim':
        stream = SimStream(world, data[:cut])
        store = stream.data
        stream.op_budget = 4000 + 400 * (len(data) + 10) * (len(nodes) + 4)
    else:
        fs = SimFS(world)
        fs.install()
        store = fs.put('/sim/d/file.ebml', data[:cut]).data

    def avail():
        return len(store)

    state = {'growing': False, 'calls': 0}

    def append():
        left = len(data) - len(store)
        if left:
            k = ch.pick([1, 2, 8, 60, left])
            k = min(k, left)
            pos = len(store)
            store.extend(data[pos:pos + k])
            world.fired('grew')
            world.mark('grow', pos, k)

    def stream_hook(*_a):
        if state['growing'] and len(store) < len(data) and world.due('grow'):
            world.probe('grew during a call')
            append()

    if how == 'sim':
        stream.hook = stream_hook
        d = schema.load(stream, headers=headers)
    else:
        fs.sabotage = stream_hook
        d = schema.load('/sim/d/file.ebml', headers=headers) if ch.chance(1, 2) else \
            schema.load(open('/sim/d/file.ebml', 'rb', buffering=ch.pick([-1, 0, 4, 32])),
                        headers=headers)
    world.case = '%s via %s, %d of %d bytes, %s: %s' % (
        m.file or 'generated schema', how, cut, len(data), 'growing' if grow else 'final',
        doc.describe()[:300])
    # the header is skipped only if it could be read when the document was opened
    roots = doc.roots
    if d.payloadOffset != 0:
        h = doc.roots[0] if doc.has_header else None
        if headers or h is None or d.payloadOffset != h.end or h.payload_off > avail():
            raise Violation('wrong-payload-offset', 'document starts at %r' % d.payloadOffset)
        roots = doc.roots[1:]
    elif doc.has_header and not headers and doc.roots[0].end <= cut:
        raise Violation('wrong-payload-offset', 'header not skipped')
    if doc.has_header and doc.roots[0].end <= cut:
        observe.check_dump(d.info, observe.model_dump(doc.roots[0]), 'info')
    elif d.info:
        # an incomplete header: anything reported must have been written
        full = observe.model_dump(doc.roots[0]) if doc.has_header else {}
        for k, v in d.info.items():
            w = full.get(k)
            if w is not observe.NO_VALUE and not observe.same_value(v, w) and not (
                    isinstance(v, str) and isinstance(w, str) and w.startswith(v)):
                raise Violation('invented-value', 'info[%r] is %r, written was %r' % (k, v, w))
    r = Reader(world, doc, None, avail)
    r.keep = []
    if grow:
        world.plan('grow', ch.pick([30, 8, 100]))
    its = []
    for _ in ch.repeat(12, mean=4):
        k = ch.weighted([(4, 'walk'), (2, 'append'), (2, 'open'), (5, 'next'), (1, 'dump'),
                         (1, 'len'), (1, 'index')])
        # (what follows an unknown-size master depends on where it was seen to
        # end, so with one in the document data arrives between walks only)
        state['growing'] = grow and not unknown
        if k == 'walk':
            r.walk(d, roots)
        elif k == 'append' and grow:
            append()
            if unknown:
                del its[:]
        elif k == 'open':
            its.append([iter(d), roots, 0])
        elif k == 'next' and its:
            it = ch.pick(its)
            k0 = avail()
            try:
                el = next(it[0])
            except StopIteration:
                if it[2] < len(it[1]) and it[1][it[2]].end <= k0:
                    r.fail('missing-element', it[1][it[2]], 'iterator ended before it')
                its.remove(it)
            except Exception as e:
                if it[2] >= len(it[1]) or it[1][it[2]].end <= k0:
                    raise Violation('intact-element-unreadable', 'iterator raised %r' % (e,))
                its.remove(it)
            else:
                if it[2] >= len(it[1]):
                    r.fail('invented-element', None, 'extra element %r' % (el,))
                n = it[1][it[2]]
                it[2] += 1
                if n.end > cut:
                    world.probe('iterator resumed after growth')
                r.element(el, n, k0)
                if n.end > k0:
                    r.early = set(r.early) | {id(el)}
                    r.keep.append(el)
                r.visit(el, n, 0)
        elif k == 'dump':
            k0 = avail()
            try:
                got = d.dump()
            except Exception as e:
                if not (roots and roots[-1].end > k0) and not observe.has_unreadable(roots):
                    raise Violation('intact-element-unreadable', 'dump raised %r' % (e,))
            else:
                if roots and roots[-1].end <= k0 and not observe.has_unreadable(roots):
                    fake = model.Node(model.Def(0, 'x', 'master'), 0, children=roots)
                    fake.offset = fake.payload_off = fake.end = 0
                    observe.check_dump(got, observe.model_dump(fake), 'document')
        elif k == 'index':
            i = ch.below(len(roots) + 2)
            k0 = avail()
            try:
                el = d[i]
            except IndexError:
                if i < len(roots) and roots[i].end <= k0:
                    r.fail('missing-element', roots[i], 'no document[%d]' % i)
            except Exception as e:
                if not roots or roots[min(i, len(roots) - 1)].end <= k0:
                    raise Violation('intact-element-unreadable', 'document[%d]: %r' % (i, e))
            else:
                world.probe('by index')
                if i >= len(roots):
                    r.fail('invented-element', None, 'document[%d] is %r' % (i, el))
                r.element(el, roots[i], k0)
                if roots[i].end > k0:
                    r.early = set(r.early) | {id(el)}
                    r.keep.append(el)
                r.visit(el, roots[i], 0)
        elif k == 'len':
            k0 = avail()
            try:
                got = len(d)
            except Exception as e:
                raise Violation('intact-element-unreadable', 'len raised %r' % (e,))
            lo = len([n for n in roots if n.end <= k0])
            hi = len([n for n in roots if n.payload_off <= avail()])
            if not state.get('len') and not lo <= got <= hi:
                raise Violation('wrong-length', '%d, but %d..%d are there' % (got, lo, hi))
            state['len'] = True
        state['growing'] = False
    if len(store) == len(data) or ch.chance(1, 2):
        # once complete, a fresh look shows all of it
        store.extend(data[len(store):])
        if how == 'sim':
            stream.op_budget = None
        if roots is doc.roots or roots == doc.roots[1:]:
            observe.check_tree(d, roots, data)
    else:
        r.walk(d, roots)

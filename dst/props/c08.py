"""C08: unknown-size masters read like their known-size equivalents."""
from .. import docops, model, observe
from ..interrupts import LineInterrupt
from ..observe import lib
from ..simfs import SimFS
from ..streams import SimStream
from ..world import Violation, injected
from .c04 import pick_schema

RUNS = {'quick': 18000, 'thorough': 500000}
RULE = ('each run: a generated or shipped schema and a streamed document (chains, nests and '
        'mixtures of unknown-size masters, ended by an invalid element, by their parent or by '
        'the crash of the writer), read once within a budget of stream operations and bytes '
        'proportional to size times depth, then in a seeded access order with stream faults and '
        'interruptions; compared with the model and with the known-size twin; non-trivial = has '
        'an unknown-size master with content; distinct by document and accesses')
REAL = ['ebmlite.core', 'ebmlite.decoding', 'ebmlite.util (flatiter, toXml)', 'io buffering']
STUB = ['the stream or file (SimStream / simulated file system)', 'schedule of accesses']
ASSUMPTIONS = ['nesting is at most 60 deep (the library recurses once per level)',
               'an unknown-size master whose valid children could continue past the end of its '
               'known-size parent is ambiguous in the format and not generated']
PROBES = ('long chain', 'deep nest', 'ended by global', 'ended by unknown id', 'ended by parent',
          'ended by data', 'torn tail', 'known-size twin', 'error surfaced', 'empty master')


def setup():
    lib()


def grow_chain(ch, m, spec):
    """Long runs of unknown-size siblings, or deep nests."""
    masters = [d for d in m.byid.values() if d.kind == 'master' and d.children and
               d.name != 'EBML']
    if not masters:
        return None
    root = ch.pick(masters)

    def filled(d, k):
        kids = []
        for _ in range(k if d.children else 0):
            c = m.byid[ch.pick(d.children)]
            if c.kind == 'master':
                kids.append(model.Node(c, c.eid, children=[], unknown=ch.chance(2, 3),
                                       size_len=ch.pick([None, 4, 8])))
            else:
                kids.append(model.Node(c, c.eid, model.gen_payload(ch, c.kind)))
        return kids

    if ch.chance(1, 2):
        # siblings, as a recorder writes its clusters
        n = ch.weighted([(6, 6), (4, 25), (1, 150), (1, 500)])
        k = ch.below(3)
        body = filled(root, k)
        out = []
        for i in range(n):
            kids = [model.Node(b.defn, b.eid, b.payload,
                               [] if b.children is not None else None, b.size_len, b.unknown)
                    for b in body]
            out.append(model.Node(root, root.eid, children=kids, unknown=True,
                                  size_len=ch.pick([None, 8]) if n < 50 else 1))
        parents = [d for d in masters if root.eid in d.children and d is not root]
        if parents and ch.chance(1, 2):
            p = ch.pick(parents)
            out = [model.Node(p, p.eid, children=out, unknown=ch.chance(2, 3))]
        return out
    # a nest as deep as the schema allows (or a recursive one)
    node = top = model.Node(root, root.eid, children=filled(root, ch.below(2)), unknown=True)
    d = root
    for _ in range(ch.pick([4, 12, 30])):
        subs = [m.byid[c] for c in d.children if m.byid[c].kind == 'master'] or \
            [m.byid[c] for c in sorted(m.globals) if m.byid[c].kind == 'master']
        if not subs:
            break
        d = ch.pick(subs)
        sub = model.Node(d, d.eid, children=filled(d, ch.below(2)) if d.children else [],
                         unknown=not ch.chance(1, 6))
        node.children.append(sub)
        if d.children and ch.chance(1, 3):
            node.children.extend(filled(m.byid[node.eid], 1))
        node = sub
    tail = []
    for _ in ch.repeat(3, 2):
        d = ch.pick([x for x in m.byid.values() if x.kind != 'master'])
        tail.append(model.Node(d, d.eid, model.gen_payload(ch, d.kind)))
    return [top] + tail


def gen(ch, m, world):
    spec = model.DocSpec(ch, unknown_size=ch.pick([50, 90, 25]), depth=ch.pick([4, 3, 7]))
    if ch.chance(1, 3):
        for _ in range(4):
            roots = grow_chain(ch, m, spec)
            if roots is None:
                break
            e = m.byname.get('EBML')
            if e is not None and ch.chance(1, 2):
                roots.insert(0, model.Node(e, e.eid, children=[]))
            try:
                doc = model.DocModel(m, roots)
            except (model.Ambiguous, model.Malformed, RecursionError):
                continue
            if max(map(depth_of, model.flatten(doc.roots)), default=0) <= 60:
                return doc
    return model.gen_document(ch, m, spec)


def depth_of(n):
    d = 0
    while n.parent is not None:
        d += 1
        n = n.parent
    return d


def twin(doc):
    """The same tree with every size recorded."""
    def copy(n):
        return model.Node(n.defn, n.eid, n.payload,
                          None if n.children is None else [copy(c) for c in n.children],
                          n.size_len if not n.unknown else None)
    roots = [copy(n) for n in doc.roots]
    model.layout(roots)
    return roots, b''.join(n.encoded() for n in roots)


def content(el):
    L = lib()
    if isinstance(el, L['core'].MasterElement):
        v = tuple(content(c) for c in el)
        if len(el) != len(v):
            raise Violation('wrong-length', '%r: %d, has %d' % (el, len(el), len(v)))
    else:
        try:
            v = observe.freeze(el.value)
        except Exception as e:
            v = ('raised', type(e).__name__)
    return el.id, el.name, v


def run(world):
    ch = world.ch
    m = pick_schema(ch, world, shipped=25)
    doc = gen(ch, m, world)
    nodes = list(model.flatten(doc.roots))
    unknown = [n for n in nodes if n.unknown]
    for n in unknown:
        if not n.children:
            world.probe('empty master')
        nxt = doc.data[n.end:]
        if not nxt:
            world.probe('ended by data')
        elif n.parent is not None and n.end == n.parent.end and not n.parent.unknown:
            world.probe('ended by parent')
        else:
            eid = model.read_header(doc.data, n.end)[0]
            if eid not in m.byid:
                world.probe('ended by unknown id')
            elif eid in m.globals:
                world.probe('ended by global')
    if len(unknown) > 100:
        world.probe('long chain')
    depths = {id(n): depth_of(n) for n in nodes}
    deep = max(depths.values(), default=0)
    if deep > 8:
        world.probe('deep nest')
    if any(n.children for n in unknown):
        world.nontrivial += 1
    data = doc.data
    torn = b''
    # the crash of a streaming writer may leave the header of one more element
    if unknown and nodes[-1].end == len(data) and ch.chance(1, 4):
        torn = ch.pick([b'\x1a', b'\x42', b'\x1f\x43\xb6', b'\x2a\xd7', b'\x81'])
        world.probe('torn tail')
    schema = observe.load_model_schema(m)
    headers = ch.chance(1, 2)
    how = ch.weighted([(4, 'sim'), (1, 'file')])
    base = ch.pick([0, 0, 5]) if how == 'sim' else 0
    blob = b'\x42' * base + data + torn
    roots = doc.visible(headers)
    world.case = '%s via %s at %d, %d bytes + %d torn: %s' % (
        m.file or 'generated schema', how, base, len(data), len(torn), doc.describe()[:300])
    world.mark(m.file, how, base, headers, torn, data[:64], len(data))
    cost = sum(depths[id(n)] + 3 for n in nodes) + 4 * (deep + 4)
    if how == 'sim':
        stream = SimStream(world, blob, start=base)
        stream.quiet = True
        stream.op_budget = 200 + 40 * cost
        stream.byte_budget = 400 + 8 * len(blob) * (deep + 3)
    else:
        fs = SimFS(world)
        fs.install()
        fs.put('/sim/d/f.ebml', blob)
        stream = '/sim/d/f.ebml'
    d = schema.load(stream, headers=headers)

    # reading all of it once, in order
    def once(it, ns):
        i = 0
        for el in it:
            if i >= len(ns):
                raise Violation('wrong-children', 'extra element %r' % (el,))
            n = ns[i]
            i += 1
            observe.check_ident(el, n, base)
            if n.is_master:
                once(el, n.children)
                observe.check_size(el, n)
                observe.check_len(el, n)
            else:
                try:
                    observe.check_value(el, n, data, base)
                except Violation:
                    raise
                except Exception:
                    if observe.leaf_value(n.kind, n.payload) is not observe.NO_VALUE:
                        raise
        if i != len(ns):
            raise Violation('wrong-children', '%d of %d elements' % (i, len(ns)))

    once(d, roots)
    if how == 'sim':
        world.log('read once', stream.ops, stream.bytes_read)
        stream.op_budget = stream.byte_budget = None
        stream.quiet = False
    if len(nodes) > 120:
        return
    # any other order, with faults
    x = docops.Session(world, doc, d, roots, None, base, None, m)
    if ch.chance(1, 2):
        for k in ('read_error', 'interrupt_io', 'seek_error', 'fread_error'):
            world.plan(k, ch.pick([10, 40]))
    for _ in ch.repeat(25, mean=10):
        before = sum(world.faults.values())
        n = ch.below(150) if ch.chance(1, 8) else 0
        try:
            with LineInterrupt(world, n):
                x.any(ch)
        except Violation:
            raise
        except BaseException as e:
            if not injected(e):
                raise
            world.probe('error surfaced')
            world.log('surfaced', type(e).__name__)
        else:
            if sum(world.faults.values()) != before:
                raise Violation('hidden-error', 'a fault was injected but the call returned')
    world.unplan()
    for h in x.handles:
        observe.check_tree([h.el], [h.n], data, base, raw=False)
    # (what a document ending in a torn header has there is C06's concern)
    observe.check_tree(d, roots, data if base == 0 else data, base)
    if ch.chance(1, 3):
        world.probe('known-size twin')
        troots, tdata = twin(doc)
        t = schema.loads(tdata)
        mine = [content(el) for el in schema.load(SimStream(world, data))]
        other = [content(el) for el in t]
        if mine != other:
            raise Violation('twin-differs', '%r\nknown sizes: %r' % (mine, other))

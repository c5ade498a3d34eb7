"""Random accesses to a document, every result compared with the model.

Used by C03 (by several threads), C04 (with disturbances) and C05 (with
faults): a Session owns partially advanced iterators and shares handles.
"""
from . import observe
from .model import Def, Node, flatten
from .observe import lib
from .world import Violation


class Handle:
    def __init__(self, el, n):
        self.el, self.n = el, n


EL_OPS = [(3, 'value'), (2, 'ident'), (2, 'raw'), (2, 'rawvalue'), (2, 'len'), (2, 'gc'),
          (2, 'gcrec'), (2, 'iter'), (2, 'index'), (2, 'children'), (2, 'dump'), (1, 'xml'),
          (1, 'eq')]
DOC_OPS = [(3, 'list'), (2, 'len'), (3, 'index'), (1, 'indexerror'), (3, 'iter'), (1, 'value'),
           (1, 'info'), (1, 'flat'), (1, 'dump'), (1, 'size')]


class Session:
    """Accesses by one client (thread) to one document."""

    def __init__(self, world, doc, d, roots, handles=None, base=0, size=None, m=None):
        self.world = world
        self.doc = doc               # model.DocModel
        self.d = d                   # library Document
        self.roots = roots           # model nodes the document must show
        self.handles = [] if handles is None else handles
        self.iters = []              # [iterator, nodes, position]
        self.base = base
        self.size = size
        self.m = m
        self.disturb = lambda name: None

    def add(self, el, n):
        self.handles.append(Handle(el, n))
        if len(self.handles) > 60:
            del self.handles[:20]

    # -- on the document -----------------------------------------------------------
    def docop(self, ch, op=None):
        d, roots, base, doc = self.d, self.roots, self.base, self.doc
        op = op or ch.weighted(DOC_OPS)
        self.world.mark('doc', op)
        if op == 'list':
            observe.check_children(list(d), None, base, roots)
        elif op == 'len':
            if len(d) != len(roots):
                raise Violation('wrong-length', 'len(document) %d, expected %d' % (
                    len(d), len(roots)))
        elif op == 'index' and roots:
            i = ch.below(len(roots))
            el = d[i]
            observe.check_ident(el, roots[i], base)
            self.add(el, roots[i])
        elif op == 'indexerror':
            try:
                el = d[len(roots)]
            except IndexError:
                pass
            else:
                raise Violation('wrong-children', 'document[%d] gave %r' % (len(roots), el))
        elif op == 'iter':
            self.iters.append([iter(d), roots, 0])
        elif op == 'value':
            self.iters.append([d.value, roots, 0])
        elif op == 'info':
            if doc.has_header:
                observe.check_dump(d.info, observe.model_dump(doc.roots[0]), 'info')
                want = {c.name: observe.leaf_value(c.kind, c.payload)
                        for c in doc.roots[0].children}
                if d.type != want.get('DocType') or d.version != want.get('DocTypeVersion'):
                    raise Violation('wrong-info', 'type %r version %r' % (d.type, d.version))
            elif d.info != {}:
                raise Violation('wrong-info', repr(d.info))
            if d.gc(True) != 0:
                raise Violation('wrong-gc', 'document gc')
        elif op == 'flat':
            self.iters.append([lib()['util'].flatiter(d), list(flatten(roots)), 0])
        elif op == 'dump' and not observe.has_unreadable(roots):
            fakeroot = Node(Def(0, 'x', 'master'), 0, children=roots)
            fakeroot.offset = fakeroot.payload_off = fakeroot.end = 0
            observe.check_dump(d.dump(), observe.model_dump(fakeroot), 'document')
        elif op == 'size' and self.size is not None and d.size != self.size:
            raise Violation('wrong-size', 'document size %r, expected %d' % (d.size, self.size))

    # -- on one element ----------------------------------------------------------------
    def elop(self, ch, h, op=None):
        el, n = h.el, h.n
        data, base, L = self.doc.data, self.base, lib()
        op = op or ch.weighted(EL_OPS)
        self.world.mark(n.offset, op)
        if op == 'value':
            observe.check_value(el, n, data, base)
        elif op == 'ident':
            observe.check_ident(el, n, base)
            observe.check_size(el, n)
        elif op == 'raw':
            observe.check_raw(el, n, data)
        elif op == 'rawvalue':
            observe.check_rawvalue(el, n, data)
        elif op == 'len':
            observe.check_len(el, n)
        elif op == 'gc':
            el.gc()
            self.disturb('gc')
        elif op == 'gcrec':
            el.gc(recurse=True)
            self.disturb('gc recursive')
        elif op == 'iter' and n.is_master:
            self.iters.append([iter(el), n.children, 0])
        elif op == 'index' and n.is_master and n.children:
            i = ch.below(len(n.children))
            idx = i if ch.chance(1, 2) else i - len(n.children)
            c = el[idx]
            observe.check_ident(c, n.children[i], base)
            self.add(c, n.children[i])
        elif op == 'children' and n.is_master:
            v = el.value
            observe.check_children(v, n, base)
            for c, k in zip(v, n.children):
                self.add(c, k)
        elif op == 'dump' and not observe.has_unreadable([n]):
            observe.check_dump(el.dump(), observe.model_dump(n), 'dump', n)
        elif op == 'xml' and not observe.has_unreadable([n]):
            if n.is_master:
                self.iters.append([L['util'].flatiter(el, depth=1), n.children, 0])
            x = L['util'].toXml(el, offsets=True, sizes=True, types=False, ids=True,
                                binary_codec='hex')
            observe.check_xml([x], [n], base, True, True, True, self.m)
        elif op == 'eq':
            self.equality(ch, h)

    def equality(self, ch, h):
        """Two objects for the same place are equal; for different places
        with the same class they are not (unknown elements go by content)."""
        o = self.handles[ch.below(len(self.handles))]
        a, b, x, y = h.el, o.el, h.n, o.n
        if a.schema is not b.schema:
            return                   # documents of different schema instances
        if x is y:
            nan = x.kind == 'float' and observe.leaf_value('float', x.payload) != \
                observe.leaf_value('float', x.payload)
            if nan:
                return
            if x.kind in ('float', 'int', 'uint', 'date', 'str', 'utf8') and \
                    observe.leaf_value(x.kind, x.payload) is observe.NO_VALUE:
                return
            want = True
        elif x.kind == 'unknown' and y.kind == 'unknown':
            want = x.eid == y.eid and x.payload == y.payload
        elif x.eid != y.eid or x.offset != y.offset:
            want = False
        else:
            return
        got = a == b
        if got is not want:
            raise Violation('wrong-equality', '%r == %r gave %r' % (x, y, got))

    # -- on a partially advanced iterator --------------------------------------------------
    def iterop(self, ch):
        it = self.iters[ch.below(len(self.iters))]
        if len(self.iters) > 1:
            self.disturb('interleaved iterators')
        if ch.chance(1, 10):
            # given up half-way
            self.iters.remove(it)
            if ch.chance(1, 2) and hasattr(it[0], 'close'):
                it[0].close()
            del it
            self.disturb('abandoned iteration')
            return
        try:
            el = next(it[0])
        except StopIteration:
            if it[2] != len(it[1]):
                raise Violation('iteration-ended', 'after %d of %d' % (it[2], len(it[1])))
            self.iters.remove(it)
        except BaseException:
            self.iters.remove(it)         # a generator that raised is finished
            raise
        else:
            if it[2] >= len(it[1]):
                raise Violation('wrong-children', 'extra element %r' % (el,))
            n = it[1][it[2]]
            it[2] += 1
            observe.check_ident(el, n, self.base)
            self.add(el, n)
            self.world.mark('next', n.offset)

    def any(self, ch):
        k = ch.weighted([(10, 'el'), (5, 'doc'), (8, 'iter')])
        if k == 'el' and self.handles:
            # old handles are as likely as new ones
            self.elop(ch, self.handles[ch.below(len(self.handles))])
        elif k == 'iter' and self.iters:
            self.iterop(ch)
        else:
            self.docop(ch)

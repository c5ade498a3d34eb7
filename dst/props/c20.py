"""C20: only what is asked for is read, and what was read stays until gc()."""
import io

from .. import model, observe
from ..model import NO_VALUE, flatten, leaf_value, same_value
from ..observe import lib
from ..simfs import SimFS
from ..streams import SimStream
from ..world import Violation, injected

RUNS = {'quick': 16000, 'thorough': 400000}
RULE = ('each run: a generated or shipped schema and a document with some large values, opened '
        'and accessed in a seeded order (iteration, indexing, counting, values, raw bytes, dumps, '
        'partially advanced iterators, cache clearing) while regions of the file are unreadable '
        'or slow, the whole stream fails for a while, and values are overwritten in place; every '
        'read is attributed to the access that caused it; non-trivial = a bad region, outage or '
        'overwritten value was there during an access that must not notice; distinct by accesses, '
        'faults and document')
REAL = ['ebmlite.core', 'ebmlite.decoding', 'ebmlite.util (flatiter, pprint)', 'io buffering']
STUB = ['caller streams (SimStream) or simulated file system below io buffering', 'schedule']
ASSUMPTIONS = ['reading ahead by up to 64 bytes (or a buffer of the io layer) is not reading a value (a '
               'read that starts where a value starts is): a bad region is at least that far from '
               'the ends of its value']
PROBES = ('bad region unnoticed', 'bad region hit', 'slow region unnoticed', 'outage unnoticed',
          'overwritten, cached', 'overwritten, cleared', 'opened with a bad region',
          'precached master', 'precached large value', 'unknown-size master', 'counted',
          'named file', 'start offset', 'gc recursive', 'half-advanced iterator')

NUMERIC = ('uint', 'int', 'float', 'date')
AHEAD = 64
ALL = None


def setup():
    lib()


def precached(n):
    if n.defn is None:
        return False
    if n.defn.precache is not None and n.kind != 'void':
        return n.defn.precache
    return n.kind in NUMERIC


def parsed_with(n):
    """The leaves whose values are read when n is."""
    if not precached(n):
        return []
    if not n.is_master:
        return [n]
    return [x for c in n.children for x in parsed_with(c)]


def beneath(n):
    return [x for x in flatten([n]) if not x.is_master]


class H:
    """An element object, and what is known of its caches."""

    def __init__(self, el, n):
        self.el, self.n = el, n
        self.cached = precached(n)      # True, False or None: not known
        self.want = n.payload
        self.kids = None

    def __repr__(self):
        return 'H(%r%s)' % (self.n, {True: ', cached', False: '', None: ', maybe cached'}[
            self.cached])


class Run:
    def __init__(self, world):
        self.w, self.ch = world, world.ch
        self.handles = []
        self.known = {}              # id(el) -> H
        self.iters = []
        self.regions = []            # (node, start, end, kind) in the document
        self.outage = False
        self.touched = set()         # nodes overwritten
        self.allowed = ALL           # leaves the current access may read
        self.no_io = False
        self.found = None
        self.ahead = AHEAD

    # -- reads ---------------------------------------------------------------
    def reading(self, pos, size):
        """A read of the document's bytes is about to happen."""
        w = self.w
        if size <= 0 or not self.watching:
            return
        a, b = pos - self.base, pos - self.base + size
        if self.no_io and self.found is None:
            self.found = ('read-again', '%d bytes at %d were read' % (size, a))
        if self.allowed is not ALL and self.found is None:
            for n in self.large:
                if a < n.end - self.ahead and b > n.payload_off + self.ahead \
                        and n not in self.allowed:
                    self.found = ('read-unneeded', 'bytes %d to %d of the value of %r were read'
                                  % (max(a, n.payload_off) - n.payload_off,
                                     min(b, n.end) - n.payload_off, n))
            # (a read of a value, from its start, is no read-ahead)
            n = self.starts.get(a)
            if n is not None and n not in self.allowed and self.found is None:
                self.found = ('read-unneeded', 'the value of %r was read' % n)
        if self.outage:
            w.fired('outage')
            raise w.oserror(what='read')
        for n, x, y, kind in self.regions:
            if a < y and b > x:
                if kind == 'slow':
                    w.fired('slow_region')
                    w.now += 60 * 10 ** 6
                else:
                    w.fired('bad_region')
                    raise w.oserror(what='read')

    watching = True

    def hook(self, s, what, args):
        if what == 'read':
            end = len(s.data) if args[0] < 0 else s.pos + args[0]
            self.reading(s.pos, min(end, len(s.data)) - s.pos)

    # -- one access --------------------------------------------------------------
    def access(self, desc, f, leaves=ALL, no_io=False):
        """(ok, result).  leaves: the values that may be read."""
        w = self.w
        self.allowed = ALL if leaves is ALL else set(leaves)
        self.no_io = no_io
        self.found = None
        hit = [r for r in self.regions if leaves is ALL or r[0] in self.allowed]
        must = (no_io or not hit) and (no_io or not self.outage)
        start = w.now
        err = res = None
        w.log('access', desc, 'no io' if no_io else '' if leaves is ALL else len(leaves))
        w.mark(desc, must)
        try:
            res = f()
        except Violation:
            raise
        except Exception as e:
            err = e
        if self.found:
            raise Violation(self.found[0], '%s: %s' % (desc, self.found[1]))
        if err is not None and (must or not injected(err)):
            raise Violation('failed', '%s raised %r, with %s' % (
                desc, err, self.regions or 'nothing wrong with the file'))
        if must and w.now - start > 10 ** 6:
            raise Violation('delayed', '%s took %d s' % (desc, (w.now - start) // 10 ** 6))
        if must:
            if self.outage:
                w.probe('outage unnoticed')
            for r in self.regions:
                w.probe('slow region unnoticed' if r[3] == 'slow' else 'bad region unnoticed')
            if self.outage or self.regions or self.touched:
                w.nontrivial += 1
        elif err is not None:
            w.probe('bad region hit')
        if err is not None:
            w.log('failed', type(err).__name__)
        self.allowed = ALL
        self.no_io = False
        return err is None, res

    # -- element objects -----------------------------------------------------------
    def got(self, el, n):
        observe.check_ident(el, n, self.base)
        h = self.known.get(id(el))
        if h is not None and h.el is el:
            return h
        h = H(el, n)
        self.known[id(el)] = h
        self.handles.append(h)
        return h

    def children_of(self, h, els):
        """The value of a master was returned."""
        n = h.n
        els = list(els)
        if len(els) != len(n.children):
            raise Violation('wrong-children', '%r: %r, expected %r' % (n, els, n.children))
        kids = []
        for el, c in zip(els, n.children):
            new = not (id(el) in self.known and self.known[id(el)].el is el)
            k = self.got(el, c)
            if new and h.cached is not False:
                k.cached = None           # (may have been used before)
            kids.append(k)
        h.kids = kids
        h.cached = True

    # -- accesses to an element -----------------------------------------------------
    def element(self, h, op=None):
        ch, w, el, n = self.ch, self.w, h.el, h.n
        op = op or ch.weighted([(6, 'value'), (2, 'len'), (2, 'gc'), (1, 'gcrec'), (3, 'iter'),
                                (3, 'index'), (1, 'raw'), (1, 'rawvalue'), (1, 'dump'),
                                (2, 'ident'), (1, 'repr')])
        desc = '%s of %r' % (op, h)
        if op in ('ident', 'repr'):
            f = (lambda: (el.id, el.name, el.offset, el.payloadOffset, el.size)) \
                if op == 'ident' else (lambda: repr(el))
            ok, res = self.access(desc, f, (), no_io=not n.unknown)
            if not ok:
                return
            if op == 'ident' and res != (n.eid, n.name, self.base + n.offset,
                                         self.base + n.payload_off, n.size):
                raise Violation('wrong-ident', '%r: %r' % (n, res))
        elif op == 'value':
            self.value(h, desc)
        elif op == 'len':
            if n.is_master:
                w.probe('counted')
                ok, res = self.access(desc, lambda: len(el), ())
                if ok and res != len(n.children):
                    raise Violation('wrong-length', '%r: %r' % (n, res))
            elif n.kind in ('bin', 'void', 'unknown', 'str'):
                ok, res = self.access(desc, lambda: len(el), (), no_io=True)
                if res != n.size:
                    raise Violation('wrong-length', '%r: %r' % (n, res))
        elif op == 'gc':
            self.access(desc, lambda: el.gc(), (), no_io=True)
            h.cached = False if not n.kind == 'void' else None
            h.kids = None
        elif op == 'gcrec':
            w.probe('gc recursive')
            self.access(desc, lambda: el.gc(recurse=True), (), no_io=True)
            self.cleared(h)
        elif op == 'iter' and n.is_master:
            self.iters.append([iter(el), h, n.children, 0])
        elif op == 'index' and n.is_master and n.children:
            i = ch.below(len(n.children))
            idx = i if ch.chance(1, 2) else i - len(n.children)
            was = h.cached
            ok, c = self.access(desc, lambda: el[idx],
                                [x for k in n.children for x in parsed_with(k)],
                                no_io=bool(h.cached))
            if ok:
                # (the others were read with it; get them the same way)
                new = not (id(c) in self.known and self.known[id(c)].el is c)
                k = self.got(c, n.children[i])
                if new and was is not False:
                    k.cached = None
                if not was:
                    h.cached = None
            elif h.cached is False:
                h.cached = None
        elif op == 'raw':
            ok, res = self.access(desc, lambda: el.getRaw(),
                                  beneath(n))
            if ok and bytes(res) != self.data()[n.offset:n.end]:
                raise Violation('wrong-raw', '%r: %r' % (n, bytes(res)[:60]))
        elif op == 'rawvalue':
            ok, res = self.access(desc, lambda: el.getRawValue(), beneath(n))
            if ok and bytes(res) != self.data()[n.payload_off:n.end]:
                raise Violation('wrong-raw', '%r: %r' % (n, bytes(res)[:60]))
        elif op == 'dump' and not n.is_master:
            self.value(h, desc, dump=True)
        elif op == 'dump' and not observe.has_unreadable([n]):
            under = beneath(n)
            ok, res = self.access(desc, lambda: el.dump(), under)
            if ok and not any(x in self.touched for x in under):
                observe.check_dump(res, observe.model_dump(n), 'dump', n)

    def cleared(self, h):
        if h.n.is_master and h.cached is False:
            return
        if h.n.is_master and (h.cached is None or h.kids is None):
            self.unsure(h.n)
        else:
            for k in h.kids or ():
                self.cleared(k)
        h.cached = False if h.n.kind != 'void' else None
        h.kids = None

    def unsure(self, n):
        """Objects beneath n not all known: their caches may be cleared."""
        inside = set(flatten(n.children))
        for k in self.handles:
            if k.n in inside:
                k.cached = None

    def value(self, h, desc, dump=False):
        ch, w, el, n = self.ch, self.w, h.el, h.n
        get = (lambda: el.dump()) if dump else (lambda: el.value)
        if n.is_master:
            ok, res = self.access(desc, get, [x for k in n.children for x in parsed_with(k)],
                                  no_io=bool(h.cached))
            if ok:
                self.children_of(h, res)
            elif h.cached is False:
                h.cached = None
            return
        want = leaf_value(n.kind, n.payload)
        old = leaf_value(n.kind, h.want)
        if want is NO_VALUE:
            return
        ok, res = self.access(desc, get, [n] if n.kind != 'void' else (),
                              no_io=bool(h.cached) or n.kind == 'void')
        if not ok:
            return
        if h.cached:
            if not same_value(res, old):
                raise Violation('not-kept', '%s: %r, was %r' % (desc, res, old))
            if n in self.touched and h.want != n.payload:
                w.probe('overwritten, cached')
        elif h.cached is False:
            if not same_value(res, want):
                raise Violation('stale', '%s: %r, expected %r (was %r)' % (desc, res, want, old))
            if n in self.touched and h.want != n.payload:
                w.probe('overwritten, cleared')
        elif n not in self.touched and not same_value(res, want):
            raise Violation('wrong-value', '%s: %r, expected %r' % (desc, res, want))
        if h.cached is False:
            h.want = n.payload
        if h.cached is None and n in self.touched:
            return                    # (not known which it is)
        h.cached = True

    # -- accesses to the document ------------------------------------------------------
    def document(self):
        ch, w, d, roots = self.ch, self.w, self.d, self.roots
        op = ch.weighted([(3, 'list'), (2, 'len'), (4, 'index'), (3, 'iter'), (2, 'flat'),
                          (1, 'pprint'), (1, 'info'), (1, 'repr')])
        desc = 'document ' + op
        if op == 'list':
            ok, els = self.access(desc, lambda: list(d), [x for r in roots
                                                         for x in parsed_with(r)])
            if ok:
                if len(els) != len(roots):
                    raise Violation('wrong-children', 'document: %r' % (els,))
                for el, r in zip(els, roots):
                    self.fresh(el, r)
        elif op == 'len':
            w.probe('counted')
            ok, res = self.access(desc, lambda: len(d), ())
            if ok and res != len(roots):
                raise Violation('wrong-length', 'document: %r' % res)
        elif op == 'index' and roots:
            i = ch.below(len(roots))
            ok, el = self.access(desc, lambda: d[i], [x for r in roots[:i + 1]
                                                      for x in parsed_with(r)])
            if ok:
                self.fresh(el, roots[i])
        elif op == 'iter':
            self.iters.append([iter(d) if ch.chance(1, 2) else d.value, None, roots, 0])
        elif op == 'flat':
            depth = ch.pick([None, 1, 2])
            nodes = [n for n in flatten(roots) if depth is None or self.depth(n) <= depth]
            self.iters.append([lib()['util'].flatiter(d, depth), None, nodes, 0])
        elif op == 'pprint':
            out = io.StringIO()
            self.access(desc, lambda: lib()['util'].pprint(d, values=False, out=out),
                        [x for r in flatten(roots) for x in parsed_with(r)])
        elif op == 'info':
            ok, res = self.access(desc, lambda: (d.info, d.type, d.version), (), no_io=True)
            if observe.freeze(res) != self.info:
                raise Violation('wrong-info', '%r, was %r' % (res, self.info))
        elif op == 'repr':
            self.access(desc, lambda: repr(d), (), no_io=True)

    def depth(self, n):
        k = 1
        while n.parent is not None:
            k += 1
            n = n.parent
        return k

    def fresh(self, el, n):
        h = self.got(el, n)
        if len(self.handles) > 80:
            for old in self.handles[:25]:
                self.known.pop(id(old.el), None)
            del self.handles[:25]
            self.known[id(h.el)] = h
        return h

    def step(self):
        ch = self.ch
        self.w.probe('half-advanced iterator')
        it = ch.pick(self.iters)
        gen, parent, nodes, k = it
        todo = nodes[k:k + 1]
        kinds = [x for c in todo for x in parsed_with(c)]
        ended = []

        def f():
            try:
                return next(gen)
            except StopIteration:
                ended.append(1)
        ok, el = self.access('next of %r after %d' % (parent or 'the document', k), f, kinds)
        if not ok:
            self.iters.remove(it)
            return
        if ended:
            self.iters.remove(it)
            if todo:
                raise Violation('ended-early', 'iteration ended after %d of %d' % (k, len(nodes)))
            return
        if not todo:
            raise Violation('wrong-children', 'extra element %r' % (el,))
        it[3] += 1
        new = id(el) not in self.known or self.known[id(el)].el is not el
        h = self.fresh(el, todo[0])
        if new and parent is not None and parent.cached is not False \
                and any(x in self.touched for x in flatten(todo)):
            h.cached = None

    # -- the world ------------------------------------------------------------------------
    def data(self):
        return bytes(self.store()[self.base:])

    def store(self):
        return self.stream.data if isinstance(self.stream, SimStream) else \
            self.fs.files['/sim/d/file.ebml'].data

    def damage(self):
        ch, w = self.ch, self.w
        if not self.large:
            return
        n = ch.pick(self.large)
        a = ch.between(n.payload_off + self.ahead, n.end - self.ahead - 1)
        b = ch.between(a + 1, n.end - self.ahead)
        r = (n, a, b, ch.pick(['bad', 'bad', 'slow']))
        self.regions.append(r)
        w.log('region', r)

    def family(self):
        """Read all of a master, change some of it, clear it, read again."""
        ch, w = self.ch, self.w
        homes = [h for h in self.handles if any(c.is_master for c in h.n.children or ())] or \
            [h for h in self.handles if h.n.is_master]
        if not homes:
            return
        top = ch.pick(homes)
        members = []

        def crawl(h):
            members.append(h)
            if len(members) < 60:
                self.element(h, 'value')
                for k in h.kids or ():
                    crawl(k)
        crawl(top)
        for _ in range(ch.below(4)):
            self.overwrite([h for h in members if not h.n.is_master])
        if ch.chance(2, 3):
            self.element(top if ch.chance(3, 4) else ch.pick(members), 'gcrec')
        for h in ch.shuffle(members)[:10]:
            self.element(h, 'value')

    def overwrite(self, among=None):
        """Another program changes a value in place."""
        ch, w = self.ch, self.w
        nodes = [n for n in self.leaves if n.kind != 'void' and n.size]
        if not nodes or self.how == 'file':
            return
        h = [x.n for x in among or self.handles
             if x.n in self.leafset and x.n.kind != 'void' and x.n.size]
        n = ch.pick(h) if h and ch.chance(2, 3) else ch.pick(nodes)
        if leaf_value(n.kind, n.payload) is NO_VALUE:
            return
        if n.kind in ('str', 'utf8'):
            new = bytes(97 + ch.below(26) for _ in range(min(n.size, 4))).ljust(n.size, b'x')
        elif n.kind == 'float':
            new = model.struct.pack('>f' if n.size == 4 else '>d', ch.below(1000) / 4)
        elif n.kind == 'date':
            new = (ch.below(10 ** 6) * 10 ** 9).to_bytes(8, 'big')
        else:
            new = bytes(ch.below(256) for _ in range(min(n.size, 4))).ljust(n.size, b'\x05')
        n.payload = new
        self.store()[self.base + n.payload_off:self.base + n.end] = new
        self.touched.add(n)
        w.log('overwritten', n)

    # -- the run ----------------------------------------------------------------------------
    def prepare(self):
        from .. import runner
        ch, w = self.ch, self.w
        if ch.chance(1, 8):
            ms = model.shipped(runner.REPO)
            m = ms[ch.pick(sorted(ms))]
        else:
            m = model.gen_schema(ch)
            if ch.chance(1, 3):
                for d in m.byid.values():
                    if d.kind == 'master' and d.name != 'EBML' and ch.chance(1, 3):
                        d.precache = True
                m.xml = model.schema_xml(m)
        self.how = ch.weighted([(7, 'sim'), (2, 'file')])
        spec = model.DocSpec(ch, unknown_size=ch.pick([0, 10, 40]))
        doc = model.gen_document(ch, m, spec)
        grow = [n for n in flatten(doc.roots) if n.kind in ('bin', 'str', 'utf8', 'unknown',
                                                            'void')]
        few = self.how == 'file'
        if few:
            self.ahead = 9000
        for n in (ch.shuffle(grow)[:2] if few else grow):
            if ch.chance(2, 3):
                size = ch.between(30000, 60000) if few else ch.between(160, 2000)
                n.payload = (bytes(65 + ch.below(50) for _ in range(8)) * (size // 8 + 1))[:size]
                if n.kind in ('bin', 'unknown', 'void'):
                    n.payload = ch.data(8) + n.payload[8:]
                if n.size_len is not None:
                    n.size_len = max(n.size_len, model.min_size_len(size))
        doc = model.DocModel(m, doc.roots)
        self.m, self.doc = m, doc
        self.leaves = [n for n in flatten(doc.roots) if not n.is_master]
        self.leafset = set(self.leaves)
        self.large = [n for n in self.leaves if n.size > 2 * self.ahead + 16]
        self.starts = {} if self.how == 'file' else \
            {n.payload_off: n for n in self.leaves if n.size}
        if any(n.unknown for n in flatten(doc.roots)):
            w.probe('unknown-size master')
        if any(n.is_master and precached(n) for n in flatten(doc.roots)):
            w.probe('precached master')
        if any(precached(n) for n in self.large):
            w.probe('precached large value')
        self.schema = observe.load_model_schema(m)
        self.headers = ch.chance(1, 2)
        self.roots = doc.visible(self.headers)
        self.base = 0
        if self.how == 'sim':
            self.base = ch.pick([0, 0, 7])
            if self.base:
                w.probe('start offset')
            self.stream = SimStream(w, b'\x42' * self.base + doc.data, start=self.base)
            self.stream.hook = self.hook
            self.source = self.stream
        else:
            w.probe('named file')
            self.stream = None
            self.fs = SimFS(w)
            self.fs.install()
            self.fs.put('/sim/d/file.ebml', doc.data)
            self.fs.on_read = lambda raw, pos, size: self.reading(pos, size)
            self.source = '/sim/d/file.ebml'
        w.case = '%s via %s at %d, %d bytes, headers=%s: %s' % (
            m.file or 'generated schema', self.how, self.base, len(doc.data), self.headers,
            doc.describe()[:300])
        w.mark(m.file, self.how, self.headers, len(doc.data))

    def open(self):
        ch, w, doc = self.ch, self.w, self.doc
        while ch.chance(1, 3) and self.large:
            self.damage()
        first = doc.roots[0] if doc.roots else None
        need = () if first is None else beneath(first) if doc.has_header else parsed_with(first)

        def load():
            return self.schema.load(self.source, headers=self.headers)
        if self.regions:
            w.probe('opened with a bad region')
        ok, d = self.access('opening', load, need)
        if not ok:
            self.regions = []
            if self.stream is not None:
                self.stream.seek(self.base)
            _, d = self.access('opening', load, need)
        self.d = d
        self.info = observe.freeze((d.info, d.type, d.version))

    def one(self):
        ch, w = self.ch, self.w
        k = ch.weighted([(14, 'element'), (6, 'document'), (8, 'step'), (2, 'damage'),
                         (2, 'heal'), (2, 'outage'), (1, 'family'), (3, 'overwrite'), (1, 'seek')])
        if k == 'element' and self.handles:
            h = ch.pick(self.handles[-ch.pick([3, 100]):])
            self.element(h)
        elif k == 'step' and self.iters:
            self.step()
        elif k == 'damage':
            self.damage()
        elif k == 'heal':
            self.regions = []
            self.outage = False
        elif k == 'outage':
            self.outage = not self.outage
        elif k == 'overwrite':
            self.overwrite()
        elif k == 'family':
            self.family()
        elif k == 'seek' and self.stream is not None:
            self.stream.seek(ch.below(len(self.stream.data) + 1))
        else:
            self.document()


def run(world):
    r = Run(world)
    r.prepare()
    r.open()
    for _ in world.ch.repeat(50, mean=25):
        r.one()
    # everything that was kept is still there with the file gone
    r.outage = True
    for h in r.handles[:30]:
        if h.cached:
            r.element(h, 'value')
    # and everything is right once it is back
    r.outage = False
    r.regions = []
    for h in r.handles[:30]:
        r.element(h, 'value')

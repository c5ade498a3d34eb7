"""C07: damage to stored bytes stays contained; reading it terminates."""
from .. import docops, model, observe
from ..observe import lib
from ..simfs import SimFS
from ..streams import SimStream
from ..world import StepBudget, Violation
from .c04 import pick_schema

RUNS = {'quick': 18000, 'thorough': 600000}
RULE = ('each run: a generated or shipped schema and document whose stored bytes are damaged '
        '(bit flips, overwrites, zeroed or swapped blocks) before it is opened or while it is '
        'being read: inside one leaf, inside one known-size element, or anywhere; everything '
        'outside the damaged element is compared with the undamaged document, and every '
        'operation has a budget of stream work; non-trivial = the damage changed bytes; '
        'distinct by document and damage')
REAL = ['ebmlite.core', 'ebmlite.decoding', 'io buffering']
STUB = ['the stream or file (SimStream / simulated file system)', 'the storage that decays']
ASSUMPTIONS = ['the headers of the enclosing elements are undamaged (for containment)',
               'an element the schema precaches is read along with its siblings, so damaged '
               'text in it may raise there',
               'work is bounded per operation: a recursive walk of overlapping (corrupt) '
               'elements visits overlapped bytes repeatedly']
PROBES = ('leaf damaged', 'master damaged', 'damage anywhere', 'damaged while open',
          'header damaged', 'inside unknown-size', 'operation raised',
          'text damaged', 'caches filled before', 'verify')


def setup():
    lib()


def hurt(ch, world, store, lo, hi):
    """Damage bytes of store in [lo, hi); True if anything changed."""
    before = bytes(store[lo:hi])
    for _ in range(ch.between(1, 3)):
        kind = ch.weighted([(3, 'flip'), (3, 'byte'), (2, 'zero'), (1, 'ff'), (1, 'swap'),
                            (1, 'random')])
        p = lo + ch.below(hi - lo)
        k = min(hi - p, ch.pick([1, 2, 4, 16, 100]))
        if kind == 'flip':
            store[p] ^= 1 << ch.below(8)
        elif kind == 'byte':
            store[p] = ch.pick([0xff, 0x00, 0x01, 0x80, 0x10, 0x08, 0x40]) if ch.chance(2, 3) \
                else ch.below(256)
        elif kind == 'zero':
            store[p:p + k] = bytes(k)
        elif kind == 'ff':
            store[p:p + k] = b'\xff' * k
        elif kind == 'random':
            store[p:p + k] = bytes(ch.below(256) for _ in range(k))
        else:
            q = lo + ch.below(hi - lo)
            k = min(k, hi - q)
            store[p:p + k], store[q:q + k] = store[q:q + k], store[p:p + k]
            # (overlapping blocks just scramble; the length is kept)
    if bytes(store[lo:hi]) == before:
        return False
    world.fired('damage')
    world.mark(lo, hi, bytes(store[lo:hi])[:80])
    return True


def fits(h, n):
    return h is not n and not inside(h, n)


def inside(x, n):
    while x is not None:
        if x is n:
            return True
        x = x.parent
    return False


def run(world):
    ch = world.ch
    L = lib()
    m = pick_schema(ch, world, shipped=20)
    doc = model.gen_document(ch, m, model.DocSpec(ch, unknown_size=ch.pick([0, 10, 40])))
    data = doc.data
    nodes = list(model.flatten(doc.roots))
    schema = observe.load_model_schema(m)
    headers = ch.chance(1, 2)
    scope = ch.weighted([(3, 'leaf'), (3, 'element'), (4, 'anywhere')])
    cands = [n for n in nodes if n.size and not n.unknown and
             (scope == 'element' or not n.is_master)]
    if scope != 'anywhere' and not cands:
        scope = 'anywhere'
    store = bytearray(data)
    target = None
    if scope == 'anywhere':
        if not store:
            return
        lo, hi = 0, len(store)
        world.probe('damage anywhere')
    else:
        target = ch.pick(cands)
        if scope == 'element' and ch.chance(1, 2):
            masters = [n for n in cands if n.is_master]
            target = ch.pick(masters) if masters else target
        lo, hi = target.payload_off, target.end
        world.probe('master damaged' if target.is_master else 'leaf damaged')
        p = target.parent
        if target.name == 'EBML' or p is not None and p.name == 'EBML':
            world.probe('header damaged')
        while p is not None:
            if p.unknown:
                world.probe('inside unknown-size')
            p = p.parent
    late = ch.chance(1, 2)
    how = ch.weighted([(4, 'sim'), (1, 'file')])
    if not late:
        hurt(ch, world, store, lo, hi)
    if how == 'sim':
        stream = SimStream(world, store)
        store = stream.data
        stream.quiet = True
    else:
        fs = SimFS(world)
        fs.install()
        store = fs.put('/sim/d/f.ebml', bytes(store)).data
        stream = '/sim/d/f.ebml'
    world.case = '%s via %s, %d bytes, headers=%s, damage in %s%s: %s' % (
        m.file or 'generated schema', how, len(data), headers, target or 'any place',
        ' while open' if late else '', doc.describe()[:300])
    world.mark(m.file, how, headers, scope, late, data[:64], len(data))

    def budget():
        if how == 'sim':
            stream.ops = stream.bytes_read = 0
            stream.op_budget = 60 + 24 * len(data)
            stream.byte_budget = 200 + 8 * len(data)

    budget()
    d = schema.load(stream, headers=headers)
    roots = doc.visible(headers)
    x = docops.Session(world, doc, d, roots, None, 0, None, m)
    if late:
        if how == 'sim':
            stream.op_budget = stream.byte_budget = None
        for _ in ch.repeat(15, mean=8):
            x.any(ch)
        if x.handles:
            world.probe('caches filled before')
        if hurt(ch, world, store, lo, hi):
            world.probe('damaged while open')
        if how == 'file':
            # drop what the buffer still holds, as time passing would
            d.stream.seek(0, 2)
            d.stream.read(1)
    # 1. nothing outside the damaged element changes
    path = []
    world.path = path
    if target is not None:
        text = target.kind == 'utf8'
        if text:
            world.probe('text damaged')
        # a precached element is read while its parent is iterated
        raises = text and target.defn.precache
        budget()
        contained(world, d, roots, target, raises, data, budget)
        for h in x.handles:
            if fits(h.n, target):
                budget()
                outside(h.el, h.n, target, raises, data, budget)
    # 2. any damage: every operation ends, with bounded work
    elements = [d]
    seen = 0
    sizes = []
    while elements and seen < 120:
        el = elements.pop(0 if ch.chance(1, 2) else -1)
        seen += 1
        kids = attempt(world, lambda: list(el), budget) if isinstance(
            el, L['core'].MasterElement) else None
        if kids:
            elements.extend(kids[:40])
            # (the private size: asking an unknown-size element would scan)
            sizes.extend((k, k.size) for k in kids[:40] if getattr(k, '_size', None) is not None)
        for _ in range(2):
            k = ch.below(6)
            if k == 0:
                attempt(world, lambda: el.value, budget)
            elif k == 1:
                attempt(world, lambda: len(el), budget)
            elif k == 2:
                attempt(world, lambda: el.size, budget)
            elif k == 3 and el is not d:
                attempt(world, el.getRaw, budget)
            elif k == 4 and el is not d:
                attempt(world, el.getRawValue, budget)
            elif k == 5:
                attempt(world, lambda: el.gc(recurse=True), budget)
    # verify() tells the same as reading everything
    if ch.chance(1, 3):
        verify(world, schema, bytes(store))
    # 3. nor has reading the damage changed where the elements around it end
    for el, n in path:
        budget()
        observe.check_ident(el, n)
        observe.check_size(el, n)
        if not n.unknown and len(el.getRaw()) != n.end - n.offset:
            observe.fail('wrong-raw', n, '%d bytes after reading the damage' % len(el.getRaw()))
    # (a recorded size never changes, damaged or not)
    for el, size in sizes:
        if el.size != size:
            raise Violation('size-changed', '%r: size was %r, became %r' % (el, size, el.size))


class Enough(Exception):
    pass


def verify(world, schema, data):
    core = lib()['core']
    left = [1500]
    unknown = [0]

    def crawl(el):
        left[0] -= 1
        if left[0] < 0:
            raise Enough()
        if isinstance(el, core.MasterElement):
            for sub in el:
                crawl(sub)
        elif isinstance(el, core.UnknownElement):
            unknown[0] += 1
        else:
            el.value

    try:
        crawl(schema.loads(data))
        ok = True
    except (Enough, RecursionError):
        return
    except Exception as e:
        world.log('crawl', type(e).__name__)
        ok = False
    world.probe('verify')
    try:
        got = schema.verify(data)
    except Exception as e:
        if ok and not (unknown[0] and isinstance(e, NameError)):
            raise Violation('wrong-verify', 'everything can be read, but verify() raised %r' % (e,))
    else:
        if got is not True or not ok or unknown[0]:
            raise Violation('wrong-verify', 'verify() returned %r; %s' % (
                got, '%d unknown elements' % unknown[0] if ok else 'reading raised'))


def attempt(world, f, budget):
    budget()
    try:
        return f()
    except Exception as e:
        if isinstance(e, Violation):
            raise
        world.probe('operation raised')
        world.log('raised', type(e).__name__)
        return None


def contained(world, it, nodes, target, raises, data, budget):
    """Iterate and compare, not looking into the damaged element."""
    i = 0
    it = iter(it)
    while True:
        budget()
        try:
            el = next(it)
        except StopIteration:
            break
        except UnicodeDecodeError:
            if raises and i < len(nodes) and nodes[i] is target:
                return
            raise
        if i >= len(nodes):
            raise Violation('damage-spread', 'extra element %r' % (el,))
        n = nodes[i]
        i += 1
        outside(el, n, target, raises, data, budget, world)
    if i != len(nodes):
        raise Violation('damage-spread', '%d of %d elements, damage in %r' % (
            i, len(nodes), target))


def outside(el, n, target, raises, data, budget, world=None):
    budget()
    observe.check_ident(el, n)
    observe.check_size(el, n)
    if world is not None and (n is target or inside(target, n)):
        world.path.append((el, n))
    if n is target:
        return
    if inside(target, n):
        contained(world, el, n.children, target, raises, data, budget)
        if not raises and world is not None:
            budget()
            observe.check_len(el, n)
    else:
        budget()
        observe.check_raw(el, n, data)
        observe.check_rawvalue(el, n, data)
        if n.is_master:
            contained(world, el, n.children, target, raises, data, budget)
            observe.check_len(el, n)
        elif observe.leaf_value(n.kind, n.payload) is not observe.NO_VALUE:
            observe.check_value(el, n, data)

"""C03: a document shared by threads over a thread-aware file."""
from .. import simthreads
simthreads.install()

from .. import docops, model, observe                      # noqa: E402
from ..choices import Fixed, program                       # noqa: E402
from ..observe import lib                                  # noqa: E402
from ..simfs import SimFS                                  # noqa: E402
from ..simthreads import Op, Scheduler, WILD                   # noqa: E402
from .c04 import pick_schema                               # noqa: E402

RUNS = {'quick': 7000, 'thorough': 200000}
RULE = ('each run: a generated schema and document on the simulated file system, one shared '
        'Document opened on a ThreadAwareFile, 2-5 simulated threads with generated programs of '
        'accesses (iteration, value, raw, length, index, dump, XML, equality, cache clearing) on '
        'shared elements, interleaved at line or bytecode granularity; every result is compared '
        'with the model; non-trivial = at least one preemption; distinct by the sequence of '
        'switches and accesses')
REAL = ['ebmlite.core', 'ebmlite.decoding', 'ebmlite.threaded_file', 'ebmlite.util']
STUB = ['files (simulated FileIO)', 'threading primitives', 'thread identifiers', 'scheduler',
        'clock']
ASSUMPTIONS = ['element objects are published to other threads only after the call that made '
               'them has returned']
PROBES = ('gc', 'gc recursive', 'interleaved iterators', 'unknown-size master',
          'opened by another thread', 'thread ident reused')
HOT_OPS = [(4, 'value'), (3, 'gc'), (2, 'gcrec'), (1, 'len'), (1, 'iter'), (1, 'index'),
           (1, 'children'), (1, 'rawvalue')]
HOT_DOC = [(6, 'index'), (1, 'indexerror'), (1, 'len'), (1, 'list'), (1, 'iter'), (1, 'info')]
PATH = '/sim/d/shared.ebml'


def setup():
    lib()


def run(world):
    ch = world.ch
    L = lib()
    m = pick_schema(ch, world, shipped=15)
    spec = model.DocSpec(ch, unknown_size=ch.pick([0, 10, 40]), nodes=ch.pick([6, 15]))
    hot = ch.pick([0, 0, 1, 2, 'doc'])  # a few elements, or the document, all contend for
    doc = model.gen_document(ch, m, spec)
    for _ in range(5):
        if hot != 'doc' or len(doc.roots) > 3:
            break
        doc = model.gen_document(ch, m, spec)
    if any(n.unknown for n in model.flatten(doc.roots)):
        world.probe('unknown-size master')
    schema = observe.load_model_schema(m)
    headers = ch.chance(1, 2)
    fs = SimFS(world)
    fs.install()
    fs.put(PATH, doc.data)
    n = ch.pick([2, 3, 4, 5])
    gap = ch.pick([8, 3, 2, 20, 60, WILD, WILD, WILD, WILD])
    s = Scheduler(world, mean_gap=gap, opcodes=ch.chance(1, 5))
    fs.hook = lambda what, raw: s.preempt('io.' + what)
    progs = [program(ch, 10, 5, width=10) for _ in range(n)]
    world.case = '%d threads, %s operations, %d bytes: %s' % (
        n, [len(p) for p in progs], len(doc.data), doc.describe()[:200])
    world.mark(gap, s.opcodes, doc.data[:64])
    roots = doc.visible(headers)
    handles = []
    box = []
    pending = []

    def begin():
        f = L['threaded'].ThreadAwareFile(PATH)
        d = schema.load(f, headers=headers)
        box.append(d)

    def disturb(name):
        world.probe(name)

    def start_next(t=None):
        if pending and (t is None or not [x for x in s.threads if x.is_alive()]):
            s.start(pending.pop(0))

    def body(i):
        t = s.me()
        if not box:
            s.masked = True
            begin()
            s.masked = False
        else:
            world.probe('opened by another thread')
        x = docops.Session(world, doc, box[0], roots, handles, 0, len(doc.data), m)
        x.disturb = disturb
        for vals in progs[i]:
            c = Fixed(vals)
            if c.below(16) == 15:
                start_next()
                continue
            k = c.weighted([(1, 'el'), (10, 'doc'), (2, 'iter')] if hot == 'doc' else
                           [(10, 'el'), (4, 'doc'), (5, 'iter')])
            if k == 'el' and handles:
                h = handles[c.below(min(
                    len(handles), hot if hot in (1, 2) else 99))]
                op = c.weighted(HOT_OPS if hot in (1, 2) else docops.EL_OPS)
                with Op(s, t, op):
                    x.elop(c, h, op)
            elif k == 'iter' and x.iters:
                with Op(s, t, 'iter'):
                    x.iterop(c)
            else:
                op = c.weighted(HOT_DOC if hot == 'doc' else docops.DOC_OPS)
                with Op(s, t, op):
                    x.docop(c, op)
            world.log(t.name, k, 'ok')

    for i in range(n):
        s.spawn('T%d' % i, (lambda i=i: body(i)))
    s.exit_hooks = [start_next]
    if ch.chance(1, 2):
        begin()
    if ch.chance(1, 2) and box:
        # start from a document some of whose elements are already shared
        observe.check_tree(list(box[0]), roots, doc.data)
        for el, nd in zip(box[0], roots):
            handles.append(docops.Handle(el, nd))
            if nd.is_master:
                for e2, n2 in zip(el.value, nd.children):
                    handles.append(docops.Handle(e2, n2))
    first = ch.between(1, n)
    pending.extend(s.threads[first:])
    for t in s.threads[:first]:
        s.start(t)
    s.run()
    if box:
        observe.check_tree(box[0], roots, doc.data)
        for h in handles[:20]:
            observe.check_tree([h.el], [h.n], doc.data, raw=False)

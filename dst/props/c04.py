"""C04: reading is independent of access order, caches and stream position."""
import io
import os

from .. import docops, model, observe
from ..observe import lib
from ..simfs import SimFS
from ..streams import SimStream
from ..world import Violation

RUNS = {'quick': 18000, 'thorough': 400000}
RULE = ('each run: a generated (or shipped) schema, a generated document, and a seeded schedule '
        'of accesses (elements, half-advanced iterators, cache clearing, seeks of the underlying '
        'stream by others, second documents on the same stream), every result compared with the '
        'model; non-trivial = at least one disturbance (foreign seek, gc, interleaved iterator, '
        'shared stream) hit before a comparison; distinct by schedule+document signature')
REAL = ['ebmlite.core', 'ebmlite.decoding', 'ebmlite.util (flatiter, toXml)', 'io buffering']
STUB = ['caller streams (SimStream) or simulated file system below io buffering', 'schedule']
ASSUMPTIONS = ['streams return all requested bytes or reach end of data (buffered semantics)']
PROBES = ('unreadable value', 'foreign seek', 'gc recursive', 'interleaved iterators', 'second document',
          'named file', 'start offset', 'unknown-size master', 'shipped schema',
          'verified', 'verify refused', 'stream with a name')


def setup():
    lib()


def pick_schema(ch, world, shipped=30, **kw):
    from .. import runner
    if ch.chance(shipped, 100):
        world.probe('shipped schema')
        ms = model.shipped(runner.REPO)
        return ms[ch.pick(sorted(ms))]
    return model.gen_schema(ch, **kw)


def run(world):
    ch = world.ch
    L = lib()
    m = pick_schema(ch, world)
    spec = model.DocSpec(ch, unknown_size=ch.pick([0, 0, 10, 40]), big=ch.chance(1, 10),
                         bad=ch.pick([0, 0, 0, 20]))
    doc = model.gen_document(ch, m, spec)
    if any(n.unknown for n in model.flatten(doc.roots)):
        world.probe('unknown-size master')
    if observe.has_unreadable(doc.roots):
        world.probe('unreadable value')
    schema = observe.load_model_schema(m)
    headers = ch.chance(1, 2)
    how = ch.weighted([(4, 'sim'), (3, 'bytesio'), (2, 'file'), (1, 'loads')])
    base = 0
    if how in ('sim', 'bytesio') and ch.chance(1, 2):
        base = ch.pick([1, 7, 64, 300])
        world.probe('start offset')
    blob = b'\x42' * base + doc.data
    stream = None
    given = {'name': 'A given name'} if ch.chance(1, 6) else {}
    opts = dict(given, headers=headers)
    if how != 'loads' and ch.chance(1, 6):
        opts['size'] = len(doc.data)
    if how == 'sim':
        stream = SimStream(world, blob, start=base)
        stream.quiet = True
        if ch.chance(1, 4):
            # as in an archive, or opened by file descriptor, or temporary
            stream.name = ch.pick(['inner.ebml', 'no/such/x.y.ide', 987654, None, ''])
            world.probe('stream with a name')
        d = schema(stream, **given) if not headers and 'size' not in opts and ch.chance(1, 4) \
            else schema.load(stream, **opts)
    elif how == 'bytesio':
        stream = io.BytesIO(blob)
        stream.seek(base)
        d = schema.load(stream, **opts)
    elif how == 'file':
        world.probe('named file')
        fs = SimFS(world)
        fs.install()
        fs.put('/sim/d/file.ebml', blob)
        d = schema.load('/sim/d/file.ebml', **opts)
        stream = d.stream
    else:
        headers = False
        d = schema.loads(blob, **given)
        stream = d.stream
    world.case = '%s via %s at %d, %d bytes, headers=%s: %s' % (
        m.file or 'generated schema', how, base, len(doc.data), headers, doc.describe()[:300])
    world.mark(m.file, how, base, headers, doc.data[:64], len(doc.data))
    roots = doc.visible(headers)
    fname = '/sim/d/file.ebml' if how == 'file' else getattr(stream, 'name', '')
    names = (d.name, d.filename if isinstance(fname, str) else '')
    if not isinstance(fname, str):
        fname = ''
    want = (given.get('name') or (os.path.splitext(os.path.basename(fname))[0] if fname else
                                  type(d).__name__), fname)
    if names != want:
        raise Violation('wrong-ident', 'the document is called %r, expected %r' % (names, want))
    handles = []

    def session(d, roots, size=None):
        x = docops.Session(world, doc, d, roots, handles, base,
                           size if size is not None else
                           len(blob) if how in ('bytesio', 'file') else
                           sum(r.end - r.offset for r in roots) if how == 'sim' else None, m)
        x.disturb = disturb
        return x

    def disturb(name):
        world.probe(name)
        world.nontrivial += 1

    docs = [session(d, roots, opts.get('size'))]

    def step():
        k = ch.weighted([(23, 'access'), (5, 'seek'), (1, 'second')])
        if k == 'seek':
            p = ch.pick([0, len(blob), base, None])
            if p is None:
                p = ch.below(len(blob) + 1)
            stream.seek(p)
            if ch.chance(1, 3):
                stream.read(ch.below(20))
            disturb('foreign seek')
        elif k == 'second' and len(docs) < 3:
            stream.seek(base)
            h2 = ch.chance(1, 2)
            if ch.chance(1, 3) and not m.file:
                # another schema instance reading the same stream
                s2 = observe.load_model_schema(m)
            else:
                s2 = schema
            docs.append(session(s2.load(stream, headers=h2), doc.visible(h2)))
            disturb('second document')
        else:
            docs[ch.below(len(docs))].any(ch)

    for _ in ch.repeat(60, mean=25):
        step()
    # finally everything is re-read in full through each document
    for x in docs:
        observe.check_tree(x.d, x.roots, doc.data, base)
    for h in handles[:20]:
        observe.check_tree([h.el], [h.n], doc.data, base, raw=False)
    # and verify() agrees
    seen = list(model.flatten(doc.visible(False)))
    unknown = any(n.kind == 'unknown' for n in seen)
    fine = not unknown and not observe.has_unreadable(doc.visible(False))
    try:
        got = schema.verify(doc.data)
    except (NameError, OSError, EOFError, ValueError) as e:
        if fine:
            raise Violation('wrong-verify', 'verify() refused an intact document: %r' % (e,))
        if isinstance(e, NameError) and not unknown:
            raise Violation('wrong-verify', 'no unknown elements, but %r' % (e,))
        world.probe('verify refused')
    else:
        if got is not True or not fine:
            raise Violation('wrong-verify', 'verify() returned %r; %s' % (
                got, 'unknown elements' if unknown else 'unreadable values' if not fine else ''))
        world.probe('verified')
    world.log('end', len(handles))

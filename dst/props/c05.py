"""C05: I/O errors while reading are never hidden and never poison reads."""
import io

from .. import docops, model, observe
from ..interrupts import LineInterrupt
from ..observe import lib
from ..simfs import SimFS
from ..streams import SimStream
from ..world import Violation, injected, Interrupt
from .c04 import pick_schema

RUNS = {'quick': 20000, 'thorough': 600000}
RULE = ('each run: a generated or shipped schema and document, and a seeded history of accesses '
        'with read/seek/tell errors and asynchronous interruptions (at stream operations and at '
        'arbitrary library lines) injected by seeded choice; every faulted call must surface the '
        'fault, every other call and a final full re-read must match the model; non-trivial = at '
        'least one fault fired; distinct by accesses, faults and document')
REAL = ['ebmlite.core', 'ebmlite.decoding', 'ebmlite.util (flatiter, toXml)', 'io buffering']
STUB = ['caller streams (SimStream) or simulated file system below io buffering', 'schedule']
ASSUMPTIONS = ['while a document is opened the stream fails with operating-system errors (other '
               'exceptions, like those of damaged headers, are tolerated then by design)']
PROBES = ('opening failed', 'error surfaced', 'interruption surfaced', 'fault inside a lazy scan',
          'buffered file', 'unknown-size master', 'gc')
KINDS = ('read_error', 'seek_error', 'tell_error', 'interrupt_io', 'fread_error', 'fseek_error')


def setup():
    lib()


def opening(world, load, rewind):
    """Open the document, perhaps after attempts that fail."""
    ch = world.ch
    while ch.chance(1, 3):
        for k in ('read_error', 'fread_error', 'interrupt_io', 'seek_error', 'fseek_error',
                  'tell_error'):
            if ch.chance(1, 3):
                world.plan(k, ch.pick([2, 5]), most=1)
        n = ch.below(120) if ch.chance(1, 4) else 0
        before = sum(world.faults.values())
        # (other exceptions streams may raise leave a document without header)
        world.plain_errors = True
        try:
            with LineInterrupt(world, n):
                d = load()
        except BaseException as e:
            if not injected(e):
                raise
            world.probe('opening failed')
            e = None
        else:
            if sum(world.faults.values()) != before:
                raise Violation('hidden-error', 'a fault was injected but the document opened')
            if ch.chance(1, 2):
                world.unplan()
                world.plain_errors = False
                return d
        world.plain_errors = False
        world.unplan()
        rewind()
    return load()


def run(world):
    ch = world.ch
    m = pick_schema(ch, world, shipped=20)
    spec = model.DocSpec(ch, unknown_size=ch.pick([10, 0, 40]))
    doc = model.gen_document(ch, m, spec)
    unknown = any(n.unknown for n in model.flatten(doc.roots))
    if unknown:
        world.probe('unknown-size master')
    schema = observe.load_model_schema(m)
    headers = ch.chance(1, 2)
    how = ch.weighted([(3, 'sim'), (1, 'file'), (1, 'buffered')])
    base = 0
    if how == 'sim':
        base = ch.pick([0, 0, 9])
        stream = SimStream(world, b'\x42' * base + doc.data, start=base)
        d = opening(world, lambda: schema.load(stream, headers=headers),
                    lambda: stream.seek(base))
    else:
        world.probe('buffered file')
        fs = SimFS(world)
        fs.install()
        fs.put('/sim/d/file.ebml', doc.data)
        if how == 'file':
            d = opening(world, lambda: schema.load('/sim/d/file.ebml', headers=headers),
                        lambda: None)
        else:
            f = open('/sim/d/file.ebml', 'rb', buffering=ch.pick([16, 64, 1]))
            assert isinstance(f, io.BufferedReader)
            d = opening(world, lambda: schema.load(f, headers=headers), lambda: f.seek(0))
        stream = d.stream
    world.case = '%s via %s, %d bytes, headers=%s: %s' % (
        m.file or 'generated schema', how, len(doc.data), headers, doc.describe()[:300])
    world.mark(m.file, how, headers, doc.data[:64], len(doc.data))
    roots = doc.visible(headers)
    x = docops.Session(world, doc, d, roots, None, base,
                       sum(r.end - r.offset for r in roots) if how == 'sim' else None, m)
    x.disturb = world.probe
    mean = ch.pick([6, 3, 15, 40])
    for k in ('read_error', 'fread_error', 'interrupt_io'):
        if not ch.chance(1, 3):
            world.plan(k, mean)
    for k in ('seek_error', 'fseek_error', 'tell_error'):
        if ch.chance(1, 2):
            world.plan(k, mean)
    lines = ch.chance(1, 3)
    for _ in ch.repeat(40, mean=20):
        before = sum(world.faults.values())
        n = ch.below(200) if lines and ch.chance(1, 2) else 0
        try:
            with LineInterrupt(world, n):
                x.any(ch)
        except Violation:
            raise
        except BaseException as e:
            if not injected(e):
                raise
            if sum(world.faults.values()) == before:
                raise Violation('stale-error', 'an earlier error was raised again: %r' % e)
            world.probe('interruption surfaced' if isinstance(e, Interrupt)
                        else 'error surfaced')
            if unknown and not isinstance(e, Interrupt):
                world.probe('fault inside a lazy scan')
            world.log('surfaced', type(e).__name__)
            e = None
        else:
            if sum(world.faults.values()) != before:
                raise Violation('hidden-error', 'a fault was injected but the call returned')
    world.unplan()
    # the fault has cleared: everything reads right, caches included
    for h in x.handles:
        observe.check_tree([h.el], [h.n], doc.data, base, raw=False)
    for it in x.iters:
        rest = list(it[0])
        observe.check_children(rest, None, base, it[1][it[2]:])
    observe.check_tree(d, roots, doc.data, base)

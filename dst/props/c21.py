"""C21: text written for people and other programs is the whole truth."""
from .. import simthreads
simthreads.install()

import base64                                              # noqa: E402
import re                                                  # noqa: E402
import sys                                                 # noqa: E402

from .. import docops, model, observe                      # noqa: E402
from ..interrupts import LineInterrupt                     # noqa: E402
from ..observe import lib                                  # noqa: E402
from ..simfs import SimFS                                  # noqa: E402
from ..simthreads import Scheduler, WILD                   # noqa: E402
from ..streams import SimStream                            # noqa: E402
from ..world import WRITE_ERRNOS, Interrupt, Violation, injected          # noqa: E402
from .c04 import pick_schema                               # noqa: E402

RUNS = {'quick': 5500, 'thorough': 400000}
RULE = ('each run: a generated or shipped schema and document printed with pprint (whole or from '
        'an element, with drawn options and codecs) after and between other accesses, by one '
        'client or by 2-4 simulated threads sharing the document and the codec objects; or binary '
        'codecs used directly, with and without streams; or a schema listing to a stream or '
        'file; with failing writes (in part or whole), flushes, reads, closes and interruptions; '
        'complete output is parsed and compared with the model, output cut short by a fault must '
        'be a prefix and the fault must surface; non-trivial = something was written; distinct by '
        'document, options, accesses, faults and schedule')
REAL = ['ebmlite.util (pprint, printSchemata)', 'ebmlite.xml_codecs', 'ebmlite.core',
        'ebmlite.threaded_file', 'io text and buffer layers']
STUB = ['caller streams', 'file system', 'threading primitives', 'scheduler']
ASSUMPTIONS = ['indentation is white space', 'contents of Void elements may be left out']
PROBES = ('document', 'element', 'values', 'without values', 'base64', 'hex', 'codec object',
          'codec stream', 'decoded', 'listing', 'listing to file', 'listing to console',
          'to text file', 'threads', 'error surfaced', 'interrupted', 'again after a fault',
          'unreadable value', 'after accesses', 'unknown-size master')
PATH = '/sim/d/shared.ebml'


def setup():
    lib()


class Sink:
    """A caller's text stream."""

    def __init__(self, world, hook=None):
        self.world, self.hook = world, hook
        self.parts = []
        self.flushed = 0
        self.closes = 0

    @property
    def text(self):
        return ''.join(self.parts)

    def write(self, s):
        w = self.world
        if not isinstance(s, str):
            raise TypeError('write() argument must be str, not %s' % type(s).__name__)
        if self.hook:
            self.hook('write')
        w.log('write', len(s))
        if w.plans:
            if w.due('out_error'):
                w.fired('out_error')
                self.parts.append(s[:w.ch.below(len(s) + 1)])
                raise w.oserror(WRITE_ERRNOS, 'write')
            if w.due('interrupt_out'):
                w.fired('interrupt_out')
                if w.ch.chance(1, 2):
                    self.parts.append(s)
                raise Interrupt('injected during write')
        self.parts.append(s)
        return len(s)

    def flush(self):
        w = self.world
        if self.hook:
            self.hook('flush')
        w.log('flush')
        if w.plans and w.due('flush_error'):
            w.fired('flush_error')
            raise w.oserror(WRITE_ERRNOS, 'flush')
        self.flushed = len(self.text)

    def writable(self):
        return True

    def close(self):
        self.closes += 1


# -- codecs ---------------------------------------------------------------------

def pick_codec(ch, world, objects=True):
    """(codec argument, kind, column offsets shown)"""
    X = lib()['codecs']
    kind = ch.weighted([(3, 'base64'), (3, 'hex'), (2, 'ignore')])
    if kind != 'ignore':
        world.probe(kind)
    if not objects or ch.chance(1, 3):
        return kind, kind, kind == 'hex'
    world.probe('codec object')
    if kind == 'base64':
        return X.Base64Codec(cols=ch.pick([76, 0, None, 1, 3, 4, 20, 77, 200])), kind, False
    if kind == 'hex':
        cols = ch.pick([32, 0, None, 1, 2, 5, 16, 33])
        offsets = ch.chance(1, 2)
        return (X.HexCodec(width=ch.pick([2, 1, 3, 4, 8]), cols=cols, offsets=offsets), kind,
                bool(offsets and cols))
    return X.IgnoreCodec(), kind, False


def read_text(kind, text, data, offset, shown, where):
    """Does text stand for data?"""
    body = text
    if kind == 'hex':
        at = 0
        for k, part in enumerate(re.split(r'(\[\d+\])', text)):
            if k % 2:
                if not shown or int(part[1:-1]) != offset + at:
                    raise Violation('wrong-text', '%s: %s before byte %d of what begins at %d: '
                                    '%r' % (where, part, at, offset, text[:300]))
            else:
                at += len(''.join(part.split())) // 2
        body = re.sub(r'\[\d+\]', '', text)
    body = ''.join(body.split())
    try:
        got = base64.b64decode(body, validate=True) if kind == 'base64' else \
            bytes.fromhex(body) if kind == 'hex' else body.encode()
    except ValueError as e:
        raise Violation('wrong-text', '%s: %r: %s' % (where, text[:300], e))
    want = b'' if kind == 'ignore' else bytes(data)
    if got != want:
        raise Violation('wrong-text', '%s: %r stands for %r, not %r' % (
            where, text[:300], got[:60], want[:60]))


def check_layout(c, kind, text, indent, where):
    """In lines (and groups of digits) no longer than asked for."""
    if kind == 'ignore':
        return
    if isinstance(indent, bytes):
        indent = indent.decode()
    lines = text.split('\n')
    if not c.cols:
        if len(lines) > 1:
            raise Violation('wrong-layout', '%s: more than one line: %r' % (where, text[:200]))
    for line in lines:
        if line and c.cols and not line.startswith(indent):
            raise Violation('wrong-layout', '%s: not indented: %r' % (where, line))
        line = re.sub(r'\[\d+\]', '', line)
        n = len(''.join(line.split()))
        if c.cols and n > c.cols * (2 if kind == 'hex' else 1):
            raise Violation('wrong-layout', '%s: %d columns: %r' % (where, n, line))
        if kind == 'hex' and any(len(g) > 2 * c.width for g in line.split()):
            raise Violation('wrong-layout', '%s: %r' % (where, line))


def codecs(world):
    ch = world.ch
    X = lib()['codecs']
    c, kind, shown = pick_codec(ch, world)
    if isinstance(c, str):
        c = X.BINARY_CODECS[c]()
    world.case = 'codec %s %r' % (kind, vars(c))
    for _ in ch.repeat(6, mean=4):
        data = ch.data(ch.pick([0, 1, 2, 3, 4, 31, 32, 33, 56, 57, 58, 75, 76, 77, 114, 200, 1000]))
        if ch.chance(1, 2):
            data = bytearray(data)
        before = bytes(data)
        kw = {}
        if ch.chance(2, 3):
            kw['indent'] = ch.pick(['', ' ', '\t', '      ', b'  ', b''])
        offset = 0
        if ch.chance(2, 3):
            offset = kw['offset'] = ch.pick([0, 1, 12, 99999, 999990, 10 ** 6, 12345678])
        where = '%s of %d bytes, %r' % (world.case, len(data), kw)
        world.mark(kind, sorted(vars(c).items(), key=str), len(data), sorted(kw.items(), key=str))
        text = c.encode(data, **kw)
        if not isinstance(text, str):
            raise Violation('wrong-text', '%s gave %r' % (where, text))
        read_text(kind, text, data, offset, shown, where)
        check_layout(c, kind, text, kw.get('indent', ''), where)
        world.nontrivial += bool(text)
        for attempt in range(2):
            if attempt == 0 and ch.chance(1, 2):
                plan(world, ('out_error', 'interrupt_out'))
            out = Sink(world)
            n, err = attempted(world, lambda: c.encode(data, stream=out, **kw))
            if err is None and (n != len(out.text) or out.text != text):
                raise Violation('wrong-text', '%s wrote %r, counted %r, without a stream %r' % (
                    where, out.text[:200], n, text[:200]))
            if not text.startswith(out.text):
                raise Violation('not-a-prefix', '%s: wrote %r of %r' % (
                    where, out.text[-100:], text[:200]))
            if out.closes:
                raise Violation('stream-closed', where)
        world.probe('codec stream')
        if bytes(data) != before:
            raise Violation('data-modified', where)
        # and back
        if kind == 'ignore':
            continue
        given = ch.pick([text, text.encode(), text + '\n  '])
        if not text and ch.chance(1, 2):
            given = None
        decode = ch.pick([c.decode, type(c).decode])
        if decode(given) != before:
            raise Violation('wrong-data', '%s: %r decodes to %r' % (
                where, given, decode(given)[:60]))
        for attempt in range(2):
            if attempt == 0 and ch.chance(1, 2):
                plan(world, ('write_error', 'partial_write', 'interrupt_io'))
            out = SimStream(world)
            n, err = attempted(world, lambda: decode(given, out))
            got = bytes(out.data)
            if err is None and (n != len(before) or got != before):
                raise Violation('wrong-data', '%s: wrote %r, counted %r' % (where, got[:60], n))
            if not before.startswith(got):
                raise Violation('not-a-prefix', '%s: wrote %r' % (where, got[:60]))
            if out.closes:
                raise Violation('stream-closed', where)
        world.probe('decoded')


def plan(world, kinds):
    for k in kinds:
        if world.ch.chance(1, 2):
            world.plan(k, world.ch.pick([2, 8, 30]), most=2)


def attempted(world, call, lines=0):
    """(result, error): a fault must surface, and nothing else may."""
    before = sum(world.faults.values()) - world.faults.get('fwrite_short', 0)
    try:
        with LineInterrupt(world, lines):
            got = call()
    except Violation:
        raise
    except BaseException as e:
        if not injected(e):
            raise
        world.probe('error surfaced' if isinstance(e, Exception) else 'interrupted')
        world.unplan()
        return None, e
    if sum(world.faults.values()) - world.faults.get('fwrite_short', 0) != before:
        raise Violation('hidden-error', 'a fault was injected but the call returned %r' % (got,))
    world.unplan()
    return got, None


# -- pprint -----------------------------------------------------------------------

HEAD = re.compile(r'^ *(\d+) +(\d+) (\s*) (\S+) \(ID 0x([0-9A-F]+)\)(?:: (.*))?$', re.S)
DOC = re.compile(r'^ *(\d+) +(\S+) (\s*) (.*) \(Document, type (.*)\)$')


class Options:
    def __init__(self, ch, world, values=True, objects=True):
        self.kw = {}
        self.values = True
        if not values or ch.chance(1, 4):
            self.kw['values'] = self.values = False
        self.indent = '  '
        if ch.chance(1, 3):
            self.indent = self.kw['indent'] = ch.pick(['\t', ' ', '    '])
        self.kind, self.shown, self.void = 'ignore', False, 'ignore'
        if ch.chance(2, 3):
            self.kw['binary_codec'], self.kind, self.shown = pick_codec(ch, world, objects)
        if ch.chance(1, 4):
            self.kw['void_codec'], self.void, _ = pick_codec(ch, world, objects)
        world.probe('values' if self.values else 'without values')

    def __repr__(self):
        return '%r' % {k: v if isinstance(v, (str, bool)) else (type(v).__name__, vars(v))
                       for k, v in self.kw.items()}


def judge_print(text, target, roots, o, where, base=0, doc=None):
    """Every element once, in order, at its depth, with all that is its own."""
    def bad(what):
        raise Violation('wrong-text', '%s: %s in %r' % (where, what, text[:600]))

    if not text.endswith('\n'):
        bad('no end')
    lines = text.split('\n')[:-1]
    if ('Value' in lines[0]) != o.values:
        bad('heading')
    lines = lines[2:]
    depth0 = 0
    if doc is not None:
        k = DOC.match(lines.pop(0) if lines else '')
        if not k or int(k.group(1)) != doc.offset or k.group(2) != str(doc.size) or \
                k.group(3) or k.group(4) != doc.name or k.group(5) != str(doc.type):
            bad('no line for %r' % (doc,))
        depth0 = 1
    entries = []
    for ln in lines:
        k = HEAD.match(ln)
        if k:
            entries.append((k, []))
        elif entries:
            entries[-1][1].append(ln)
        else:
            bad('line %r' % ln)
    todo = []

    def walk(nodes, depth):
        for n in nodes:
            todo.append((n, depth))
            if n.is_master:
                walk(n.children, depth + 1)
    walk(roots, depth0)
    if len(todo) != len(entries):
        bad('%d elements of %d' % (len(entries), len(todo)))
    classes = lib()['classes']
    for (n, depth), (k, more) in zip(todo, entries):
        rest = k.group(6) or ''
        got = (int(k.group(1)), int(k.group(2)), k.group(3), k.group(4), int(k.group(5), 16))
        want = (base + n.offset, n.size, o.indent * depth, n.name, n.eid)
        if got != want:
            bad('%r, not %r' % (got, want))
        if n.is_master:
            k = re.match(r'^\(master\) (\d+) subelements$', rest)
            if not k or int(k.group(1)) != len(n.children) or more:
                bad('%r%r for %r' % (rest, more, n))
            continue
        kind = '(%s)' % classes[n.kind].dtype.__name__
        if not rest.startswith(kind):
            bad('%r for %r' % (rest, n))
        rest = rest[len(kind):]
        v = model.leaf_value(n.kind, n.payload)
        if not o.values:
            if rest or more:
                bad('%r%r for %r' % (rest, more, n))
        elif n.kind in ('bin', 'unknown'):
            rest = '\n'.join([rest] + more)
            if o.kind == 'ignore':
                if rest:
                    bad('%r for %r' % (rest, n))
                continue
            head = ' <%s>' % o.kind
            if not rest.startswith(head):
                bad('%r for %r' % (rest, n))
            read_text(o.kind, rest[len(head):], v, base + n.offset, o.shown,
                      '%s: %r' % (where, n))
        elif n.kind != 'void':
            if rest != ' %r' % (v,) or more:
                bad('%r%r for %r, expected %r' % (rest, more, n, v))


def find(d, path):
    el = d
    for i in path:
        el = el[i]
    return el


def some_path(ch, roots):
    """The way to an element."""
    path, nodes, n = [], roots, None
    while nodes and (n is None or ch.chance(1, 2)):
        i = ch.below(len(nodes))
        n = nodes[i]
        path.append(i)
        nodes = n.children if n.is_master else None
    return path, n


def some_document(world):
    ch = world.ch
    m = pick_schema(ch, world, shipped=20)
    doc = model.gen_document(ch, m, model.DocSpec(ch, unknown_size=ch.pick([0, 0, 20]),
                                                  big=ch.chance(1, 10),
                                                  bad=ch.pick([0, 0, 0, 20])))
    if any(n.unknown for n in model.flatten(doc.roots)):
        world.probe('unknown-size master')
    readable = not observe.has_unreadable(doc.roots)
    if not readable:
        world.probe('unreadable value')
    return m, doc, observe.load_model_schema(m), readable


def printing(world):
    ch = world.ch
    util = lib()['util']
    m, doc, schema, readable = some_document(world)
    headers = ch.chance(1, 2)
    base = ch.pick([0, 0, 9])
    roots = doc.visible(headers)
    stream = SimStream(world, b'\x42' * base + doc.data, start=base)
    twin = SimStream(world, stream.data, start=base)
    twin.quiet = True
    d = schema.load(stream, headers=headers)
    t = schema.load(twin, headers=headers)
    x = docops.Session(world, doc, d, roots, None, base, None, m)
    fs = SimFS(world)
    fs.install()
    for turn in ch.repeat(4, mean=3):
        path, n = some_path(ch, roots) if ch.chance(1, 2) else ([], None)
        o = Options(ch, world, readable)
        where = 'pprint(%s, %r)' % (n or 'document', o)
        world.case = '%s of %s' % (where, doc.describe()[:300])
        world.probe('element' if path else 'document')
        world.mark(m.file, headers, doc.data[:64], len(doc.data), path, repr(o))
        # what it is without faults, from a document of its own
        whole = Sink(world)
        util.pprint(find(t, path), out=whole, **o.kw)
        text = whole.text
        judge_print(text, None, roots if n is None else [n], o, where, base,
                    t if n is None else None)
        if whole.flushed != len(text):
            raise Violation('not-flushed', '%s: %d of %d' % (where, whole.flushed, len(text)))
        for _ in range(ch.below(6)):
            world.probe('after accesses')
            x.any(ch)
        el = find(d, path)
        for attempt in range(2):
            how = ch.pick(['sink', 'sink', 'file'])
            faulty = attempt == 0 and ch.chance(2, 3)
            if faulty:
                plan(world, ('out_error', 'flush_error', 'interrupt_out', 'fwrite_error',
                             'fwrite_short', 'read_error', 'seek_error',
                             'interrupt_io'))
            lines = ch.below(400) if faulty and ch.chance(1, 4) else 0
            if how == 'sink':
                out = Sink(world)
            else:
                world.probe('to text file')
                node = fs.put('/sim/d/out.txt', b'')
                out = open('/sim/d/out.txt', 'w', buffering=ch.pick([-1, 16, 1]),
                           encoding='utf-8', newline='\n')
            _, err = attempted(world, lambda: util.pprint(el, out=out, **o.kw), lines)
            if how == 'sink':
                got = out.text
                if out.closes:
                    raise Violation('stream-closed', where)
                if err is None and out.flushed != len(got):
                    raise Violation('not-flushed', '%s: %d of %d' % (
                        where, out.flushed, len(got)))
            else:
                if out.closed:
                    raise Violation('stream-closed', where)
                # (what was written has arrived without the caller's flush)
                got = bytes(node.data).decode('utf-8', 'surrogateescape')
                try:
                    out.close()
                except OSError:
                    pass
                fs.files.pop('/sim/d/out.txt', None)
            if err is None and got != text:
                raise Violation('wrong-text', '%s gave %r, expected %r' % (
                    where, got[:600], text[:600]))
            if not text.startswith(got):
                raise Violation('not-a-prefix', '%s: wrote %r of %r' % (
                    where, got[-200:], text[:300]))
            if attempt:
                world.probe('again after a fault')
            world.nontrivial += 1
    for it in x.iters:
        observe.check_children(list(it[0]), None, base, it[1][it[2]:])
    observe.check_tree(d, roots, doc.data, base)


def threads(world):
    """Several threads print parts of one document, and share the codecs."""
    ch = world.ch
    L = lib()
    util = L['util']
    m, doc, schema, readable = some_document(world)
    world.probe('threads')
    headers = ch.chance(1, 2)
    roots = doc.visible(headers)
    fs = SimFS(world)
    fs.install()
    fs.put(PATH, doc.data)
    n = ch.between(2, 4)
    s = Scheduler(world, mean_gap=ch.pick([3, 8, 20, 60, WILD, WILD]), opcodes=ch.chance(1, 6))
    fs.hook = lambda what, raw: s.preempt('io.' + what)
    t = schema.load(PATH, headers=headers)
    d = schema.load(L['threaded'].ThreadAwareFile(PATH), headers=headers)
    shared = [Options(ch, world, readable) for _ in range(2)]
    jobs = []
    for i in range(n):
        mine = []
        for _ in range(ch.between(1, 3)):
            path, node = some_path(ch, roots) if ch.chance(1, 2) else ([], None)
            o = ch.pick(shared)
            out = Sink(world)
            util.pprint(find(t, path), out=out, **o.kw)
            where = 'T%d: pprint(%s, %r)' % (i, node or 'document', o)
            judge_print(out.text, None, roots if node is None else [node], o, where, 0,
                        t if node is None else None)
            mine.append((path, o, out.text, where, ch.chance(1, 4)))
        jobs.append(mine)
    t.close()
    world.case = '%d threads: %s' % (n, [[j[3] for j in mine] for mine in jobs])
    world.mark([[(j[0], repr(j[1])) for j in mine] for mine in jobs], doc.data[:64])
    els = [[find(d, j[0]) for j in mine] for mine in jobs]

    def body(i):
        for (path, o, text, where, gc), el in zip(jobs[i], els[i]):
            out = Sink(world, s.preempt)
            util.pprint(el, out=out, **o.kw)
            if out.text != text or out.flushed != len(text):
                raise Violation('wrong-text', '%s gave %r, expected %r' % (
                    where, out.text[:600], text[:600]))
            world.log(where, 'ok')
            world.nontrivial += 1
            if gc:
                el.gc(True)

    for i in range(n):
        s.start(s.spawn('T%d' % i, (lambda i=i: body(i))))
    s.run()
    observe.check_tree(d, roots, doc.data)


# -- the listing --------------------------------------------------------------------

def listing(world):
    ch = world.ch
    L = lib()
    core, util = L['core'], L['util']
    fs = SimFS(world)
    fs.install(cwd='/sim/cwd')
    fs.sorted = True
    for dr in ('/sim/cwd', '/sim/a', '/sim/b', '/sim/out'):
        fs.mkdir(dr)
        for name in ('x.xml', 'y.xml', 'z\u00e9.xml', 'W.XML'):
            if ch.chance(1, 2):
                fs.put(dr + '/' + name, ch.pick([b'<Schema/>', b'<Schema/>', b'<table/>',
                                                 b'<nope/>', b'<Sch']))
    real = fs.fault
    # (reading the schemata is not what fails here)
    fs.fault = lambda kind, errnos, path: path.startswith('/sim/out') and real(kind, errnos, path)
    core.SCHEMA_PATH[:] = ch.pick([['', '/sim/a'], ['/sim/b', '/sim/a', '/sim/cwd'], ['/sim/a']])
    paths = ch.pick([None, [], ['/sim/b'], ['/sim/b', '/sim/nope'], ['/sim/a', '/sim/cwd']])
    absolute = ch.chance(2, 3)
    want = core.listSchemata(*((paths or []) + core.SCHEMA_PATH), absolute=absolute)
    text = ''.join('%s\n%s' % (k, ''.join('    %s\n' % v for v in vs)) for k, vs in want.items())
    world.case = 'printSchemata(%r) on %r' % (paths, core.SCHEMA_PATH)
    world.mark('listing', paths, core.SCHEMA_PATH, absolute, text)
    for attempt in range(2):
        how = ch.pick(['sink', 'file', 'console'])
        if attempt == 0 and ch.chance(2, 3):
            plan(world, ('out_error', 'flush_error', 'interrupt_out', 'fwrite_error',
                         'fwrite_short', 'fclose_error'))
        world.probe({'sink': 'listing', 'file': 'listing to file',
                     'console': 'listing to console'}[how])
        saved = sys.stdout
        out = Sink(world)
        to = out
        if how == 'file':
            to = '/sim/out/list.txt'
            fs.put(to, b'old contents, to be replaced by the listing')
        elif how == 'console':
            sys.stdout, to = out, None
        try:
            _, err = attempted(world, lambda: util.printSchemata(paths, to, absolute))
        finally:
            sys.stdout = saved
        if how == 'file':
            got = bytes(fs.files[to].data).decode('utf-8', 'surrogateescape')
            if err is not None and got.startswith('old'):
                got = ''
        else:
            got = out.text
            if out.closes:
                raise Violation('stream-closed', world.case)
            if err is None and out.flushed != len(got):
                raise Violation('not-flushed', world.case)
        if err is None and got != text:
            raise Violation('wrong-text', '%s gave %r, expected %r' % (
                world.case, got[:600], text[:600]))
        if not text.startswith(got):
            raise Violation('not-a-prefix', '%s: wrote %r of %r' % (
                world.case, got[-200:], text[:300]))
        world.nontrivial += 1


def run(world):
    {'print': printing, 'threads': threads, 'codec': codecs, 'listing': listing}[
        world.ch.weighted([(9, 'print'), (4, 'threads'), (5, 'codec'), (2, 'listing')])](world)

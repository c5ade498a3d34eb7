"""C11: the schema cache: one shared instance, races and failed loads."""
from .. import simthreads
simthreads.install()

import io                                                  # noqa: E402
import os                                                  # noqa: E402
import pathlib                                             # noqa: E402

from .. import model, observe, runner                      # noqa: E402
from ..linear import linearizable                          # noqa: E402
from ..observe import lib                                  # noqa: E402
from ..simfs import SimFS                                  # noqa: E402
from ..simthreads import Cancelled, Op, Scheduler, WILD          # noqa: E402
from ..world import Interrupt, Violation, injected         # noqa: E402

RUNS = {'quick': 6000, 'thorough': 250000}
RULE = ('each run: 1-4 simulated threads load, reload and parse schemata under several names of '
        'the same files (absolute, relative, searched, user and module paths) interleaved at line '
        'or bytecode granularity, while opens, reads and stats fail, calls are interrupted and '
        'files change, vanish or are malformed; the recorded history must be linearizable to one '
        'current instance per schema, instances complete and of a version the file had, failed '
        'loads without effect; non-trivial = at least one load returned; distinct by the sequence '
        'of operations, switches and faults')
REAL = ['ebmlite.core (loadSchema, parseSchema, Schema)', 'xml.etree', 'pathlib',
        'importlib.resources', 'io text layers']
STUB = ['file system under io buffering', 'threading primitives', 'scheduler', 'clock']
ASSUMPTIONS = ['a schema parsed without a name is a new instance each time',
               'a name keeps its meaning: the working directory and search path do not change '
               'between loads under one name',
               'interruptions arrive where the interpreter checks for them (entering a function, '
               'or during input/output)']
PROBES = ('reload', 'concurrent loads', 'load failed', 'reload failed', 'file changed',
          'file vanished', 'malformed', 'interrupted', 'cached while file bad', 'parsed',
          'loaded by parsed name', 'module path', 'user path', 'blocked on lock', 'other name',
          'recovered', 'named by its definition')

S = '/sim/s'
CELLS = {
    'one': ([S + '/one.xml', pathlib.Path(S + '/one.xml'), 'one.xml', pathlib.Path('one.xml'),
             S + '/../s/one.xml'], S + '/one.xml'),
    'two': (['two.xml', './two.xml', '/sim/cwd/two.xml', '../cwd/two.xml',
             pathlib.Path('two.xml')], '/sim/cwd/two.xml'),
    'three': (['~/three.xml', '/sim/home/three.xml', pathlib.Path('~/three.xml')],
              '/sim/home/three.xml'),
    'sub': (['sub/four.Schema', '/sim/cwd/sub/four.Schema', pathlib.Path('sub') / 'four.Schema'],
            '/sim/cwd/sub/four.Schema'),
    'shipped': (['mide_manifest.xml', '{ebmlite.schemata}/mide_manifest.xml', 'REAL'], None),
    'parsed': (['Parsed', 'Parsed'], None),
}


def setup():
    lib()


def version_xml(k):
    """A schema whose every element carries its version."""
    out = ['<Schema>',
           '<MasterElement name="EBML" id="0x1A45DFA3" mandatory="1">',
           '<StringElement name="DocType" id="0x4282" default="doc%d"/>' % k,
           '<UIntegerElement name="DocTypeVersion" id="0x4287" default="%d"/>' % k,
           '</MasterElement>',
           '<MasterElement name="Top%d" id="0x81">' % k]
    for i in range(3):
        out.append('<UIntegerElement name="V%dE%d" id="0x%X"/>' % (k, i, 0x82 + i))
    out.append('</MasterElement></Schema>')
    return ''.join(out)


def malformed_xml(ch, k, what):
    """The definition made useless."""
    x = version_xml(k)
    if what == 'torn':
        return x[:ch.pick([len(x) * 2 // 3, len(x) - 1, len(x) - 9, 5])]
    if what == 'empty':
        return ''
    if what == 'wrong':
        root = ch.pick(['Other', 'schema', 'MasterElement', 'Tables'])
        return ch.pick(['<%s/>' % root,
                        x.replace('<Schema>', '<%s name="S" id="0xA0">' % root)
                        .replace('</Schema>', '</%s>' % root)])
    v = 'V%dE1' % k
    if what == 'clash':
        extra = ch.pick(['<FloatElement name="Z" id="0x83"/>',
                         '<FloatElement name="%s" id="0x83"/>' % v,
                         '<UIntegerElement name="Z" id="0x83"/>',
                         '<UIntegerElement name="%s" id="0x93"/>' % v,
                         '<UIntegerElement name="%s" id="0x83" multiple="1"/>' % v,
                         '<UIntegerElement id="0x83" mandatory="1"/>'])
    else:
        extra = ch.pick(['<UIntegerElement name="Z" id="zz"/>', '<UIntegerElement name="Z" id=""/>',
                         '<UIntegerElement name="Z"/>', '<UIntegerElement id="0x99"/>',
                         '<UIntegerElement name="9Z" id="0x99"/>',
                         '<DecimalElement name="Z" id="0x99"/>'])
        if ch.chance(1, 6):
            return '<table><element name="EBML" id="0x1A45DFA3" type="master" level="0"/>' \
                   '<element name="DocType" id="0x4282" type="string" level="1" default="x"/>' \
                   '<element name="Z" id="0x83" level="1"%s/></table>' % \
                   ch.pick(['', ' type="decimal"'])
    return x.replace('</MasterElement></Schema>', extra + '</MasterElement></Schema>')


def names_of(k):
    return {'EBML', 'DocType', 'DocTypeVersion', 'Top%d' % k,
            'V%dE0' % k, 'V%dE1' % k, 'V%dE2' % k}


class Named(io.BytesIO):
    """A stream opened by its file descriptor (its `name` is a number)."""
    name = 987654

    def __init__(self, text):
        super().__init__(text.encode())


class Rec:
    """One operation of the history."""

    def __init__(self, thread, cell, kind, name):
        self.thread, self.cell, self.kind, self.name = thread, cell, kind, name
        self.inv = self.res = None
        self.got = None
        self.err = None
        self.faulted = False

    def __repr__(self):
        return '%s %s(%r)@[%s,%s]=%s' % (
            self.thread, self.kind, str(self.name), self.inv, self.res,
            self.got if self.err is None else 'error %s' % type(self.err).__name__)


def step(state, used, op):
    if op.err is not None:
        return [(state, used)]
    x = op.got
    if op.kind == 'reload' or op.kind == 'reparse':
        return [] if x in used else [(x, used | {x})]
    if op.kind == 'peek':
        return [(state, used)] if state == x else []
    if state is None:
        return [] if x in used else [(x, used | {x})]
    return [(state, used)] if state == x else []


class Run:
    def __init__(self, world):
        self.w = world
        self.ch = world.ch
        self.clock = 0
        self.history = []
        self.instances = []          # objects, kept alive so identity is unique
        self.files = {}              # cell -> list of (time, state)
        self.nversion = 0
        self.xmls = {}
        self.unnamed = {}            # name given by the definition -> instance
        self.origin = {}             # instance -> op that first returned it

    def tick(self):
        self.clock += 1
        return self.clock

    def ident(self, x):
        for i, y in enumerate(self.instances):
            if x is y:
                return i
        self.instances.append(x)
        return len(self.instances) - 1

    def set_file(self, cell, what):
        path = CELLS[cell][1]
        self.nversion += 1
        k = self.nversion
        if what == 'good':
            self.fs.put(path, version_xml(k).encode())
            state = k
        elif what == 'gone':
            self.fs.files.pop(path, None)
            state = 'gone'
        elif what == 'unreadable':
            self.fs.put(path, version_xml(k).encode()).unreadable = 13
            state = 'unreadable'
        else:
            x = malformed_xml(self.w.ch, k, what)
            self.fs.put(path, x.encode())
            state = what
        self.files.setdefault(cell, []).append((self.tick(), state))
        self.w.log('file', cell, state)

    def states_during(self, cell, t0, t1):
        h = self.files[cell]
        out = []
        for i, (t, s) in enumerate(h):
            end = h[i + 1][0] if i + 1 < len(h) else 10 ** 9
            if t <= t1 and end >= t0:
                out.append(s)
        return out

    # -- one operation ------------------------------------------------------
    def op(self, c, who, final=False):
        w, core = self.w, self.core
        cell = c.weighted([(5, 'one'), (5, 'two'), (2, 'three'), (2, 'sub'), (1, 'shipped'),
                           (4, 'parsed')])
        name = c.pick(CELLS[cell][0])
        again = c.chance(1, 4)
        if not final and cell in self.files and c.chance(1, 5):
            what = c.weighted([(4, 'good'), (1, 'gone'), (1, 'unreadable'), (1, 'torn'),
                               (1, 'empty'), (1, 'wrong'), (1, 'clash'), (1, 'badid')])
            self.set_file(cell, what)
            w.probe({'good': 'file changed', 'gone': 'file vanished'}.get(what, 'malformed'))
        if cell == 'parsed':
            k = c.pick(['parse', 'parse', 'reparse', 'peek', 'unnamed'])
            if k == 'unnamed':
                cell, name = 'unnamed', None
                if self.unnamed and c.chance(1, 2):
                    k, name = 'peek', c.pick(sorted(self.unnamed))
        else:
            k = 'reload' if again else 'load'
        self.do(who, cell, k, name, c.pick(['good'] * 6 + ['clash', 'torn', 'badid', 'wrong']))

    def do(self, who, cell, kind, name, text='good'):
        w, core = self.w, self.core
        if name == 'REAL':
            name = os.path.join(os.path.dirname(os.path.realpath(core.__file__)),
                                'schemata', 'mide_manifest.xml')
        r = Rec(who, cell, kind, name)
        self.history.append(r)
        xml = None
        if kind in ('parse', 'reparse', 'unnamed'):
            self.nversion += 1
            xml = version_xml(self.nversion)
            if text == 'clash' and w.ch.chance(1, 3):
                xml = xml.replace('name="EBML" id="0x1A45DFA3"', 'name="EBML" id="0x82"')
            elif text != 'good':
                xml = malformed_xml(w.ch, self.nversion, text)
            r.text = text
            r.version = self.nversion
        before = sum(w.faults.values())
        r.inv = self.tick()
        w.log(who, kind, name, text if xml else '')
        try:
            if kind == 'load':
                got = core.loadSchema(name)
            elif kind == 'reload':
                got = core.loadSchema(name, reload=True)
            elif kind == 'peek':
                got = core.loadSchema(name)
            else:
                src = w.ch.pick([None, None, None, io.StringIO, Named])
                src = xml if src is None else src(xml)
                got = core.parseSchema(src, name=name, reload=kind == 'reparse') \
                    if name or w.ch.chance(1, 2) else core.parseSchema(src)
        except (Violation, Cancelled):
            raise
        except BaseException as e:
            if not isinstance(e, (Exception, Interrupt)):
                raise
            r.err = e
            if isinstance(e, Interrupt):
                w.probe('interrupted')
                if self.s:
                    self.s.rearm()
            w.probe('reload failed' if kind in ('reload', 'reparse') else 'load failed')
        else:
            r.got = self.ident(got)
            w.nontrivial += 1
            if kind in ('reload', 'reparse'):
                w.probe('reload')
            if kind == 'parse':
                w.probe('parsed')
            if kind == 'peek':
                w.probe('loaded by parsed name')
            if '{' in str(name):
                w.probe('module path')
            if '~' in str(name):
                w.probe('user path')
            self.origin.setdefault(r.got, r)
            if kind == 'unnamed':
                w.probe('named by its definition')
                self.unnamed['doc%d' % r.version] = r.got
        r.res = self.tick()
        if r.err is None and kind == 'load' and cell in self.files and not any(
                isinstance(v, int) for v in self.states_during(cell, r.inv, r.res)):
            w.probe('cached while file bad')
        r.faulted = sum(w.faults.values()) != before
        w.log(who, 'got', r.got if r.err is None else type(r.err).__name__)
        w.mark(who, kind, str(name)[-20:], r.got, r.err is None)

    # -- checks --------------------------------------------------------------
    def judge(self):
        for cell in CELLS:
            ops = [r for r in self.history if r.cell == cell]
            if not ops:
                continue
            for r in ops:
                if r.err is not None:
                    self.judge_failure(r, ops)
            bad = linearizable(ops, None, step)
            if bad is not None:
                raise Violation('not-one-instance', '%s: no order explains %r' % (cell, ops))
            if any(a.inv < b.inv < a.res for a in ops for b in ops if a is not b):
                self.w.probe('concurrent loads')
        for r in self.history:
            if r.cell != 'unnamed':
                continue
            if r.err is not None:
                if not injected(r.err) and not r.faulted and (r.kind == 'peek' or
                                                              r.text == 'good'):
                    raise Violation('load-failed', '%r raised %r' % (r, r.err))
            elif r.kind == 'peek':
                if r.got != self.unnamed[r.name]:
                    raise Violation('not-one-instance', '%r, parsed as instance %r' % (
                        r, self.unnamed[r.name]))
            elif r.text != 'good' or self.instances[r.got].version != r.version:
                raise Violation('wrong-version', '%r has version %r, from %s version %r' % (
                    r, self.instances[r.got].version, r.text, r.version))
        for i, x in enumerate(self.instances):
            self.judge_content(i, x)

    def judge_failure(self, r, ops):
        if r.kind in ('load', 'peek', 'parse') and any(
                o.err is None and o.name == r.name and o.res < r.inv
                and (o.kind != 'peek') for o in ops) and not injected(r.err):
            raise Violation('cached-load-failed', '%r raised %r; history %r' % (r, r.err, ops))
        if injected(r.err) or r.faulted:
            return
        if r.cell == 'shipped':
            raise Violation('load-failed', '%r raised %r' % (r, r.err))
        if r.cell == 'parsed':
            if r.kind == 'peek':
                return          # (whether it was cached is judged by the order)
            if r.text == 'good':
                raise Violation('load-failed', '%r raised %r' % (r, r.err))
            return
        if all(isinstance(s, int) for s in self.states_during(r.cell, r.inv, r.res)):
            raise Violation('load-failed', '%r raised %r, file was good throughout' % (r, r.err))

    def judge_content(self, i, x):
        r = self.origin[i]
        if r.cell == 'shipped':
            m = self.shipped
            want = set(m.byname)
            if set(x.elementsByName) != want:
                raise Violation('incomplete-schema', '%r: %r' % (r, sorted(
                    want ^ set(x.elementsByName))))
            return
        k = x.version
        if set(x.elementsByName) != names_of(k) or len(x.elements) != 7 \
                or x.document is None or len(x[0x81].children) != 3:
            raise Violation('incomplete-schema', '%r: version %r, %r' % (
                r, k, sorted(x.elementsByName)))
        if x.type != 'doc%d' % k or r.cell != 'parsed' and x.name != 'doc%d' % k \
                or any(e.schema is not x for e in x.elements.values()) \
                or x.document.schema is not x:
            raise Violation('incomplete-schema', '%r: version %r has name %r, type %r, and '
                            'elements of %r' % (r, k, x.name, x.type,
                                                [e.schema for e in x.elements.values()]))
        if r.cell in ('parsed', 'unnamed'):
            if not any(getattr(o, 'version', None) == k and o.inv < r.res and o.text == 'good'
                       for o in self.history):
                raise Violation('wrong-version', '%r has version %r' % (r, k))
            return
        makers = [o for o in self.history if o.got == i]
        if not any(k in self.states_during(o.cell, o.inv, o.res) for o in makers):
            raise Violation('wrong-version', '%r has version %r, file was %r' % (
                r, k, self.files[r.cell]))


def run(world):
    ch = world.ch
    L = lib()
    x = Run(world)
    x.core = core = L['core']
    fs = x.fs = SimFS(world)
    fs.install(cwd='/sim/cwd')
    for d in (S, '/sim/cwd/sub', '/sim/home'):
        fs.mkdir(d)
    os.environ['HOME'] = '/sim/home'
    core.SCHEMATA.clear()
    core.SCHEMA_PATH.insert(1, S)
    x.shipped = model.shipped(runner.REPO)[
        [f for f in model.shipped(runner.REPO) if f.endswith('mide_manifest.xml')][0]]
    for cell in ('one', 'two', 'three', 'sub'):
        x.set_file(cell, 'good')
    n = ch.pick([2, 1, 3, 4])
    gap = ch.pick([5, 20, 60, 200, WILD, WILD])
    s = x.s = Scheduler(world, mean_gap=gap, opcodes=ch.chance(1, 8))
    # (raising from a trace function that also traces bytecodes crashes CPython)
    s.interrupts = not s.opcodes
    fs.hook = lambda what, raw: s.preempt('io.' + what)
    fs.hook_all = True
    fs.on_open = lambda path, mode: s.preempt('open')
    fs.on_stat = lambda path: s.preempt('stat')
    faults = ch.pick([0, 1, 2])
    world.case = '%d threads' % n
    world.mark(n, gap, s.opcodes)

    def plan():
        if not faults:
            return
        for kind, mean in (('open_error', 6), ('fread_error', 8), ('interrupt at a call', 60)):
            if ch.chance(1, 2):
                world.plan(kind, ch.pick([mean, mean * 5]), most=faults)
        # a failed stat reads as "no such file" to some callers
        if ch.chance(1, 3):
            world.plan('stat_error', ch.pick([5, 30]), most=1)

    def body(i):
        for _ in ch.repeat(7, mean=5):
            x.op(ch, 'T%d' % i)

    plan()
    for i in range(n):
        s.start(s.spawn('T%d' % i, (lambda i=i: body(i))))
    s.run()
    world.unplan()
    s.interrupts = False
    x.s = None
    world.case = '%d threads: %r' % (n, x.history[:12])
    world.case = world.case[:900]
    # faults are over: with the files in place every load must work
    for cell in ('one', 'two', 'three', 'sub'):
        if not isinstance(x.files[cell][-1][1], int):
            x.set_file(cell, 'good')
            world.probe('recovered')
    for cell in CELLS:
        if cell == 'parsed':
            x.do('main', cell, 'parse', 'Parsed')
            continue
        names = list(CELLS[cell][0])
        if ch.chance(1, 2) and cell != 'shipped':
            x.do('main', cell, 'reload', names[ch.below(len(names))])
        for name in names:
            x.do('main', cell, 'load', name)
            world.probe('other name')
    x.judge()

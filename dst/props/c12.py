"""C12: no operation leaks state into another operation, document or schema."""
from .. import simthreads
simthreads.install()

import _thread                                             # noqa: E402
import atexit                                              # noqa: E402
import builtins                                            # noqa: E402
import decimal                                             # noqa: E402
import gc                                                  # noqa: E402
import io                                                  # noqa: E402
import locale                                              # noqa: E402
import logging                                             # noqa: E402
import os                                                  # noqa: E402
import pickle                                              # noqa: E402
import random                                              # noqa: E402
import re                                                  # noqa: E402
import signal                                              # noqa: E402
import socket                                              # noqa: E402
import sys                                                 # noqa: E402
import threading                                           # noqa: E402
import time                                                # noqa: E402
import warnings                                            # noqa: E402
from xml.etree import ElementTree as ET                    # noqa: E402

from .. import encdata, model, observe, runner             # noqa: E402
from ..choices import Choices                              # noqa: E402
from ..interrupts import LineInterrupt                     # noqa: E402
from ..observe import freeze, lib                          # noqa: E402
from ..simfs import SimFS                                  # noqa: E402
from ..simthreads import Cancelled, Scheduler, WILD              # noqa: E402
from ..streams import SimStream                            # noqa: E402
from ..world import Interrupt, SimCrash, StepBudget, Violation, World   # noqa: E402

RUNS = {'quick': 4000, 'thorough': 200000}
RULE = ('each run: 2-9 jobs (loading, defining and inspecting schemata, reading sound and damaged '
        'documents, encoding, XML both ways, printing, listing, identifiers, codecs, plain values) '
        'advanced step by step in a drawn interleaving, or by 2-3 simulated threads interleaved '
        'at line granularity, some of them failing or interrupted at drawn points; every step of '
        'every undisturbed job must give what the same job gives alone in a fresh process (a '
        'fork of the pristine image), leave its arguments and the process as they were; '
        'non-trivial = a job was compared after another had run or while one was in progress; '
        'distinct by jobs, interleaving and faults')
REAL = ['all of ebmlite but its command-line tools and threaded_file', 'xml.etree',
        'importlib.resources']
STUB = ['caller-supplied streams', 'file system under io buffering', 'scheduler',
        'threading primitives']
ASSUMPTIONS = ['the schema cache is shared by documentation: a name stays bound to one definition '
               'within a run', 'what a job reports is a function of the library alone, the '
               'harness draws each job\'s inputs from the job\'s own seed']
PROBES = ('schema', 'bad schema', 'read', 'damaged', 'encode', 'element', 'toxml', 'fromxml',
          'pprint', 'ids', 'list', 'codec', 'values', 'loadxml', 'verify', 'threads', 'steps interleaved',
          'failed job', 'interrupted job', 'shared schema', 'reload', 'unknown elements',
          'same job twice')


def setup():
    lib()
    warnings.simplefilter('always')
    warnings.showwarning = warned
    model.shipped(runner.REPO)
    for k in range(3):
        generated(k)


_gen = {}


def generated(k):
    """One of a few fixed generated schemata."""
    if k not in _gen:
        _gen[k] = model.gen_schema(Choices(seed=1000 + k), lengths=k == 2)
    return _gen[k]


def mask(s):
    return re.sub(r' at 0x[0-9a-fA-F]+', ' at ADDR', str(s))[:400]


def fz(v):
    """A comparable copy of anything a job may report."""
    L = lib()
    c = L['core']
    if isinstance(v, c.Element):
        return ('element',) + tuple(fz(x) for x in (v.id, v.name, v.offset, type(v).__name__))
    if isinstance(v, dict):
        return ('dict', tuple((fz(k), fz(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(fz(x) for x in v))
    if isinstance(v, (set, frozenset)):
        return ('set', tuple(sorted(map(repr, v))))
    if isinstance(v, (bytes, bytearray)):
        return (type(v).__name__, bytes(v))
    if isinstance(v, float):
        return freeze(v)
    if v is None or isinstance(v, (int, str, bool)):
        return (type(v).__name__, v)
    if isinstance(v, type):
        return ('class', v.__name__)
    if isinstance(v, ET.ElementTree):
        v = v.getroot()
    if isinstance(v, ET.Element):
        return ('xml', ET.tostring(v))
    return (type(v).__name__, mask(v))


acting = {}                  # real thread: its job


def warned(message, category, filename, lineno, file=None, line=None):
    job = acting.get(_thread.get_ident())
    if job is not None and category in (UserWarning, UnicodeWarning):
        job.out.append(('warned', category.__name__, mask(message)))


class Job:
    def __init__(self, kind, seed, slot):
        self.kind, self.seed, self.slot = kind, seed, slot
        self.dir = '/sim/j%d' % slot
        self.start()

    def start(self, faults=None):
        self.world = World(Choices(seed=self.seed))
        self.world.known_ids = ()
        self.ch = self.world.ch
        self.faults = faults or []
        self.disturbed = bool(faults)
        self.out = []
        self.done = False
        self.args = []
        self.schema_of = None
        for k, mean in self.faults:
            self.world.plan(k, mean, most=3)

    def begin(self, fs):
        self.fs = fs
        for p in list(fs.files):
            if p.startswith(self.dir + '/'):
                del fs.files[p]
        fs.mkdir(self.dir)
        self.gen = JOBS[self.kind](self)

    def step(self):
        """Advance to the next point where others may act."""
        acting[_thread.get_ident()] = self
        try:
            next(self.gen)
        except StopIteration:
            self.done = True
        except (Violation, Cancelled, SimCrash):
            raise
        except (Exception, StepBudget, Interrupt) as e:
            self.out.append(('escaped', type(e).__name__, mask(e)))
            self.done = True
        for what, value, before in self.args:
            if self.fz_arg(value) != before:
                raise Violation('argument-modified', '%r: %s became %r' % (self, what, value))

    @staticmethod
    def fz_arg(v):
        if isinstance(v, set):
            return ('set', tuple(sorted(v)))
        return encdata.freeze_data(v) if isinstance(v, (dict, list, tuple)) else fz(v)

    def arg(self, what, v):
        """Declare something passed by the caller, which must not change."""
        self.args.append((what, v, self.fz_arg(v)))
        return v

    def do(self, f, show=fz):
        try:
            r = f()
            self.out.append(('ok', show(r)))
            return r
        except (Violation, Cancelled, SimCrash):
            raise
        except (Exception, StepBudget) as e:
            self.out.append(('raised', type(e).__name__, mask(e)))
            return None

    # -- inputs ----------------------------------------------------------------
    def model(self):
        ch = self.ch
        k = ch.below(7)
        if k < 4:
            ms = model.shipped(runner.REPO)
            return ms[sorted(ms)[k % len(ms)]]
        return generated(k - 4)

    def schema(self, m):
        core = lib()['core']
        self.schema_of = m
        if m.file:
            return core.loadSchema(m.file)
        k = [i for i in _gen if _gen[i] is m][0]
        how = self.ch.below(3)
        if how == 0:
            return core.parseSchema(m.xml, name='generated %d' % k)
        if how == 1:
            return core.Schema(io.StringIO(m.xml))
        return core.loadSchema('/sim/schemata/gen%d.xml' % k)

    def document(self, m, **kw):
        kw.setdefault('unknown_size', self.ch.pick([0, 0, 20]))
        kw.setdefault('nodes', 12)
        return model.gen_document(self.ch, m, model.DocSpec(self.ch, **kw))

    def stream(self, data):
        s = SimStream(self.world, data, label='j%d' % self.slot)
        s.op_budget = 20000
        return s

    def __repr__(self):
        return '<job %d %s %d>' % (self.slot, self.kind, self.seed)


# -- jobs: generators, yielding where other operations may come between ------
def describe_schema(s):
    out = []
    for eid in sorted(s.elements):
        e = s.elements[eid]
        out.append((eid, e.name, e.__name__, [b.__name__ for b in e.__mro__][:4], e.mandatory,
                    e.multiple, getattr(e, 'precache', None), getattr(e, 'length', None),
                    getattr(e, 'sizeLength', None), sorted(getattr(e, 'children', ()) or ()),
                    e.__doc__ and len(e.__doc__), e.schema is s))
    info = sorted((k, sorted(v.items())) for k, v in s.elementInfo.items())
    return fz([out, info, sorted(s.globals), sorted(s.children), sorted(s.elementsByName),
               s.name, s.type, s.version, s.document.__name__, mask(repr(s)),
               [c.__name__ for c in s.document.__mro__]])


def job_schema(j):
    m = j.model()
    reload = j.ch.chance(1, 3)
    core = lib()['core']
    s = j.do(lambda: j.schema(m), describe_schema)
    yield
    if reload and m.file:
        r = j.do(lambda: core.loadSchema(m.file, reload=True), describe_schema)
        j.out.append(('distinct', r is not s))
        yield
    if s is not None:
        j.do(lambda: s, describe_schema)
        for _ in range(4):
            k = j.ch.pick([sorted(m.byid)[0], sorted(m.byname)[-1], 'Nothing', 0x7E, 0x1A45DFA3])
            j.do(lambda: s.get(k))
            j.do(lambda: s[k])
            j.do(lambda: k in s)
            yield


def job_badschema(j):
    ch = j.ch
    x = generated(ch.below(3)).xml
    i = ch.below(len(x))
    k = ch.below(5)
    if k == 0:
        x = x[:i]
    elif k == 1:
        ids = re.findall(r'id="(0x[0-9A-Fa-f]+)"', x)
        x = x.replace('id="%s"' % ids[-1], 'id="%s"' % ids[0])
    elif k == 2:
        names = re.findall(r'name="(\w+)"', x)
        x = x.replace('name="%s"' % names[-1], 'name="%s"' % names[ch.below(len(names))])
    elif k == 3:
        x = x.replace('Element ', 'Elemental ', 1)
    else:
        x = x.replace('id="0x', 'id="zz', 1)
    core = lib()['core']
    name = 'bad %d' % j.slot
    for _ in range(2):
        j.do(lambda: core.parseSchema(x, name=name, reload=True), describe_schema)
        yield
    j.fs.put(j.dir + '/bad.xml', x.encode())
    j.do(lambda: core.loadSchema(j.dir + '/bad.xml', reload=True), describe_schema)
    yield
    j.do(lambda: core.loadSchema(j.dir + '/none.xml'))


def look(j, d, nodes=60):
    """Read all of a document, letting others come between."""
    L = lib()
    left = [nodes]
    stack = [d]

    def show(el):
        if isinstance(el, L['core'].MasterElement):
            return fz([el.id, el.name, el.offset, el.size, type(el).__name__, len(el)])
        return fz([el.id, el.name, el.offset, el.size, el.value, type(el).__name__,
                   el.mandatory, el.multiple, mask(repr(el))])

    while stack and left[0] > 0:
        left[0] -= 1
        el = stack.pop()
        if el is d:
            kids = j.do(lambda: list(d), lambda r: len(r))
        elif isinstance(el, L['core'].MasterElement):
            j.do(lambda: el, show)
            kids = j.do(lambda: el.value, lambda r: len(r))
        else:
            j.do(lambda: el, show)
            if j.ch.chance(1, 4):
                j.do(lambda: el.gc(recurse=True))
            kids = None
        stack.extend(reversed(list(kids or ())[:12]))
        if j.ch.chance(1, 6):
            yield


def open_document(j, s, data):
    how = j.ch.below(3)
    kw = some(j.ch, dict(headers=j.ch.chance(1, 2)))
    if how == 0:
        return s.load(j.stream(data), **kw)
    if how == 1:
        j.fs.put(j.dir + '/doc.ebml', data)
        return s.load(j.dir + '/doc.ebml', **kw)
    return s.loads(data)


def job_read(j):
    m = j.model()
    doc = j.document(m)
    s = j.do(lambda: j.schema(m), lambda s: 0)
    if s is None:
        return
    yield
    d = j.do(lambda: open_document(j, s, doc.data), lambda d: fz([mask(d), d.name, d.offset]))
    if d is None:
        return
    yield
    j.do(lambda: [d.info, d.type, d.version, d.size])
    it = iter(d)
    j.do(lambda: next(it, None))
    yield
    yield from look(j, d)
    j.do(lambda: next(it, None))
    j.do(lambda: d.dump())
    yield
    j.do(lambda: [fz(e) for e in lib()['util'].flatiter(d)])
    if j.ch.chance(1, 2):
        # elements the schema lacks
        j.do(lambda: d.close())


def job_damaged(j):
    ch = j.ch
    m = j.model()
    data = bytearray(j.document(m, nodes=8).data)
    for _ in range(ch.between(1, 3)):
        if data:
            i = ch.below(len(data))
            data[i] ^= 1 << ch.below(8)
    if ch.chance(1, 3):
        del data[ch.below(len(data) + 1):]
    s = j.do(lambda: j.schema(m), lambda s: 0)
    if s is None:
        return
    yield
    d = j.do(lambda: s.load(j.stream(data)), lambda d: fz([mask(d), d.name]))
    if d is not None:
        yield
        yield from look(j, d, 30)


def job_encode(j):
    ch = j.ch
    m = j.model()
    data, want, g = encdata.document(ch, m, bad=ch.pick([0, 0, 60]))
    headers = ch.chance(1, 2)
    s = j.do(lambda: j.schema(m), lambda s: 0)
    if s is None:
        return
    j.arg('data', data)
    yield
    j.do(lambda: s.encodes(data, headers=headers))
    yield
    out = j.stream(b'')
    kw = some(ch, dict(headers=headers))
    j.do(lambda: s.encode(out, data, **kw), lambda r: 0)
    j.out.append(bytes(out.data))
    yield
    kw = some(ch, dict(headers=not headers))
    j.do(lambda: s.encodes(data, **kw))


def job_element(j):
    ch = j.ch
    m = j.model()
    s = j.do(lambda: j.schema(m), lambda s: 0)
    if s is None:
        return
    for _ in range(ch.between(1, 4)):
        d = m.byid[ch.pick(sorted(m.byid))]
        cls = s[d.name]
        if d.kind == 'master':
            data, _ = encdata.Gen(ch, m, nodes=6, depth=2).master(d, 1)
            j.arg('data', data)
            kw = some(ch, dict(lengthSize=ch.pick([None, 1, 2, 4, 8]), infinite=ch.chance(1, 3)))
            j.do(lambda: cls.encode(data, **kw))
        else:
            v, _ = encdata.gen_value(ch, d)
            j.arg('value', v)
            j.do(lambda: cls.encode(v, length=ch.pick([None, None, 8, 4, 1]),
                                    lengthSize=ch.pick([None, 1, 4])))
            j.do(lambda: cls.encodePayload(v))
        yield


def some(ch, kw):
    """Leave some arguments to their defaults."""
    if ch.chance(1, 2):
        return kw
    return {k: v for k, v in kw.items() if ch.chance(1, 2)}


def the_codec(j):
    X = lib()['codecs']
    k = j.ch.below(7)
    if k > 4:
        return X.Base64Codec() if k == 5 else X.HexCodec()
    if k < 2:
        return j.ch.pick(['base64', 'hex', 'ignore'])
    if k == 2:
        return X.Base64Codec(cols=j.ch.pick([76, 8, None]))
    if k == 3:
        return X.HexCodec(width=j.ch.pick([2, 4]), cols=j.ch.pick([8, 16]),
                          offsets=j.ch.chance(1, 2))
    return X.IgnoreCodec() if hasattr(X, 'IgnoreCodec') else 'ignore'


def job_toxml(j):
    ch = j.ch
    util = lib()['util']
    m = j.model()
    doc = j.document(m)
    s = j.do(lambda: j.schema(m), lambda s: 0)
    d = j.do(lambda: s.load(j.stream(doc.data)), lambda d: 0)
    if d is None:
        return
    yield
    for _ in range(2):
        opts = some(ch, dict(
            offsets=ch.chance(1, 2), sizes=ch.chance(1, 2), types=ch.chance(1, 2),
            ids=ch.chance(1, 2), binary_codec=the_codec(j), void_codec=the_codec(j)))
        j.do(lambda: util.toXml(d, **opts), lambda x: ET.tostring(x))
        yield


def xml_for(j, m):
    """XML to convert: made without the library."""
    ch = j.ch
    root = ET.Element(j.ch.pick([(m.doctype or '').title()] * 8 + ['Other']) + 'Document')
    root.set('schemaName', m.doctype or 'x')

    def add(parent, d, depth):
        ids = list(m.roots) if d is None else list(d.children)
        for _ in range(ch.between(0, 4)):
            if ch.chance(1, 10):
                e = ET.SubElement(parent, 'UnknownElement')
                e.set('id', '0x%X' % ch.pick([0xF1, 0x7A7A, 0x3B3B3B, 0x1B2B3B4B]))
                e.text = 'AQID'
                if ch.chance(1, 8):
                    e.attrib.clear()
                continue
            if ch.chance(1, 25):
                ET.SubElement(parent, 'Mystery').set('value', '3')
                continue
            c = m.byid[ch.pick(sorted(ids))] if ids else None
            if c is None or c.name == 'EBML':
                continue
            e = ET.SubElement(parent, c.name)
            if ch.chance(1, 4):
                e.set('sizeLength', ch.pick(['4', '8', '1']))
            if c.kind == 'master':
                if depth < 4:
                    add(e, c, depth + 1)
            elif c.kind in ('bin',):
                e.text = ch.pick(['', 'AAEC', 'AAECAwQFBgcICQ==', '!'])
                e.set('encoding', 'base64')
            elif c.kind == 'void':
                e.set('size', str(ch.below(20)))
            elif c.kind == 'date':
                e.set('value', ch.pick(['2001-01-01T00:00:00', '2024-02-29T12:00:00.000001',
                                        '1999-12-31 23:59:59']))
            elif c.kind == 'float':
                e.set('value', ch.pick(['0.0', '1.5', '-2.25e10', 'nan', 'inf']))
            elif c.kind in ('uint', 'int'):
                e.set('value', ch.pick(['0', '1', '77', '65536', '-1', 'x']))
            else:
                e.set('value', ch.pick(['', 'text', 'more text & <such>', 'caf\u00e9']))

    add(root, None, 1)
    return root


def job_fromxml(j):
    ch = j.ch
    util = lib()['util']
    m = j.model()
    root = xml_for(j, m)
    j.world.probe('unknown elements', len(root.findall('.//UnknownElement')))
    s = j.do(lambda: j.schema(m), lambda s: 0)
    if s is None:
        return
    j.arg('xml', root)
    yield
    for _ in range(2):
        kw = some(ch, dict(headers=ch.chance(1, 2), unknown=ch.chance(2, 3),
                           sizeLength=ch.pick([None, None, 4, 8])))
        out = j.stream(b'')
        j.do(lambda: util.xml2ebml(root, out, s, **kw))
        j.out.append(bytes(out.data))
        yield
    data = bytes(out.data)
    d = j.do(lambda: s.loads(data), lambda d: 0)
    if d is not None:
        yield from look(j, d, 30)


def job_loadxml(j):
    util = lib()['util']
    m = j.model()
    root = xml_for(j, m)
    j.fs.put(j.dir + '/in.xml', ET.tostring(root))
    where = j.ch.pick([':memory:', j.dir + '/out.ebml', None])
    s = j.do(lambda: j.schema(m), lambda s: 0)
    if s is None:
        return
    yield
    d = j.do(lambda: util.loadXml(j.dir + '/in.xml', s, where), lambda d: 0)
    if d is not None:
        yield
        yield from look(j, d, 30)
        j.do(lambda: d.close())


def job_verify(j):
    ch = j.ch
    m = j.model()
    data = bytearray(j.document(m, nodes=10).data)
    if data and ch.chance(1, 3):
        data[ch.below(len(data))] ^= 1 << ch.below(8)
    s = j.do(lambda: j.schema(m), lambda s: 0)
    if s is None:
        return
    yield
    j.do(lambda: s.verify(bytes(data)))


def job_pprint(j):
    ch = j.ch
    util = lib()['util']
    m = j.model()
    doc = j.document(m)
    s = j.do(lambda: j.schema(m), lambda s: 0)
    d = j.do(lambda: s.load(j.stream(doc.data)), lambda d: 0)
    if d is None:
        return
    yield
    for _ in range(2):
        out = io.StringIO()
        kw = some(ch, dict(values=ch.chance(2, 3), indent=ch.pick(['  ', '\t', '']),
                           binary_codec=the_codec(j), void_codec=the_codec(j)))
        j.do(lambda: util.pprint(d, out=out, **kw))
        j.out.append(mask(out.getvalue()))
        j.out.append(out.getvalue())
        yield


def job_ids(j):
    ch = j.ch
    util = lib()['util']
    m = j.model()
    s = j.do(lambda: j.schema(m), lambda s: 0)
    if s is None:
        return
    for _ in range(3):
        ex = [0x81 + ch.below(100) for _ in range(ch.below(20))]
        ex = j.arg('exclude', ch.pick([list, set, tuple, list])(ex))
        kw = some(ch, dict(count=ch.pick([1, 5, 30]), exclude=ex))
        if ch.chance(1, 2):
            kw['minId'] = ch.pick([0x85, 0x4100, 0x210000])
        c = ch.pick('abcdABx')
        j.do(lambda: util.createID(s, c, **kw))
        yield
        i = ch.pick([0x81, 0x80, 0xFF, 0x4000, 0x7FFE, 0x3FFFFE, 0x1A45DFA3, 0, -1, 0x20000000])
        j.do(lambda: util.validateID(i))
    yield


def job_list(j):
    ch = j.ch
    L = lib()
    core, util = L['core'], L['util']
    m = generated(ch.below(3))
    j.fs.put(j.dir + '/s/one.xml', m.xml.encode())
    j.fs.put(j.dir + '/s/bad.xml', b'<Schema><')
    j.fs.sorted = True
    paths = j.arg('paths', [j.dir + '/s', '{ebmlite.schemata}', '/sim/none', '{no_module}'][
        ch.below(2):ch.between(2, 4)])
    names = core.SCHEMA_PATH
    j.arg('SCHEMA_PATH', names)
    for _ in range(2):
        rel = ch.chance(1, 2)
        k = ch.below(4)
        if k == 0:
            j.do(lambda: core.listSchemata(absolute=not rel))
        elif k == 1:
            r = j.do(lambda: core.listSchemata(*paths, absolute=not rel))
            if r:
                r.clear()
        elif k == 2:
            out = io.StringIO()
            j.do(lambda: util.printSchemata(paths, out, not rel))
            j.out.append(out.getvalue())
        else:
            j.do(lambda: core.loadSchema('one.xml', reload=True, paths=paths), describe_schema)
        yield


def job_codec(j):
    ch = j.ch
    X = lib()['codecs']
    for _ in range(3):
        c = the_codec(j)
        if isinstance(c, str):
            c = X.BINARY_CODECS[c]()
        data = j.arg('bytes', ch.pick([bytes, bytearray])(ch.data(ch.below(60))))
        out = io.StringIO()
        kw = some(ch, dict(offset=ch.pick([0, 0, 1000]), indent=ch.pick(['', '  '])))
        t = j.do(lambda: c.encode(data, **kw))
        j.do(lambda: c.encode(data, stream=out, **kw))
        j.out.append(out.getvalue())
        if isinstance(t, str):
            j.do(lambda: c.decode(t))
        j.do(lambda: c.decode(ch.pick(['', 'AAEC', '00 01 02', 'zz', '!!!'])))
        yield


def job_values(j):
    ch = j.ch
    E, D = lib()['encoding'], lib()['decoding']
    for _ in range(6):
        kind = ch.pick(['uint', 'int', 'float', 'str', 'utf8', 'date', 'bin'])
        f = {'uint': E.encodeUInt, 'int': E.encodeInt, 'float': E.encodeFloat,
             'str': E.encodeString, 'utf8': E.encodeUnicode, 'date': E.encodeDate,
             'bin': E.encodeBinary}[kind]
        d = model.Def(0x81, 'X', kind)
        v, _w = encdata.gen_value(ch, d)
        n = ch.pick([None, None, 8, 4, 1, 20])
        j.arg('value', v)
        b = j.do(lambda: f(v, n))
        if b is not None:
            b = bytes(b)
            r = {'uint': D.readUInt, 'int': D.readInt, 'float': D.readFloat, 'str': D.readString,
                 'utf8': D.readUnicode, 'date': D.readDate, 'bin': lambda s, n: s.read(n)}[kind]
            j.do(lambda: r(io.BytesIO(b), len(b)))
        j.do(lambda: E.encodeId(ch.pick([0x81, 0x4081, 0x1A45DFA3]), ch.pick([None, 1, 4])))
        j.do(lambda: E.encodeSize(ch.pick([0, 126, 127, 16383, 1 << 40, None]),
                                  ch.pick([None, 1, 4, 8])))
        j.do(lambda: D.readElementID(io.BytesIO(ch.data(5))))
        j.do(lambda: D.readElementSize(io.BytesIO(ch.data(9))))
        yield


JOBS = {k[4:]: f for k, f in list(globals().items()) if k.startswith('job_')}
KINDS = [(3, 'read'), (3, 'schema'), (2, 'badschema'), (2, 'damaged'), (3, 'encode'),
         (2, 'element'), (3, 'toxml'), (4, 'fromxml'), (2, 'loadxml'), (1, 'verify'), (2, 'pprint'), (1, 'ids'),
         (1, 'list'), (2, 'codec'), (1, 'values')]
PROBE = {'badschema': 'bad schema'}


def alone(job, fs):
    """What the job reports in a fresh process: run in a fork of the pristine
    image this run started from."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            job.begin(fs)
            while not job.done:
                job.step()
            res = ('out', job.out, job.world.probes)
            code = 0
        except Violation as v:
            res = ('violation', v.kind, v.msg)
        except BaseException as e:
            res = ('harness', type(e).__name__, mask(e))
        try:
            data = pickle.dumps(res)
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    res = pickle.loads(data)
    if res[0] == 'violation':
        raise Violation(res[1], 'alone: ' + res[2])
    if res[0] == 'harness':
        raise RuntimeError('job %r alone: %s %s' % (job, res[1], res[2]))
    return res[1], res[2]


class State:
    """What the process must look like after every operation."""

    def __init__(self):
        self.v = self.look()

    @staticmethod
    def look():
        core = lib()['core']
        return {'cwd': os.getcwd(), 'warning filters': list(warnings.filters),
                'hooks': [id(h) for h in (sys.excepthook, sys.displayhook, sys.gettrace(),
                                          sys.getprofile(), builtins.open,
                                          builtins.print, builtins.__import__)],
                'settings': (sys.getswitchinterval(), gc.isenabled(), gc.get_threshold(),
                             sys.dont_write_bytecode, socket.getdefaulttimeout(),
                             locale.setlocale(locale.LC_ALL), time.tzname, time.timezone,
                             sys.get_int_max_str_digits()),
                'signals': [signal.getsignal(k) for k in (signal.SIGINT, signal.SIGALRM,
                                                          signal.SIGPIPE, signal.SIGTERM)],
                'logging': (logging.root.level, len(logging.root.handlers),
                            logging.root.manager.disable),
                'decimal': repr(decimal.getcontext()),
                'exit handlers': atexit._ncallbacks(),
                'threads': sorted(t.name for t in threading.enumerate()),
 'environ': dict(os.environ), 'sys.path': list(sys.path),
                'SCHEMA_PATH': (id(core.SCHEMA_PATH), list(core.SCHEMA_PATH)),
                'stdio': [id(sys.stdin), id(sys.stdout), id(sys.stderr)],
                'recursion limit': sys.getrecursionlimit(), 'random': hash(random.getstate()),
                'ET namespaces': sorted(ET._namespace_map.items()),
                'codecs': sorted((k, v.__name__) for k, v in
                                 lib()['codecs'].BINARY_CODECS.items())}

    def check(self, job):
        now = self.look()
        for k, v in self.v.items():
            if now[k] != v:
                raise Violation('process-state-changed', 'after %r: %s was %r, now %r' % (
                    job, k, v, now[k]))


def compare(world, job, want):
    if len(job.out) == len(want) and job.out == want:
        return
    for i, (a, b) in enumerate(zip(job.out + [None], want + [None])):
        if a != b:
            raise Violation('outcome-differs', '%r step %d: %s, alone %s' % (
                job, i, str(a)[:500], str(b)[:500]))


def run(world):
    ch = world.ch
    L = lib()
    fs = SimFS(world)
    fs.install(cwd='/sim/cwd')
    for k in range(3):
        fs.put('/sim/schemata/gen%d.xml' % k, generated(k).xml.encode())
    fs.sorted = True
    jobs = []
    for i in ch.repeat(8, mean=5):
        jobs.append(Job(ch.weighted(KINDS), ch.below(1 << 40), len(jobs)))
    while len(jobs) < 2:
        jobs.append(Job(ch.weighted(KINDS), ch.below(1 << 40), len(jobs)))
    world.case = ', '.join(map(repr, jobs))
    wants = []
    for j in jobs:
        want, probes = alone(j, fs)
        wants.append(want)
        for k, v in probes.items():
            world.probe(k, v)
        j.start()
        world.probe(PROBE.get(j.kind, j.kind))
        world.mark(j.kind, j.seed & 0xffff)
        world.log('alone', j, len(want), observe_hash(want))
    state = State()
    if ch.chance(2, 5):
        threads(world, jobs, wants, fs)
    else:
        mixed(world, jobs, wants, fs, state)
    state.check('the end')
    # afterwards, in any order, everything is still as it was
    order = ch.shuffle(range(len(jobs)))
    for i in order[:3]:
        j = jobs[i]
        j.start()
        j.begin(fs)
        while not j.done:
            j.step()
        compare(world, j, wants[i])
        state.check(j)
        world.probe('same job twice')
        world.nontrivial += 1


def observe_hash(v):
    import hashlib
    return hashlib.blake2b(repr(v).encode(), digest_size=6).hexdigest()


def mixed(world, jobs, wants, fs, state):
    """One thread: the jobs' steps in a drawn order, some disturbed."""
    ch = world.ch
    live = []
    todo = list(range(len(jobs)))
    used = set()
    while todo or live:
        if todo and (not live or ch.chance(1, 2)):
            i = todo.pop(0)
            j = jobs[i]
            k = ch.weighted([(5, None), (1, 'stream'), (1, 'line'), (1, 'file')])
            if k == 'stream':
                j.start([('read_error', 6), ('write_error', 4), ('seek_error', 20),
                         ('interrupt_io', 30)])
                world.probe('failed job')
            elif k == 'file':
                j.start([('x', 1)])
                world.probe('failed job')
            elif k == 'line':
                j.start([('x', 1)])
                world.probe('interrupted job')
            j.how = k
            j.begin(fs)
            live.append(i)
        n = ch.below(len(live))
        i = live[n]
        j = jobs[i]
        world.log('step', j, len(j.out))
        world.mark('s', i)
        if n != len(live) - 1:
            world.probe('steps interleaved')
        if j.how == 'line':
            with LineInterrupt(world, ch.pick([0, 3, 10, 40, 150])):
                j.step()
        elif j.how == 'file':
            for kind in ('open_error', 'fread_error', 'fwrite_error'):
                world.plan(kind, 4, most=2)
            j.step()
            world.unplan()
        else:
            j.step()
        for k, v in j.world.faults.items():
            world.faults[k] = world.faults.get(k, 0) + v
        j.world.faults = {}
        state.check(j)
        if j.done or (j.disturbed and ch.chance(1, 3)):
            live.pop(n)              # (or simply abandoned)
            if not j.disturbed:
                compare(world, j, wants[i])
                if len(used) or live:
                    world.nontrivial += 1
                if j.schema_of is not None and any(
                        jobs[u].schema_of is j.schema_of for u in used if u != i):
                    world.probe('shared schema')
            if j.kind == 'schema':
                world.probe('reload')
            used.add(i)


def threads(world, jobs, wants, fs):
    ch = world.ch
    world.probe('threads')
    n = ch.pick([2, 3])
    s = Scheduler(world, mean_gap=ch.pick([5, 20, 60, 200, WILD, WILD]))
    fs.hook = lambda what, raw: s.preempt('io.' + what)
    fs.hook_all = True
    parts = [list(range(k, len(jobs), n)) for k in range(n)]

    def body(k):
        for i in parts[k]:
            j = jobs[i]
            j.begin(fs)
            while not j.done:
                j.step()
            world.log('done', j, observe_hash(j.out))
            compare(world, j, wants[i])
            world.nontrivial += 1

    for k in range(n):
        s.start(s.spawn('T%d' % k, (lambda k=k: body(k))))
    s.run()

"""C13: the library closes exactly the files it opened, whatever fails."""
import argparse
import gc
import io
import os
import pathlib
import sys
from xml.etree import ElementTree as ET

from .. import model, observe
from ..observe import lib
from ..simfs import SimFS
from ..streams import SimStream
from ..world import Interrupt, Violation, injected

RUNS = {'quick': 5500, 'thorough': 300000}
RULE = ('each run: 2-7 calls of entry points taking filenames or streams (schema loading, document '
        'loading and closing, XML conversion both ways, listing, printing, encoding, the tools\' '
        'file handling), on good, damaged, missing and malformed inputs, while opens, reads, '
        'seeks, tells, writes, closes, stats and listings fail or are interrupted; after every '
        'call the table of open files is compared with what may be open, and no stream of the '
        'caller\'s may be closed; non-trivial = a fault fired or a file was opened; distinct by '
        'calls, inputs and faults')
REAL = ['ebmlite.core', 'ebmlite.util', 'ebmlite.tools', 'ebmlite.threaded_file', 'xml.etree',
        'io buffering and text layers']
STUB = ['file system under io buffering', 'caller streams']
ASSUMPTIONS = ['a close that reports an error has closed the file']
PROBES = ('schema by name', 'schema failed', 'document by name', 'document not opened',
          'error in with-block', 'document of stream', 'shared stream', 'thread-aware stream',
          'xml2ebml failed', 'xml2ebml', 'loadXml', 'loadXml failed', 'printSchemata',
          'printSchemata failed', 'listSchemata', 'dump functions', 'encode', 'encode failed',
          'tool', 'tool failed', 'tool body failed', 'interrupted', 'close failed',
          'closed twice')

CWD = '/sim/cwd'
S = '/sim/s'
FS_FAULTS = ('open_error', 'fread_error', 'fseek_error', 'ftell_error', 'fwrite_error',
             'fwrite_partial', 'fwrite_short', 'fclose_error', 'stat_error', 'list_error',
             'fs_interrupt')
STREAM_FAULTS = ('read_error', 'seek_error', 'tell_error', 'write_error', 'interrupt_io')


def setup():
    lib()
    import ebmlite.tools.utils             # noqa: F401
    import ebmlite.tools.ebml2xml          # noqa: F401
    import ebmlite.tools.xml2ebml          # noqa: F401
    import ebmlite.tools.view_ebml         # noqa: F401
    import ebmlite.tools.list_schemata     # noqa: F401


class CallerText(io.StringIO):
    """A text stream of the caller's (also stands for the console)."""

    def __init__(self):
        io.StringIO.__init__(self)
        self.buffer = io.BytesIO()
        self.encoding_ = 'utf-8'


class BodyError(Exception):
    injected = True


class Run:
    def __init__(self, world):
        self.w = world
        self.ch = world.ch
        self.mine = []               # (description, stream) the caller owns
        self.live = []               # documents still open: [doc, handle numbers]

    # -- inputs ------------------------------------------------------------
    def prepare(self):
        w, ch, L = self.w, self.ch, lib()
        fs = self.fs = SimFS(w)
        fs.install(cwd=CWD)
        for d in (S, CWD, '/sim/d', '/sim/home'):
            fs.mkdir(d)
        os.environ['HOME'] = '/sim/home'
        L['core'].SCHEMATA.clear()
        L['core'].SCHEMA_PATH[:] = [S, '{ebmlite.schemata}'][:1 + ch.below(2)]
        m = self.m = model.gen_schema(ch, deep=False)
        xml = model.schema_xml(m)
        self.schema = observe.load_model_schema(m)
        fs.put(S + '/good.xml', xml.encode())
        fs.put(CWD + '/good.xml', xml.encode())
        fs.put(S + '/alias.xml', xml.encode())
        fs.put(S + '/torn.xml', xml[:len(xml) // 2].encode())
        fs.put(S + '/other.xml', b'<NotASchema/>')
        fs.put(S + '/empty.xml', b'')
        fs.put(S + '/latin.xml', b'<?xml version="1.0" encoding="ascii"?><Schema>\xff</Schema>')
        fs.put(S + '/bad.xml', xml.replace('id="0x1A45DFA3"', 'id="zz"', 1).encode())
        fs.put(S + '/locked.xml', xml.encode()).unreadable = 13
        doc = self.doc = model.gen_document(ch, m, model.DocSpec(ch, unknown_size=5))
        data = doc.data
        fs.put('/sim/d/good.ebml', data)
        fs.put('/sim/d/torn.ebml', data[:ch.below(len(data) + 1)])
        fs.put('/sim/d/none.ebml', b'')
        fs.put('/sim/d/junk.ebml', b'\0' * 9 + data)
        dam = bytearray(data)
        if dam:
            for _ in range(ch.between(1, 5)):
                dam[ch.below(len(dam))] = ch.below(256)
        fs.put('/sim/d/damaged.ebml', bytes(dam))
        text = b'<%s/>' % self.schema.document.__name__.encode()
        try:
            root = L['util'].toXml(self.schema.loads(data))
            text = ET.tostring(root, encoding='us-ascii')
            ET.fromstring(text)
            L['util'].xml2ebml(ET.fromstring(text), io.BytesIO(), self.schema)
        except Exception:      # (C10's subject)
            text = b'<%s/>' % self.schema.document.__name__.encode()
        fs.put('/sim/d/good.xml', text)
        fs.put('/sim/d/torn.xml', text[:len(text) * 3 // 4])
        fs.put('/sim/d/none.xml', b'')
        fs.put('/sim/d/wrong.xml', b'<Wrong><Wrong2/></Wrong>')
        end = text.rfind(b'</')
        if end > 0:
            fs.put('/sim/d/name.xml', text[:end] + b'<NoSuchThing value="1"/>' + text[end:])
            fs.put('/sim/d/value.xml', text[:end] + b'<EBML sizeLength="x"/>' + text[end:])
            fs.put('/sim/d/size.xml', text[:end] + b'<EBML sizeLength="99"/>' + text[end:])

    def name(self, path):
        """One of the ways to give a path."""
        ch = self.ch
        return ch.pick([path, pathlib.Path(path),
                        os.path.relpath(path, CWD) if path.startswith('/sim') else path])

    def own(self, what, s):
        self.mine.append((what, s))
        return s

    def in_stream(self, path):
        ch, fs = self.ch, self.fs
        data = fs.get(path) or b''
        k = ch.pick(['sim', 'bytesio', 'file', 'raw', 'big'])
        if k == 'sim':
            return self.own('SimStream', SimStream(self.w, data, label='in'))
        if k == 'bytesio':
            return self.own('BytesIO', io.BytesIO(data))
        if k == 'big':
            return self.own('BufferedReader', io.BufferedReader(io.BytesIO(data)))
        if path not in fs.files:
            return self.own('BytesIO', io.BytesIO(data))
        return self.own('file', self.quietly(lambda: open(path, 'rb', 0 if k == 'raw' else -1)))

    def out_stream(self):
        ch = self.ch
        k = ch.pick(['sim', 'bytesio', 'file'])
        if k == 'sim':
            return self.own('SimStream', SimStream(self.w, b'', label='out'))
        if k == 'bytesio':
            return self.own('BytesIO', io.BytesIO())
        return self.own('file', self.quietly(lambda: open('/sim/d/mine.out', 'w+b')))

    def text_stream(self):
        ch = self.ch
        k = ch.pick(['stringio', 'file', 'wrapped'])
        if k == 'stringio':
            return self.own('StringIO', CallerText())
        if k == 'wrapped':
            return self.own('TextIOWrapper', io.TextIOWrapper(io.BytesIO(), 'utf-8'))
        return self.own('text file', self.quietly(
            lambda: open('/sim/d/mine.txt', 'w', encoding='utf-8')))

    def quietly(self, f):
        """The caller's own action: no faults."""
        plans, self.w.plans = self.w.plans, {}
        try:
            return f()
        finally:
            self.w.plans = plans

    # -- doing and judging one call ------------------------------------------
    def allowed_open(self):
        ok = set()
        for what, s in self.mine:
            raw = s
            while raw is not None and not hasattr(raw, 'serial'):
                raw = getattr(raw, 'buffer', None) if isinstance(raw, io.TextIOWrapper) \
                    else getattr(raw, 'raw', None)
            if raw is not None:
                ok.add(raw.serial)
        for doc, handles in self.live:
            ok |= handles
        return ok

    def call(self, desc, f, good=True, faults=True, ok=()):
        """Run one library call; (result, exception).  `good`: without
        faults it must succeed.  ok: exceptions good inputs may raise."""
        w, ch = self.w, self.ch
        if faults and ch.chance(2, 3):
            for k in FS_FAULTS + STREAM_FAULTS:
                if ch.chance(1, 4):
                    w.plan(k, ch.pick([1, 2, 4, 10]), most=ch.pick([1, 3]))
        before = dict(w.faults)
        opened = len(self.fs.handles)
        res = err = None
        w.log('call', desc)
        try:
            res = f()
        except Violation:
            raise
        except BaseException as e:
            err = e
            if not isinstance(e, (Exception, Interrupt, SystemExit)):
                raise
            if isinstance(e, Interrupt):
                w.probe('interrupted')
        w.unplan()
        fired = w.faults != before
        w.mark(desc, type(err).__name__, fired)
        w.log('result', type(err).__name__)
        if len(self.fs.handles) > opened:
            w.nontrivial += 1
        if err is not None and good and not fired and not isinstance(err, SystemExit) \
                and not isinstance(err, ok):
            raise Violation('failed', '%s raised %r' % (desc, err))
        self.desc = '%s -> %s' % (desc, type(err).__name__ if err is not None else 'ok')
        self.opened = opened
        return res, err

    def audit(self, desc=None):
        """Nothing may be open but what is allowed, nothing of the caller's
        closed.  (The last exception's frames are still alive.)"""
        desc = desc or self.desc
        ok = self.allowed_open()
        for h in self.fs.handles:
            if h.serial in ok:
                if h.closed:
                    raise Violation('closed-early', '%s: %r is closed' % (desc, h))
            elif not h.closed:
                raise Violation('left-open', '%s: %r is open' % (desc, h))
            if h.gc:
                raise Violation('left-to-gc', '%s: %r was only closed by the collector' % (
                    desc, h))
        for what, s in self.mine:
            if s.closed or getattr(s, 'closes', 0):
                raise Violation('closed-callers', '%s: closed the caller\'s %s' % (desc, what))

    def done(self):
        """Audit, then again once nothing refers to the call any more."""
        self.audit()
        gc.collect()
        self.audit(self.desc + ' (after collection)')

    # -- calls -----------------------------------------------------------------
    def load_schema(self):
        w, ch, core = self.w, self.ch, lib()['core']
        w.probe('schema by name')
        name = ch.pick(['good', 'torn', 'other', 'empty', 'latin', 'bad', 'locked', 'missing',
                        'good'])
        f = ch.pick([lambda: name + '.xml', lambda: self.name(S + '/' + name + '.xml')])()
        how = ch.pick(['loadSchema', 'reload', 'Schema', 'named'])
        go = {'loadSchema': lambda: core.loadSchema(f),
              'reload': lambda: core.loadSchema(f, reload=True),
              'named': lambda: core.loadSchema(S + '/alias.xml', name='a name'),
              'Schema': lambda: core.Schema(f if str(f).startswith('/') else S + '/%s.xml' % name)
              }[how]
        _, err = self.call('%s(%r)' % (how, f), go, name == 'good' or how == 'named')
        if err is not None:
            w.probe('schema failed')
        self.done()

    def schema_stream(self):
        w, ch, core = self.w, self.ch, lib()['core']
        name = ch.pick(['good', 'torn', 'other', 'bad', 'good'])
        s = self.in_stream(S + '/' + name + '.xml')
        how = ch.pick(['Schema', 'parseSchema'])
        go = {'Schema': lambda: core.Schema(s),
              'parseSchema': lambda: core.parseSchema(s, name='p%d' % len(self.mine))}[how]
        ok = ()
        if how == 'parseSchema' and isinstance(s, SimStream):
            ok = (TypeError, )           # (not an io stream)
        self.call('%s(stream of %s)' % (how, name), go, name == 'good', ok=ok)
        self.done()

    def pick_ebml(self):
        return self.ch.pick(['good', 'good', 'torn', 'none', 'junk', 'damaged', 'missing'])

    def use(self, d, n):
        """Some accesses; errors of bad data are the caller's business."""
        ch, util = self.ch, lib()['util']
        for _ in range(n):
            k = ch.pick(['list', 'deep', 'dump', 'len', 'xml', 'half', 'pprint', 'info'])
            if k == 'list':
                list(d)
            elif k == 'deep':
                for e in util.flatiter(d):
                    e.value
            elif k == 'dump':
                d.dump()
            elif k == 'len':
                len(d)
            elif k == 'xml':
                util.toXml(d)
            elif k == 'half':
                self.kept = iter(d)
                next(self.kept, None)
            elif k == 'pprint':
                util.pprint(d, out=io.StringIO())
            else:
                d.info, d.type, d.version, d.gc(True)

    kept = None

    def document(self):
        w, ch, L = self.w, self.ch, lib()
        w.probe('document by name')
        name = self.pick_ebml()
        path = self.name('/sim/d/%s.ebml' % name)
        sch = self.schema
        how = ch.pick(['load', 'call', 'document'])
        headers = ch.chance(1, 2)
        go = {'load': lambda: sch.load(path, headers=headers),
              'call': lambda: sch(path, name='x'),
              'document': lambda: sch.document(path, size=ch.pick([None, 10]))}[how]
        d, err = self.call('%s(%r)' % (how, path), go, name != 'missing')
        if err is not None:
            w.probe('document not opened')
            self.done()
            return
        entry = (d, {h.serial for h in self.fs.handles[self.opened:] if not h.closed})
        if not entry[1]:
            raise Violation('closed-early', '%s: the document has no open file' % self.desc)
        self.live.append(entry)
        if ch.chance(1, 4) and len(self.live) < 3:
            self.done()             # stays open while other things happen
            return
        self.finish(entry)

    def finish(self, entry):
        """Use a document opened by name, then close it in some way."""
        w, ch = self.w, self.ch
        d, handles = entry

        def body():
            self.use(d, ch.below(4))

        end = ch.pick(['close', 'with', 'with-raise'])
        if end == 'close':
            self.call('use', body, False)
            self.done()
            self.live = [e for e in self.live if e is not entry]
            _, err = self.call('close', d.close)
        else:
            def block():
                with d as x:
                    if x is not d:
                        raise Violation('wrong-enter', repr(x))
                    body()
                    if end == 'with-raise':
                        w.probe('error in with-block')
                        raise BodyError()
            self.live = [e for e in self.live if e is not entry]
            _, err = self.call(end, block, False)
        if err is not None and getattr(err, 'injected', False):
            w.probe('close failed')
        self.done()
        if ch.chance(1, 3):
            self.call('close again', d.close)
            w.probe('closed twice')
            self.done()

    def document_stream(self):
        w, ch, L = self.w, self.ch, lib()
        w.probe('document of stream')
        name = self.pick_ebml()
        k = ch.weighted([(4, 'stream'), (1, 'taf'), (1, 'shared'), (1, 'loads')])
        good = True
        if k == 'taf' and name != 'missing':
            w.probe('thread-aware stream')
            s = self.quietly(lambda: L['threaded'].ThreadAwareFile('/sim/d/%s.ebml' % name, 'rb'))
            self.own('ThreadAwareFile', s)
            if self.fs.handles:
                self.mine.append(('its stream', self.fs.handles[-1]))
        elif k == 'shared' and self.live:
            w.probe('shared stream')
            s = self.live[ch.below(len(self.live))][0].stream
        else:
            s = self.in_stream('/sim/d/%s.ebml' % name)
        if k == 'loads':
            data = self.fs.get('/sim/d/%s.ebml' % name) or b''
            d, err = self.call('loads', lambda: self.schema.loads(data))
        else:
            d, err = self.call('load(stream)', lambda: self.schema.load(s), good)
        if err is not None:
            self.done()
            return

        def block():
            if ch.chance(1, 2):
                with d:
                    self.use(d, ch.below(4))
            else:
                try:
                    self.use(d, ch.below(4))
                finally:
                    d.close()
        self.call('use and close document of stream', block, False)
        self.audit()
        if k != 'loads' or ch.chance(1, 2):
            del d
        self.done()

    def pick_xml(self):
        names = ['good', 'good', 'torn', 'none', 'wrong', 'missing'] + [
            n for n in ('name', 'value', 'size') if '/sim/d/%s.xml' % n in self.fs.files]
        name = self.ch.pick(names)
        path = '/sim/d/%s.xml' % name
        k = self.ch.weighted([(4, 'path'), (2, 'stream'), (1, 'element'), (1, 'tree')])
        if k == 'stream':
            return name, self.in_stream(path)
        if k in ('element', 'tree') and name not in ('torn', 'none', 'missing'):
            el = ET.fromstring(self.fs.get(path))
            return name, el if k == 'element' else ET.ElementTree(el)
        return name, self.name(path)

    def pick_schema(self):
        return self.ch.weighted([(3, self.schema), (1, 'good.xml'), (1, S + '/good.xml'),
                                 (1, 'torn.xml'), (1, 'missing.xml')])

    def pick_target(self):
        ch = self.ch
        k = ch.weighted([(5, 'path'), (3, 'stream'), (1, 'nowhere')])
        if k == 'stream':
            return self.out_stream()
        if k == 'nowhere':
            return '/sim/nowhere/out.ebml'
        return self.name('/sim/d/out%d.ebml' % ch.below(2))

    def xml2ebml(self):
        w, ch, util = self.w, self.ch, lib()['util']
        name, src = self.pick_xml()
        sch, dst = self.pick_schema(), self.pick_target()
        kw = {'sizeLength': ch.pick([None, None, 4, 1]), 'headers': ch.chance(1, 2),
              'unknown': ch.chance(1, 2)}
        _, err = self.call('xml2ebml(%s, %s, %s)' % (name, dst, sch if isinstance(sch, str)
                                                    else 'schema'),
                           lambda: util.xml2ebml(src, dst, sch, **kw),
                           name == 'good' and 'nowhere' not in str(dst) and kw['unknown']
                           and kw['sizeLength'] is None
                           and not (isinstance(sch, str) and 'good' not in sch))
        w.probe('xml2ebml failed' if err is not None else 'xml2ebml')
        self.done()

    def load_xml(self):
        w, ch, util = self.w, self.ch, lib()['util']
        name, src = self.pick_xml()
        sch = self.pick_schema()
        dst = ch.pick([None, ':memory:', '/sim/d/loaded.ebml', pathlib.Path('/sim/d/l2.ebml'),
                       '/sim/nowhere/l.ebml', None, 'in cwd'])
        d, err = self.call('loadXml(%s, %s)' % (name, dst), lambda: util.loadXml(src, sch, dst),
                           name == 'good' and 'nowhere' not in str(dst)
                           and not (isinstance(sch, str) and 'good' not in sch))
        w.probe('loadXml failed' if err is not None else 'loadXml')
        if err is not None:
            self.done()
            return
        handles = {h.serial for h in self.fs.handles[self.opened:] if not h.closed}
        if not handles and dst != ':memory:':
            raise Violation('closed-early', '%s: the document has no open file' % self.desc)
        if len(handles) > 1:
            raise Violation('left-open', '%s: %d files are open' % (self.desc, len(handles)))
        entry = (d, handles)
        self.live.append(entry)
        self.done()
        self.finish(entry)

    def listing(self):
        w, ch, L = self.w, self.ch, lib()
        paths = [self.name(S)]
        if ch.chance(1, 2):
            paths.append(ch.pick(['/sim/nowhere', CWD, '/sim/d', '{no_such_module}',
                                  S + '/good.xml']))
        if ch.chance(1, 2):
            self.call('listSchemata(%r)' % (paths,), lambda: L['core'].listSchemata(
                *paths, absolute=ch.chance(1, 2)), False)
            w.probe('listSchemata')
            self.done()
            return
        out = ch.weighted([(3, '/sim/d/list.txt'), (1, pathlib.Path('/sim/d/list.txt')),
                           (1, '/sim/nowhere/list.txt'), (3, 'stream'), (1, None)])
        if out == 'stream':
            out = self.text_stream()
        console = CallerText()
        if out is None:
            self.own('console', console)
        old, sys.stdout = sys.stdout, console
        try:
            _, err = self.call('printSchemata(%r, %r)' % (paths, type(out).__name__),
                               lambda: L['util'].printSchemata(
                                   list(paths) if ch.chance(3, 4) else None, out), False)
        finally:
            sys.stdout = old
        w.probe('printSchemata failed' if err is not None else 'printSchemata')
        self.done()

    def dumping(self):
        """Output to the caller's streams."""
        w, ch, L = self.w, self.ch, lib()
        w.probe('dump functions')
        d = self.schema.loads(self.fs.get('/sim/d/good.ebml'))
        out = self.text_stream()
        codec = ch.pick(['base64', 'hex', 'ignore'])
        k = ch.pick(['pprint', 'codec'])
        if k == 'pprint':
            self.call('pprint(out=stream)', lambda: L['util'].pprint(
                d, out=out, binary_codec=codec, void_codec=codec))
        else:
            c = L['codecs'].BINARY_CODECS[codec]()
            self.call('%s.encode(stream)' % codec, lambda: c.encode(
                self.doc.data[:100], stream=out))
        self.done()

    def encoding(self):
        w, ch, L = self.w, self.ch, lib()
        out = self.out_stream()
        data = observe_dump(self.schema, self.fs.get('/sim/d/good.ebml'))
        bad = ch.chance(1, 4)
        if bad:
            data = dict(data or {})
            data[ch.pick(sorted(data) + ['EBML'])] = object()
        k = ch.pick(['schema', 'document', 'element'])
        kw = {'headers': ch.chance(1, 2)}
        if k == 'schema':
            go = lambda: self.schema.encode(out, data, **kw)           # noqa: E731
        elif k == 'document':
            go = lambda: self.schema.document.encode(out, data, **kw)  # noqa: E731
        else:
            go = lambda: self.schema['EBML'].encode(                   # noqa: E731
                out, {'DocType': object() if bad else 'x'})
        _, err = self.call('encode by %s' % k, go, False)
        w.probe('encode failed' if err is not None else 'encode')
        self.done()

    def tool(self):
        w, ch = self.w, self.ch
        import ebmlite.tools.utils as tu
        import ebmlite.tools.ebml2xml as t1
        import ebmlite.tools.xml2ebml as t2
        import ebmlite.tools.view_ebml as t3
        import ebmlite.tools.list_schemata as t4
        w.probe('tool')
        console = self.own('console', CallerText())
        oldout, olderr, oldargv = sys.stdout, sys.stderr, sys.argv
        k = ch.pick(['ebml2xml', 'xml2ebml', 'view_ebml', 'list_schemata', 'load_files'])
        schema = ch.pick([S + '/good.xml', 'good', 'good.xml', 'torn', 'missing', 'good'])
        out = ch.weighted([(5, '/sim/d/tool.out'), (1, '/sim/nowhere/x'), (2, None)])
        if out and ch.chance(1, 2):
            self.fs.files.pop(out, None)
        sys.stdout, sys.stderr = console, io.StringIO()
        try:
            if k == 'load_files':
                args = argparse.Namespace(
                    input=ch.pick(['/sim/d/good.ebml', '/sim/d/good.ebml', '/sim/d/missing']),
                    schema=schema, output=out, clobber=ch.chance(1, 2))
                fail = ch.pick([None, BodyError, Interrupt, SystemExit])

                def go():
                    with tu.load_files(args, binary_output=ch.chance(1, 2)):
                        if fail:
                            w.probe('tool body failed')
                            raise fail()
                _, err = self.call('load_files(%s, %s)' % (schema, out), go, False)
            else:
                name = self.pick_ebml()
                argv = [k]
                if k == 'list_schemata':
                    argv += [S] if ch.chance(1, 2) else []
                else:
                    src = '/sim/d/%s.%s' % (name, 'xml' if k == 'xml2ebml' else 'ebml')
                    argv += [src, schema]
                    if ch.chance(1, 2):
                        argv.append('--clobber')
                    if k != 'xml2ebml':
                        argv += ch.pick([[], ['-e', 'hex'], ['-e', 'base64']])
                    if k == 'ebml2xml':
                        argv += ch.pick([[], ['--single'], ['--max']])
                if out:
                    argv += ['-o', out]
                sys.argv = argv
                mod = {'ebml2xml': t1, 'xml2ebml': t2, 'view_ebml': t3, 'list_schemata': t4}[k]
                _, err = self.call(' '.join(argv), mod.main, False)
        finally:
            sys.stdout, sys.stderr, sys.argv = oldout, olderr, oldargv
        if err is not None:
            w.probe('tool failed')
        self.done()


def observe_dump(schema, data):
    try:
        return schema.loads(data).dump()
    except Exception:
        return {}


def run(world):
    ch = world.ch
    x = Run(world)
    x.prepare()
    world.case = x.doc.describe()[:200]
    calls = []
    for _ in range(ch.between(2, 7)):
        op = ch.weighted([(3, x.load_schema), (1, x.schema_stream), (5, x.document),
                          (3, x.document_stream), (4, x.xml2ebml), (3, x.load_xml),
                          (2, x.listing), (1, x.dumping), (1, x.encoding), (3, x.tool)])
        op()
        calls.append(x.desc)
        world.case = ' | '.join(calls)[:900]
    for entry in list(x.live):
        x.finish(entry)
    # the caller's streams are the caller's to close
    x.audit('at the end')

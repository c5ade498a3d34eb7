"""C16: schema listing and lookup agree, with faulty and changing files."""
from .. import simthreads
simthreads.install()

import importlib                                           # noqa: E402
import importlib.machinery                                 # noqa: E402
import io                                                  # noqa: E402
import os                                                  # noqa: E402
import pathlib                                             # noqa: E402
import sys                                                 # noqa: E402
import types                                               # noqa: E402
import zipfile                                             # noqa: E402

from .. import observe                                     # noqa: E402
from ..observe import lib                                  # noqa: E402
from ..simfs import SimFS                                  # noqa: E402
from ..simthreads import Cancelled, Scheduler, WILD              # noqa: E402
from ..world import Interrupt, Violation, injected         # noqa: E402

RUNS = {'quick': 6000, 'thorough': 250000}
RULE = ('each run: search paths of directories, packages (also zipped, also given as modules), '
        'missing directories and modules, holding good, legacy, oddly encoded, malformed, invalid '
        'and unreadable schema files; 1-3 simulated threads list, print and load while files are '
        'created, replaced, damaged and removed at file system calls and opens, reads, stats and '
        'listings fail or are interrupted; every listing must hold each file that was good '
        'throughout and none that never was, in path order; every load must return the first '
        'file found; at the end, all quiet, both must match the model exactly; non-trivial = a '
        'listing or load during a change or fault; distinct by path, files, schedule and faults')
REAL = ['ebmlite.core (listSchemata, loadSchema, Schema)', 'ebmlite.util.printSchemata',
        'xml.etree', 'pathlib', 'importlib.resources', 'zipfile']
STUB = ['file system under io buffering', 'package loaders', 'threading primitives', 'scheduler']
ASSUMPTIONS = ['directories on the search path stay readable (a failure to list one may fail the '
               'listing)', 'a relative name is first looked for in the current directory, as '
               'documented']
PROBES = ('listed', 'loaded', 'printed', 'missing directory', 'missing module', 'package',
          'module instance', 'zipped', 'subdirectory of package', 'duplicate path', 'shadowed',
          'malformed', 'unreadable', 'bad encoding', 'legacy', 'declared encoding', 'invalid',
          'directory named like a file', 'changed during call', 'load failed', 'relative',
          'bad file shadows', 'listing raised injected', 'search path as imported',
          'search path of the environment')

NAMES = ['x.xml', 'y.xml', 'Z.XML', 'mide_manifest.xml']
DIRS = {'/sim/cwd': None, '/sim/cwd/rel': None, '/sim/a': None, '/sim/b': None, '/sim/pkg': None,
        '/sim/pkg/sub': None}
ZIP = '/sim/z.zip/zpkg'
ENTRIES = [('', '/sim/cwd'), ('/sim/a', '/sim/a'), ('/sim/b/', '/sim/b'), ('rel', '/sim/cwd/rel'),
           ('../b', '/sim/b'), (pathlib.Path('/sim/a'), '/sim/a'), (pathlib.Path('rel'),
           '/sim/cwd/rel'), ('{simpkg}', '/sim/pkg'), ('{simpkg}/sub', '/sim/pkg/sub'),
           ('MODULE', '/sim/pkg'), (pathlib.Path('{simpkg}'), '/sim/pkg'), ('{simzip}', ZIP),
           ('ZIPMODULE', ZIP), ('/sim/nope', None), ('/sim/a/none/there', None),
           ('{no_such_module}', None), ('{simpkg.nothing}', None), ('{simpkg}/nope', None),
           ('/sim/a/x.xml', None), ('{ebmlite.schemata}', 'REAL')]
ENVIRON = [str(p) for p, _ in ENTRIES if p not in ('MODULE', 'ZIPMODULE')]
GOOD = ('good', 'legacy', 'latin', 'utf16', 'bom')
BAD = ('torn', 'empty', 'encoding', 'multibyte', 'wide', 'other', 'unreadable', 'binary')
KINDS = [(8, 'good'), (2, 'legacy'), (1, 'latin'), (1, 'utf16'), (1, 'bom'), (2, 'torn'),
         (1, 'empty'), (1, 'encoding'), (1, 'multibyte'), (1, 'wide'), (2, 'other'),
         (2, 'unreadable'), (1, 'binary'), (2, 'invalid')]


ENV = 'EBMLITE_SCHEMA_PATH'
IMPORTED = []                     # the search path as imported


def setup():
    os.environ.pop(ENV, None)
    IMPORTED[:] = lib()['core'].SCHEMA_PATH


def imported_with(value):
    """ The search path of a fresh import with that environment. """
    mine = {k: v for k, v in sys.modules.items() if k.partition('.')[0] == 'ebmlite'}
    for k in mine:
        del sys.modules[k]
    os.environ[ENV] = value
    try:
        return list(importlib.import_module('ebmlite.core').SCHEMA_PATH)
    finally:
        del os.environ[ENV]
        for k in [k for k in sys.modules if k.partition('.')[0] == 'ebmlite']:
            del sys.modules[k]
        sys.modules.update(mine)


def content(kind, k):
    doc = 'doc%d' % k
    body = ('<MasterElement name="EBML" id="0x1A45DFA3" mandatory="1">'
            '<StringElement name="DocType" id="0x4282" default="%s"/></MasterElement>'
            '<MasterElement name="Top%d" id="0x81"><UIntegerElement name="U" id="0x82"/>'
            '</MasterElement>' % (doc, k))
    x = '<Schema>%s</Schema>' % body
    if kind == 'legacy':
        x = ('<table><element name="EBML" id="0x1A45DFA3" type="master" mandatory="1"/>'
             '<element name="DocType" id="0x4282" type="string" default="%s"/>'
             '<element name="Top%d" id="0x81" type="master"/></table>' % (doc, k))
    elif kind == 'latin':
        return ('<?xml version="1.0" encoding="iso-8859-1"?>' + x.replace(
            doc, doc + '\xe9')).encode('latin-1')
    elif kind == 'utf16':
        return ('<?xml version="1.0" encoding="utf-16"?>' + x.replace(
            doc, doc + '\u0416')).encode('utf-16')
    elif kind == 'bom':
        return x.encode('utf-8-sig')
    elif kind == 'torn':
        x = x[:len(x) * 2 // 3]
    elif kind == 'empty':
        x = ''
    elif kind == 'encoding':
        x = '<?xml version="1.0" encoding="x-no-such"?>' + x
    elif kind == 'multibyte':
        x = '<?xml version="1.0" encoding="shift-jis"?>' + x
    elif kind == 'wide':
        x = '<?xml version="1.0" encoding="idna"?>' + x
    elif kind == 'other':
        tag = ('Schemata', 'schema', 'Table', 'SCHEMA', 'EBMLSchema', 'tables')[k % 6]
        x = '<%s>%s</%s>' % (tag, body, tag)
    elif kind == 'binary':
        return b'\x1a\x45\xdf\xa3\x84\x42\x82\x81\x00\xff'
    elif kind == 'invalid':
        x = x.replace('</Schema>', '<FloatElement name="Q" id="0x82"/></Schema>')
    return x.encode()


def suffix(kind):
    return {'latin': '\xe9', 'utf16': '\u0416'}.get(kind, '')


class Rec:
    def __init__(self, who, kind, paths, name=None, relative=False):
        self.who, self.kind, self.paths, self.name = who, kind, paths, name
        self.relative = relative
        self.inv = self.res = self.got = self.err = None
        self.faulted = set()

    def __repr__(self):
        return '%s %s(%s) on %s' % (self.who, self.kind, self.name or (
            'relative' if self.relative else ''), [str(p) for p, _ in self.paths])


class Run:
    def __init__(self, world):
        self.w, self.ch = world, world.ch
        self.clock = 0
        self.n = 0
        self.timeline = {}           # file -> [(time, kind, version)]
        self.active = []
        self.changes = 0

    def tick(self):
        self.clock += 1
        return self.clock

    # -- files -----------------------------------------------------------------
    def set_file(self, path, kind):
        w, fs = self.w, self.fs
        self.n += 1
        if kind == 'gone':
            fs.files.pop(path, None)
        elif kind == 'dir':
            fs.files.pop(path, None)
            fs.mkdir(path)
            w.probe('directory named like a file')
        else:
            node = fs.put(path, content(kind, self.n))
            if kind == 'unreadable':
                node.unreadable = 13
            w.probe({'legacy': 'legacy', 'latin': 'declared encoding',
                     'utf16': 'declared encoding', 'bom': 'declared encoding',
                     'encoding': 'bad encoding', 'multibyte': 'bad encoding',
                     'wide': 'bad encoding', 'unreadable': 'unreadable', 'invalid': 'invalid',
                     'good': 'listed'}.get(kind, 'malformed'))
        self.timeline.setdefault(path, []).append((self.tick(), kind, self.n))
        w.log('file', path, kind, self.n)

    def some_file(self):
        d = self.ch.pick(sorted(DIRS))
        return d + '/' + self.ch.pick(NAMES)

    def change(self):
        """Another process changes a file."""
        p = self.some_file()
        if p in self.fs.dirs:
            return
        kind = self.ch.weighted(KINDS + [(5, 'gone')])
        self.set_file(p, kind)
        self.changes += 1
        self.w.fired('file changed')
        if self.active:
            self.w.probe('changed during call')

    def states(self, path, t0, t1):
        """What the file was while a call ran: [(kind, version)]."""
        h = self.timeline.get(path, [])
        out = []
        if not h or h[0][0] > t0:
            out.append(('gone', 0))
        for i, (t, kind, k) in enumerate(h):
            end = h[i + 1][0] if i + 1 < len(h) else 10 ** 9
            if t <= t1 and end >= t0:
                out.append((kind, k))
        return out

    def make_zip(self):
        buf = io.BytesIO()
        z = zipfile.ZipFile(buf, 'w')
        z.writestr('zpkg/__init__.py', '')
        torn = None
        for name in NAMES[:3]:
            kind = self.ch.weighted([(3, 'gone'), (4, 'good'), (1, 'torn'), (1, 'invalid'),
                                     (1, 'encoding'), (1, 'latin')])
            path = ZIP + '/' + name
            self.n += 1
            if kind != 'gone':
                z.writestr('zpkg/' + name, content(kind, self.n))
                if torn is None and self.ch.chance(1, 5):
                    torn, kind = 'zpkg/' + name, 'corrupt'
            self.timeline[path] = [(self.tick(), kind, self.n)]
        z.close()
        data = bytearray(buf.getvalue())
        if torn:
            i = data.index(torn.encode()) + len(torn)
            data[i + 30] ^= 0xff        # (members are stored: the checksum fails)
        self.fs.put('/sim/z.zip', bytes(data))
        # fill the directories of the package, and their own files
        return zipfile.ZipFile(builtin_open('/sim/z.zip', 'rb'))

    def candidates(self, entry, name):
        """The file a search path entry would hold under that name, if any."""
        d = entry[1]
        if d is None:
            return None
        if d == 'REAL':
            return 'REAL' if name == 'mide_manifest.xml' else None
        return d + '/' + name

    # -- operations ------------------------------------------------------------
    def begin(self, r):
        r.before = [p for p, _ in r.paths]
        self.given = None
        r.inv = self.tick()
        self.active.append(r)
        self.w.log(r)

    def end(self, r):
        r.res = self.tick()
        self.active.remove(r)

    def do_list(self, who, paths, default, relative, printed):
        w, core, ch = self.w, self.core, self.ch
        r = Rec(who, 'print' if printed else 'list', paths, relative=relative)
        args = [p for p, _ in paths]
        if relative:
            w.probe('relative')
        if printed:
            extra = args[:len(args) - len(core.SCHEMA_PATH)]
            given = list(extra)
            out = io.StringIO()
            call = lambda: self.util.printSchemata(given if given else None, out, not relative)
        elif default:
            call = lambda: core.listSchemata(absolute=not relative)
        else:
            call = lambda: core.listSchemata(*args, absolute=not relative)
        self.begin(r)
        try:
            got = call()
        except (Violation, Cancelled):
            raise
        except BaseException as e:
            if not isinstance(e, (Exception, Interrupt)):
                raise
            self.end(r)
            r.err = e
            self.interrupted(e)
            self.judge_error(r)
            return None
        self.end(r)
        if printed:
            if given != extra:
                raise Violation('arguments-modified', '%r: paths %r became %r' % (
                    r, extra, given))
            got = {}
            for line in out.getvalue().splitlines():
                if line.startswith('    '):
                    got[key].append(line[4:])
                else:
                    key = line
                    if key in got:
                        raise Violation('wrong-listing', '%r repeats %r' % (r, key))
                    got[key] = []
            w.probe('printed')
        self.unmodified(r)
        r.got = {k: [self.file_of(r, v) for v in vs] for k, vs in got.items()}
        if not printed and ch.chance(1, 4):
            got.clear()              # the caller's to do with as it likes
        w.log(who, 'listed', r.got)
        self.judge_list(r)
        return r

    def interrupted(self, e):
        if isinstance(e, Interrupt) and self.s:
            self.s.rearm()

    def file_of(self, r, v):
        s = str(v)
        for a, b in (('{simpkg}', '/sim/pkg'), ('{simzip}', ZIP)):
            if s.startswith(a):
                return os.path.normpath(b + s[len(a):])
        if s.startswith('{ebmlite.schemata}') or s.startswith(self.shipped):
            return 'REAL'
        p = self.fs.resolve(s)
        if p is None:
            raise Violation('wrong-listing', '%r lists %r' % (r, s))
        if p.startswith('/sim/z.zip/'):
            return p
        return p

    def unmodified(self, r):
        if self.core.SCHEMA_PATH is not self.path_object or self.core.SCHEMA_PATH != self.path:
            raise Violation('search-path-modified', 'after %r: %r' % (r, self.core.SCHEMA_PATH))

    def note_fault(self, path):
        for r in self.active:
            r.faulted.add(path)

    def judge_error(self, r):
        e = r.err
        self.unmodified(r)
        if isinstance(e, Interrupt):
            return
        if injected(e) and r.kind != 'load' and self.dirfault(r):
            self.w.probe('listing raised injected')
            return
        raise Violation('listing-failed', '%r raised %s: %s' % (r, type(e).__name__, e))

    def dirfault(self, r):
        """Did listing or looking at a directory fail?"""
        return any(f.startswith('dir:') for f in r.faulted)

    def hit(self, r, path):
        if path == 'REAL':
            return False
        return (path in r.faulted or 'dir:' + os.path.dirname(path) in r.faulted
                or (path.startswith(ZIP) and '/sim/z.zip' in r.faulted))

    def judge_list(self, r):
        names = {n for _, d in r.paths if d for n in
                 (os.listdir(self.shipped) if d == 'REAL' else NAMES)}
        for k in r.got:
            if not k.lower().endswith('.xml'):
                raise Violation('wrong-listing', '%r lists %r' % (r, k))
        for name in sorted(names | set(r.got)):
            if not name.lower().endswith('.xml'):
                continue
            have = list(r.got.get(name, []))
            want = []
            i = 0
            for entry in r.paths:
                if entry[1] == 'REAL':
                    f = 'REAL' if name in os.listdir(self.shipped) else None
                    sts = [('good', -1)] if f else []
                else:
                    f = self.candidates(entry, name)
                    sts = self.states(f, r.inv, r.res) if f else []
                ok = [s[0] in GOOD + ('invalid',) for s in sts]
                if not any(ok):
                    continue
                must = all(ok) and not self.hit(r, f)
                want.append((f, 'must' if must else 'may'))
                if i < len(have) and have[i] == f:
                    i += 1
                elif must:
                    raise Violation('not-listed', '%r: %s missing from %r: %r' % (
                        r, f, name, have))
            if i != len(have):
                raise Violation('wrong-listing', '%r: %r lists %r, expected %r' % (
                    r, name, have, want))
            if len(have) > 1:
                self.w.probe('shadowed')

    def do_load(self, who, paths, default, name, quiet=False):
        w, core, ch = self.w, self.core, self.ch
        r = Rec(who, 'load', paths, name)
        given = [p for p, _ in paths]
        mine = list(given)
        self.begin(r)
        try:
            if default:
                got = core.loadSchema(name, reload=True)
            else:
                got = core.loadSchema(name, reload=True, paths=given)
        except (Violation, Cancelled):
            raise
        except BaseException as e:
            if not isinstance(e, (Exception, Interrupt)):
                raise
            got, r.err = None, e
            self.interrupted(e)
            w.probe('load failed')
        self.end(r)
        self.unmodified(r)
        if given != mine:
            raise Violation('arguments-modified', '%r: paths %r became %r' % (r, mine, given))
        # where it could have been found
        cands = ['/sim/cwd/' + name] + [self.candidates(e, name) for e in paths]
        cands = [c for c in cands if c]
        w.log(who, 'loaded', got.name if got is not None else type(r.err).__name__)
        possible, bad = [], False
        for f in cands:
            sts = [('good', -1)] if f == 'REAL' else self.states(f, r.inv, r.res)
            there = [s for s in sts if s[0] not in ('gone', 'dir')]
            possible += [(f, s) for s in there]
            if len(there) == len(sts) and 'stat:' + f not in r.faulted:
                break                # (a failing stat reads as no such file)
        else:
            bad = True               # it may not exist anywhere
        loadable = [(f, s) for f, s in possible if s[0] in GOOD]
        if r.err is not None:
            if injected(r.err) or bad or r.faulted or any(
                    s[0] not in GOOD for f, s in possible):
                if possible and not bad and len(loadable) < len(possible):
                    w.probe('bad file shadows')
                return None
            # (a file may also be replaced between being found and opened)
            if len(possible) > 1 and self.changed_during(r):
                return None
            raise Violation('load-failed', '%r raised %s: %s, though %r' % (
                r, type(r.err).__name__, r.err, possible))
        w.probe('loaded')
        for f, s in loadable:
            if f == 'REAL':
                if got.name == 'mide':
                    return f
            elif got.name == 'doc%d%s' % (s[1], suffix(s[0])):
                return f
        raise Violation('wrong-file-loaded', '%r loaded %r from %s, expected one of %r' % (
            r, got.name, got.source if hasattr(got, 'source') else '?', loadable))

    def changed_during(self, r):
        return any(r.inv <= t <= r.res for h in self.timeline.values() for t, _, _ in h)

    def op(self, who):
        ch = self.ch
        k = ch.weighted([(4, 'list'), (3, 'load'), (1, 'print'), (3, 'change')])
        if k == 'change':
            return self.change()
        default = ch.chance(1, 2)
        paths = self.default if default else self.some_path()
        self.w.mark(k, default, [str(p) for p, _ in paths])
        if k == 'list':
            self.do_list(who, paths, default, ch.chance(1, 4), False)
        elif k == 'print':
            extra = [] if default else paths
            self.do_list(who, extra + self.default, default, ch.chance(1, 4), True)
        else:
            self.do_load(who, paths, default, ch.pick(NAMES))

    def some_path(self):
        ch, w = self.ch, self.w
        out = []
        for _ in range(ch.between(1, 5)):
            p, d = ch.pick(ENTRIES)
            if p in ('MODULE', 'ZIPMODULE'):
                p = self.mod if p == 'MODULE' else self.zipmod
                w.probe('module instance')
            if d == ZIP:
                w.probe('zipped')
            elif d is None:
                w.probe('missing module' if '{' in str(p) else 'missing directory')
            elif '{' in str(p):
                w.probe('subdirectory of package' if '/' in str(p) else 'package')
            if any(d and d == e for _, e in out):
                w.probe('duplicate path')
            out.append((p, d))
        return out


builtin_open = open


class ZipLoader:
    def __init__(self, path):
        self.path = path

    def get_resource_reader(self, name):
        return self

    def files(self):
        return self.path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        pass


def make_module(name, loader, where):
    m = types.ModuleType(name)
    m.__spec__ = importlib.machinery.ModuleSpec(name, loader, origin=where + '/__init__.py',
                                                is_package=True)
    m.__spec__.submodule_search_locations.append(where)
    m.__path__ = [where]
    m.__file__ = where + '/__init__.py'
    m.__loader__ = loader
    sys.modules[name] = m
    return m


def run(world):
    global builtin_open
    ch = world.ch
    L = lib()
    x = Run(world)
    core = x.core = L['core']
    x.util = L['util']
    start = ch.pick(['given', 'given', 'given', 'two', 'two', 'imported', 'imported', 'environ'])
    more = [ch.pick(ENVIRON) for _ in range(ch.between(1, 5))] if start == 'environ' else []
    fresh = imported_with(os.pathsep.join(more)) if more else IMPORTED
    fs = x.fs = SimFS(world)
    x.shipped = os.path.join(os.path.dirname(os.path.realpath(core.__file__)), 'schemata')
    fs.install(cwd='/sim/cwd')
    builtin_open = io.open
    for d in DIRS:
        fs.mkdir(d)
    core.SCHEMATA.clear()
    zf = x.make_zip()
    x.mod = make_module('simpkg', importlib.machinery.SourceFileLoader(
        'simpkg', '/sim/pkg/__init__.py'), '/sim/pkg')
    x.zipmod = make_module('simzip', ZipLoader(zipfile.Path(zf, 'zpkg/')), ZIP)
    for d in sorted(DIRS):
        for name in NAMES:
            if ch.chance(1, 2):
                kind = ch.weighted(KINDS + [(1, 'dir')])
                x.set_file(d + '/' + name, kind)
        if ch.chance(1, 3):
            fs.put(d + '/notes.txt', b'<Schema/>')
            fs.put(d + '/x.xml.bak', b'<Schema/>')
            fs.put(d + '/xml', b'<Schema/>')
    if start == 'given':
        core.SCHEMA_PATH[:] = [p for p, _ in x.some_path()]
        back = {id(x.mod): '/sim/pkg', id(x.zipmod): ZIP}
        table = {str(p): d for p, d in ENTRIES}
        x.default = [(p, back[id(p)] if id(p) in back else table[str(p)])
                     for p in core.SCHEMA_PATH]
    elif start == 'two':
        core.SCHEMA_PATH[:] = ['', '{ebmlite.schemata}']
        x.default = [('', '/sim/cwd'), ('{ebmlite.schemata}', 'REAL')]
    else:
        # as imported: the current directory, the shipped schemata, and those of the environment
        world.probe('search path ' + ('of the environment' if more else 'as imported'))
        core.SCHEMA_PATH[:] = fresh
        table = {str(p): d for p, d in ENTRIES}
        table[x.shipped] = 'REAL'
        x.default = [(p, table[str(p)]) for p in fresh if str(p) in table]
        want = list(dict.fromkeys(['', x.shipped] + more))
        if len(x.default) != len(fresh) or list(dict.fromkeys(str(p) for p in fresh)) != want:
            raise Violation('search-path-wrong', 'imported with %r: %r' % (more, fresh))
    x.path_object, x.path = core.SCHEMA_PATH, list(core.SCHEMA_PATH)
    n = ch.pick([1, 1, 2, 3])
    s = x.s = Scheduler(world, mean_gap=ch.pick([5, 20, 60, 200, WILD, WILD]), opcodes=ch.chance(1, 8))
    s.interrupts = not s.opcodes
    busy = ch.pick([0, 3, 12, 40])

    def between(path):
        if busy and ch.below(busy) == 0:
            x.change()
        s.preempt('fs')

    fs.hook = lambda what, raw: between(None)
    fs.hook_all = True
    fs.on_open = lambda path, mode: between(path)
    fs.on_stat = between
    real_fault = fs.fault

    def fault(kind, errnos, path):
        try:
            real_fault(kind, errnos, path)
        except OSError:
            if kind == 'stat_error':
                x.note_fault('stat:' + path)
            # (a failing look at one file is no excuse for not listing a directory)
            for r in x.active:
                if kind == 'list_error' or kind == 'stat_error' and (
                        path not in fs.files or path in [str(p) for p, _ in r.paths]):
                    r.faulted.add('dir:' + path)
            x.note_fault(path)
            raise
    fs.fault = fault
    if ch.chance(1, 2):
        for kind, mean in (('open_error', 5), ('fread_error', 8), ('interrupt at a call', 60),
                           ('stat_error', 15), ('list_error', 10), ('fclose_error', 6)):
            if ch.chance(1, 3):
                world.plan(kind, ch.pick([mean, mean * 5]), most=2)
    world.case = '%d threads on %s' % (n, x.path)

    def body(i):
        for _ in ch.repeat(5, mean=3):
            x.op('T%d' % i)

    for i in range(n):
        s.start(s.spawn('T%d' % i, (lambda i=i: body(i))))
    s.run()
    world.unplan()
    s.interrupts = False
    x.s = None
    busy = 0
    world.nontrivial += x.changes
    # all quiet: listing and lookup agree with the model, and with each other
    core.SCHEMATA.clear()
    for default in (True, False):
        paths = x.default if default else x.some_path()
        r = x.do_list('main', paths, default, False, False)
        q = x.do_list('main', paths, default, True, False)
        if r.got != q.got:
            raise Violation('wrong-listing', 'relative %r, absolute %r' % (q.got, r.got))
        for name in NAMES:
            f = x.do_load('main', paths, default, name)
            first = r.got.get(name, [None])[0]
            if f is not None and paths[0][1] == '/sim/cwd' and f != first:
                raise Violation('listing-disagrees', '%r: loaded %s, listed %r' % (
                    r, f, r.got.get(name)))
    x.do_list('main', x.default, True, False, True)
    observe.freeze(None)

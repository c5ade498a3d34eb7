"""C14: the command-line tools never clobber unasked and never report a
failure as success."""
import io
import os
import re
import sys
from xml.etree import ElementTree as ET

from .. import model, observe
from ..observe import lib
from ..simfs import SimFS
from ..world import SimCrash, Violation, injected

RUNS = {'quick': 12000, 'thorough': 600000}
RULE = ('each run: one tool with drawn options on good, damaged, malformed or missing inputs and '
        'schemata and an output that is absent, present, a directory, in no directory, or the '
        'input itself, first without faults, then one to three times with failing opens, reads, '
        'seeks, writes, short and torn writes, closes, stats, a failing or closed console, and '
        'another process creating the output at any file-system operation; exit status, output '
        'and every other file are compared with the fault-free run and the model; non-trivial = a '
        'fault or a race happened; distinct by tool, options, inputs and faults')
REAL = ['ebmlite.tools (main of every tool)', 'ebmlite.util', 'ebmlite.core', 'argparse',
        'xml.etree', 'xml.dom.minidom', 'io buffering and text layers']
STUB = ['file system under io buffering', 'console', 'process exit']
ASSUMPTIONS = ['another process creates the output with an exclusive open',
               'the size of the document as a whole may go unreported if the file cannot be examined',
               'files left out of a listing (C16) do not make it incomplete']
PROBES = ('ebml2xml', 'xml2ebml', 'view_ebml', 'list_schemata', 'to console', 'clobbered',
          'refused existing', 'raced', 'raced after creation', 'output is input',
          'output is schema', 'bad input', 'bad schema', 'failed', 'succeeded',
          'succeeded despite fault', 'console failed', 'crashed', 'default schema directory')

CWD, S, D = '/sim/cwd', '/sim/s', '/sim/d'
FAULTS = ('open_error', 'fread_error', 'fseek_error', 'fwrite_error', 'fwrite_partial',
          'fwrite_short', 'fclose_error', 'stat_error', 'list_error', 'console_error', 'crash',
          'fs_interrupt')
TOOLS = {}


def setup():
    lib()
    import ebmlite.tools.utils             # noqa: F401
    import ebmlite.tools.ebml2xml as a
    import ebmlite.tools.xml2ebml as b
    import ebmlite.tools.view_ebml as c
    import ebmlite.tools.list_schemata as d
    TOOLS.update(ebml2xml=a, xml2ebml=b, view_ebml=c, list_schemata=d)


class ConsoleRaw(io.RawIOBase):
    """Standard output under simulator control: a pipe."""

    def __init__(self, world):
        self.world = world
        self.data = bytearray()

    def writable(self):
        return True

    def readable(self):
        return False

    def write(self, b):
        w = self.world
        b = bytes(b)
        if w.plans and w.due('console_error'):
            w.fired('console_error')
            k = w.ch.below(len(b) + 1)
            self.data += b[:k]
            raise w.oserror([32, 28, 5], 'stdout')
        w.log('console', len(b))
        self.data += b
        return len(b)


class Result:
    pass


def invoke(world, fs, tool, argv, encoding='utf-8'):
    """Run one tool as a process would: (exit status, console bytes)."""
    L = lib()
    L['core'].SCHEMATA.clear()
    raw = ConsoleRaw(world)
    out = io.TextIOWrapper(io.BufferedWriter(raw), encoding=encoding, newline='\n')
    err = io.StringIO()
    saved = sys.stdout, sys.stderr, sys.argv, sys.stdin
    sys.stdout, sys.stderr, sys.argv = out, err, [tool] + argv
    sys.stdin = io.StringIO()
    r = Result()
    r.exc = None
    try:
        try:
            # (parsed-in default arguments refer to the console of import time)
            m = TOOLS[tool]
            m.main()
            r.status = 0
        except SystemExit as e:
            r.exc = e
            r.status = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
        except SimCrash as e:
            world.probe('crashed')
            r.exc, r.status = e, 'crashed'
        except Violation:
            raise
        except BaseException as e:
            r.exc, r.status = e, 1
        if r.status != 'crashed':
            try:
                out.flush()              # as the interpreter does when it ends
            except BaseException as e:
                r.exc = e
                if r.status == 0:
                    r.status = 120
    finally:
        sys.stdout, sys.stderr, sys.argv, sys.stdin = saved
    r.console = bytes(raw.data)
    r.stderr = err.getvalue()
    try:
        out.detach().detach()
    except Exception:
        pass
    world.log(tool, 'exit', r.status, type(r.exc).__name__, len(r.console))
    return r


# -- what the output must be --------------------------------------------------

def judge_xml(text, doc, m, full, codec, where):
    """The XML a conversion made of a good document."""
    try:
        root = ET.fromstring(text)
    except ET.ParseError as e:
        raise Violation('wrong-output', '%s: not XML: %r in %r' % (where, e, text[:200]))
    want = doc.roots

    def cmp(xs, ns):
        if [x.tag for x in xs] != [xml_name(n) for n in ns]:
            raise Violation('wrong-output', '%s: elements %r, expected %r' % (
                where, [x.tag for x in xs], ns[:8]))
        for x, n in zip(xs, ns):
            if n.is_master:
                cmp(list(x), n.children)
                continue
            if full and (int(x.get('offset')) != n.offset or int(x.get('size')) != n.size):
                raise Violation('wrong-output', '%s: %r has %r' % (where, n, x.attrib))
            if n.kind in ('bin', 'unknown'):
                if codec != 'ignore' and decoded(codec, x.text) != n.payload:
                    raise Violation('wrong-output', '%s: %r has text %r' % (where, n, x.text))
            elif n.kind in ('uint', 'int'):
                if int(x.get('value')) != model.leaf_value(n.kind, n.payload):
                    raise Violation('wrong-output', '%s: %r has %r' % (where, n, x.attrib))
            elif n.kind == 'float':
                a, b = float(x.get('value')), model.leaf_value(n.kind, n.payload)
                if not (a == b or (a != a and b != b)):
                    raise Violation('wrong-output', '%s: %r has %r' % (where, n, x.attrib))
            elif n.kind in ('str', 'utf8'):
                if x.get('value') != model.leaf_value(n.kind, n.payload):
                    raise Violation('wrong-output', '%s: %r has %r' % (where, n, x.attrib))
    cmp(list(root), want)


def xml_name(n):
    return 'Void' if n.kind == 'void' else 'UnknownElement' if n.kind == 'unknown' else n.name


def decoded(codec, text):
    import base64
    text = ''.join(re.sub(r'\[\d+\]', '', text or '').split())
    return base64.b64decode(text) if codec == 'base64' else bytes.fromhex(text)


def judge_view(text, doc, where):
    lines = text.split('\n')
    got = []
    for ln in lines[2:]:
        k = re.match(r'^(\d{6,}) (\d{6,}|\s+\d+|\s*None) +(\S+) \(ID 0x([0-9A-F]+)\)', ln)
        if k is None:
            k = re.match(r'^ *(\d+) +(\d+) +(\S+) \(ID 0x([0-9A-F]+)\)', ln)
        if k:
            got.append((int(k.group(1)), int(k.group(2)), int(k.group(4), 16)))
    want = [(n.offset, n.size, n.eid) for n in model.flatten(doc.roots)]
    if got != want:
        raise Violation('wrong-output', '%s: lines for %r, expected %r in %r' % (
            where, got[:6], want[:6], text[:400]))


# -- the run --------------------------------------------------------------------

def run(world):
    ch = world.ch
    L = lib()
    core, util = L['core'], L['util']
    fs = SimFS(world)
    fs.install(cwd=CWD)
    fs.sorted = True
    for d in (S, CWD, D, '/sim/home', D + '/dir'):
        fs.mkdir(d)
    os.environ['HOME'] = '/sim/home'
    core.SCHEMA_PATH[:] = ['', S] if ch.chance(1, 2) else ['', S, '{ebmlite.schemata}']
    if len(core.SCHEMA_PATH) == 3:
        world.probe('default schema directory')
    m = model.gen_schema(ch, deep=ch.chance(1, 2))
    sxml = model.schema_xml(m)
    schema = observe.load_model_schema(m)
    # -- files ---------------------------------------------------------------
    fs.put(S + '/sim.xml', sxml.encode())
    fs.put(S + '/torn.xml', sxml[:len(sxml) // 2].encode())
    fs.put(S + '/none.xml', b'')
    fs.put(S + '/bad.xml', sxml.replace('id="0x1A45DFA3"', 'id="zz"', 1).encode())
    doc = model.gen_document(ch, m, model.DocSpec(ch, unknown_size=ch.pick([0, 0, 10]),
                                                  big=ch.chance(1, 8)))
    readable = not observe.has_unreadable(doc.roots)
    data = doc.data
    fs.put(D + '/good.ebml', data)
    fs.put(D + '/torn.ebml', data[:ch.below(len(data) + 1)])
    fs.put(D + '/none.ebml', b'')
    fs.put(D + '/junk.ebml', b'\0\0\0' + data)
    root = None
    back = None
    if readable:
        root = util.toXml(schema.loads(data))
        root = util.toXml(schema.load(io.BytesIO(data), headers=True))
        try:
            text = ET.tostring(root, encoding='us-ascii')
            ET.fromstring(text)
            buf = io.BytesIO()
            util.xml2ebml(ET.fromstring(text), buf, schema)
            back = buf.getvalue()
        except Exception:        # (what XML can hold is C10's subject)
            text = None
        if text is not None:
            fs.put(D + '/good.xml', text)
            fs.put(D + '/torn.xml', text[:len(text) * 2 // 3])
            end = text.rfind(b'</')
            if end > 0:
                fs.put(D + '/name.xml', text[:end] + b'<NoSuch value="1"/>' + text[end:])
    fs.put(D + '/none.xml', b'')
    fs.put(D + '/wrong.xml', b'<Wrong/>')

    # -- the command line ------------------------------------------------------
    tool = ch.pick(['ebml2xml', 'xml2ebml', 'view_ebml', 'list_schemata'])
    world.probe(tool)
    argv, src, codec = [], None, 'ignore'
    sname = ch.weighted([(6, 'sim'), (2, 'sim.xml'), (2, S + '/sim.xml'), (1, 'torn'), (1, 'bad'),
                         (1, 'none'), (1, 'missing')])
    if tool != 'list_schemata':
        ext = '.xml' if tool == 'xml2ebml' else '.ebml'
        iname = ch.weighted([(8, 'good'), (1, 'torn'), (1, 'none'), (1, 'missing'),
                             (1, 'junk'), (1, 'wrong'), (1, 'name')])
        src = D + '/' + iname + ext
        good = src in fs.files and iname == 'good' and 'sim' in sname
        if iname != 'good':
            world.probe('bad input')
        if 'sim' not in sname:
            world.probe('bad schema')
        argv += [ch.pick([src, os.path.relpath(src, CWD)]), sname]
        if tool == 'view_ebml':
            codec = ch.pick(['ignore', 'base64', 'hex'])
            if codec != 'ignore' or ch.chance(1, 2):
                argv += [ch.pick(['-e', '--encoding']), codec]
        if tool == 'ebml2xml':
            codec = ch.pick(['base64', 'hex', 'ignore', 'base64'])
            if codec != 'base64' or ch.chance(1, 2):
                argv += ['-e', codec]
            argv += ch.pick([[], ['--single'], ['-s']])
            argv += ch.pick([[], ['--max'], ['-m']])
    else:
        good = True
        argv += ch.pick([[], [S], [S, D], ['/sim/nowhere']])
        argv += ch.pick([[], ['--relative']])
    clobber = False
    dest = ch.weighted([(8, D + '/out'), (3, None), (1, '/sim/nowhere/out'), (1, D + '/dir'),
                        (1, 'input'), (1, 'schema')])
    if dest == 'input':
        dest = src if tool != 'list_schemata' else None
        if dest in fs.files:
            world.probe('output is input')
    elif dest == 'schema':
        dest = S + '/sim.xml' if tool != 'list_schemata' else None
        world.probe('output is schema')
    if dest:
        argv += [ch.pick(['-o', '--output']),
                 ch.pick([dest, os.path.relpath(dest, CWD), D + '/dir/../' + dest[len(D) + 1:]])
                 if dest.startswith(D) else dest]
        if tool != 'list_schemata':
            clobber = ch.chance(1, 2)
            if clobber:
                argv += [ch.pick(['-c', '--clobber'])]
    else:
        world.probe('to console')
    if dest == D + '/out' and ch.chance(1, 2):
        fs.put(dest, ch.pick([b'', b'precious', b'x' * 20000]))
    encoding = ch.weighted([(6, 'utf-8'), (1, 'ascii'), (1, 'latin-1')])
    world.case = '%s %s; output %s, %d bytes document' % (
        tool, ' '.join(argv), 'exists' if dest in fs.files else 'absent', len(data))
    world.mark(tool, argv, dest in fs.files, encoding, len(data), iname if src else '')
    image = {p: bytes(n.data) for p, n in fs.files.items()}

    def restore():
        for p in list(fs.files):
            if p not in image:
                del fs.files[p]
        for p, b in image.items():
            fs.put(p, b)
        fs.frozen = False

    def output(r):
        return fs.get(dest) if dest else r.console

    def judge(r, expected, race):
        """The parts that hold for every run."""
        after = {p: bytes(n.data) for p, n in fs.files.items()}
        for p, b in image.items():
            if p == dest and (clobber or tool == 'list_schemata') \
                    and p not in (src, S + '/sim.xml'):
                continue
            if after.get(p) != b:
                raise Violation('altered', '%s (%s): %s was %d bytes, is %r; exit %r (%r)' % (
                    world.case, 'no clobber' if not clobber else 'clobber', p, len(b),
                    after.get(p, b'gone')[:60], r.status, r.exc))
        if race and race.get('made') and not clobber and tool != 'list_schemata':
            if after.get(dest) != b'another process':
                raise Violation('altered-race', '%s: the file another process created is %r; '
                                'exit %r' % (world.case, after.get(dest, b'gone')[:60], r.status))
        if r.status == 0:
            got = output(r)
            if got is None:
                raise Violation('no-output', '%s: exit 0 without output' % world.case)
            if expected is not None and got != expected:
                k = next((i for i, (a, b) in enumerate(zip(got, expected)) if a != b),
                         min(len(got), len(expected)))
                raise Violation('incomplete', '%s: exit 0 but output differs at %d of %d/%d: '
                                '%r, complete is %r' % (world.case, k, len(got), len(expected),
                                                        got[max(0, k - 30):k + 30],
                                                        expected[max(0, k - 30):k + 30]))

    # -- without faults ---------------------------------------------------------
    r = invoke(world, fs, tool, argv, encoding)
    judge(r, None, None)
    exists = dest in image or dest == D + '/dir' or (dest or '').startswith('/sim/nowhere')
    if exists and not (dest in image and (clobber or tool == 'list_schemata')
                       and dest not in (src, S + '/sim.xml')):
        if r.status == 0:
            raise Violation('false-success', '%s: exit 0' % world.case)
        world.probe('refused existing')
        expected = None
        must_fail = True
    else:
        must_fail = False
        if dest in image:
            world.probe('clobbered')
        if r.status == 0:
            expected = output(r)
            world.probe('succeeded')
            if good and tool != 'list_schemata':
                check_output(tool, argv, expected, doc, m, back, codec,
                             encoding if not dest else 'utf-8')
            elif tool == 'list_schemata':
                text = expected.decode()
                if S + '/sim.xml' not in text and '/sim.xml' not in text:
                    raise Violation('wrong-output', 'listing %r' % text[-300:])
            elif 'sim' not in sname or iname in ('missing', 'wrong') or (
                    tool == 'xml2ebml' and iname in ('none', 'torn', 'name', 'junk')):
                raise Violation('false-success', '%s: exit 0' % world.case)
        else:
            expected = None
            plain = encoding == 'utf-8' or dest
            if good and readable and plain and (tool != 'ebml2xml' or back is not None):
                raise Violation('failed', '%s: exit %r, %r, %s' % (
                    world.case, r.status, r.exc, r.stderr[:200]))
            world.probe('failed')
            must_fail = True
    # -- with them ------------------------------------------------------------------
    for _ in range(ch.between(1, 3)):
        restore()
        race = {}
        if dest == D + '/out' and dest not in image and ch.chance(1, 2):
            race['at'] = 1 + ch.below(ch.pick([8, 20, 60]))
            race['n'] = 0

            def tick(*_a):
                race['n'] += 1
                if race['n'] == race['at']:
                    if dest in fs.files:
                        world.probe('raced after creation')
                        return
                    fs.put(dest, b'another process')
                    world.log('another process creates', dest)
                    race['made'] = True
                    world.probe('raced')
                    world.nontrivial += 1
                    world.mark('race', race['n'])
            fs.on_open = fs.on_stat = fs.hook = tick
            fs.hook_all = True
        if not race or ch.chance(1, 3):
            for k in FAULTS:
                if ch.chance(1, 5):
                    world.plan(k, ch.pick([1, 3, 8, 30, 100]), most=ch.pick([1, 1, 3]))
        before = dict(world.faults)
        del fs.stat_failed[:]
        del fs.handles[:]
        r = invoke(world, fs, tool, argv, encoding)
        world.unplan()
        fs.on_open = fs.on_stat = fs.hook = None
        fired = {k: v - before.get(k, 0) for k, v in world.faults.items()
                 if v != before.get(k, 0)}
        unheard = expected
        if tool == 'list_schemata' and r.status == 0 and set(fired) & {
                'open_error', 'fread_error', 'fseek_error', 'fclose_error', 'stat_error'}:
            unheard = None           # a listing leaves out what it cannot read
        if tool in ('view_ebml', 'ebml2xml') and src in fs.stat_failed:
            unheard = None           # the size of the whole document is then another
        judge(r, unheard, race)
        if r.status == 0:
            if must_fail:
                raise Violation('false-success', '%s: exit 0 with %r' % (world.case, fired))
            if 'fwrite_error' in fired or 'fwrite_partial' in fired or 'console_error' in fired:
                raise Violation('false-success', '%s: exit 0 after %r' % (world.case, fired))
            if any(h.close_failed and h._w and h.path == dest for h in fs.handles):
                raise Violation('false-success', '%s: exit 0 after %r' % (world.case, fired))
            if fired:
                world.probe('succeeded despite fault')
        elif fired:
            world.probe('console failed' if 'console_error' in fired else 'failed')


def check_output(tool, argv, out, doc, m, back, codec, encoding):
    where = ' '.join([tool] + argv)
    if tool == 'xml2ebml':
        if out != back:
            raise Violation('wrong-output', '%s: %d bytes, expected %d' % (
                where, len(out), len(back)))
    elif tool == 'ebml2xml':
        judge_xml(out, doc, m, '--max' in argv or '-m' in argv, codec, where)
    elif codec == 'ignore':
        judge_view(out.decode(encoding), doc, where)

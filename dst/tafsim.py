"""Workload and per-thread reference model for ThreadAwareFile (C01, C02)."""
from .observe import lib
from .simfs import SimFS
from .simthreads import Op, Scheduler, WILD
from .world import Interrupt, Violation, injected

PATH = '/sim/d/data.bin'
HOUSEKEEPING = ('close', 'closeAll', 'cleanup', 'with')


def gen_content(ch):
    n = ch.pick([0, 1, 40, 200, 3000])
    lines = b''
    while len(lines) < n:
        lines += ch.data(ch.below(30)).replace(b'\n', b' ') + b'\n'
    return lines[:n]


class View:
    """What one thread must see of one file: a private position."""

    def __init__(self, data):
        self.data = data
        self.state = 'none'      # none, open, closed (reopen or ValueError), unsure
        self.pos = 0             # None: unknown after an injected error
        self.raw = None          # the simulated file backing it, once known
        self.created = False     # the current operation opened it
        self.forgotten = False   # closed and cleaned up: must reopen
        self.opserial = 0        # odd while an operation is in progress
        self.born = -1           # operation that opened `raw`

    def lines_from(self, pos):
        end = self.data.find(b'\n', pos)
        return self.data[pos:] if end < 0 else self.data[pos:end + 1]


class Sim:
    """One ThreadAwareFile shared by simulated threads."""

    def __init__(self, world, close_all=False, faults=(), nthreads=None):
        ch = world.ch
        self.world = world
        self.ch = ch
        self.T = lib()['threaded'].ThreadAwareFile
        self.fs = SimFS(world)
        self.fs.install(cwd='/sim/cwd')
        self.content = gen_content(ch)
        self.fs.put(PATH, self.content)
        self.node = self.fs.files[PATH]
        self.other = self.content[::-1]      # what may replace it
        self.moved = 0           # bumped when the path is removed or replaced
        self.gone = []           # [(moved, absent?)]
        self.close_all = close_all
        gap = ch.pick([3, 1, 2, 6, 12, 30, 100, WILD, WILD, WILD])
        self.sched = Scheduler(world, mean_gap=gap, opcodes=ch.chance(1, 4))
        self.sched.exit_hooks = [self.thread_exit]
        self.fs.hook = self.io_hook
        self.fs.on_created = self.created
        self.timeout = ch.pick([60.0, 1.0, 0.05, None, 0])
        if self.timeout is None:
            self.timeout = 60.0
            self.default_timeout = True
        else:
            self.default_timeout = False
        self.pending = []
        self.views = {}
        self.owner = {}          # id(raw) -> thread name
        self.hk = {}             # thread -> housekeeping op in progress
        self.hk_seq = 0          # bumped whenever housekeeping starts or ends
        self.ca_seq = 0          # bumped whenever a closeAll starts or ends
        self.over = False
        self.closing = set()     # files somebody has begun to close
        world.mark(gap, self.sched.opcodes, self.timeout)

    # -- simulated I/O ---------------------------------------------------------
    def io_hook(self, what, raw):
        s = self.sched
        t = s.me()
        if t is None or s.masked:
            return
        if what in ('opened', 'readdone', 'closed'):
            s.preempt('io.' + what)
            return
        w = self.world
        if what == 'close' and raw is not None:
            self.check_close(t, raw)
            self.closing.add(raw.serial)
        if w.plans and w.due('stall'):
            w.fired('stall in ' + what)
            s.delay(w.ch.pick([10, 1000, 10 ** 6, 61 * 10 ** 6, 200 * 10 ** 6]))
        own = raw is None or self.owner.get(raw.serial) in (None, t) \
            or (t.op == 'closeAll' and self.owner[raw.serial].is_alive())
        # (an interrupted close of an ended thread's file is finished by the
        # garbage collector, which the handle table here cannot see)
        if w.plans and what in ('close', 'read', 'open') and own and w.due('interrupt'):
            w.fired('interrupt in ' + what)
            if what == 'close':
                self.closing.discard(raw.serial)
            raise Interrupt('injected')
        s.preempt('io.' + what)

    def check_close(self, t, raw):
        """A raw file is being closed: by whom, and may it be?"""
        op = t.op or ''
        owner = self.owner.get(raw.serial)
        if raw.gc and self.close_all and owner is not None and owner.is_alive() \
                and self.views[owner.name].raw is raw:
            raise Violation('stream-lost', 'the open stream of %s was dropped during %s by %s' % (
                owner.name, op, t.name))
        if op.startswith('closeAll'):
            return
        if owner is None or owner is t:
            if op in ('close', 'with'):
                return
            if raw.gc and not (self.close_all and owner is t):
                return
            if owner is t and raw is not getattr(self.view(t), 'raw', None):
                return
            raise Violation('closed-by-other', '%s closed its own stream during %s' % (t.name, op))
        if owner.state == 'done':
            return                       # a finished thread's leftover
        raise Violation('closed-by-other', '%s closed the stream of %s during %s' % (
            t.name, owner.name, op))

    def created(self, raw):
        t = self.sched.me()
        if t is not None:
            self.owner[raw.serial] = t
            v = self.view(t)
            v.raw = raw
            v.created, v.forgotten = True, False
            v.data = bytes(raw.inode.data)
            v.born = v.opserial

    # -- threads -----------------------------------------------------------------
    def view(self, t):
        v = self.views.get(t.name)
        if v is None:
            v = self.views[t.name] = View(self.content)
        return v

    def thread_exit(self, t):
        if self.pending and not [x for x in self.sched.threads if x.is_alive()]:
            self.start_pending()

    def start_pending(self):
        if self.pending:
            self.sched.start(self.pending.pop(0))

    # -- one operation -----------------------------------------------------------
    def op(self, t, name, call, check, retry=None):
        """Run call() as thread t; check(result or exception)."""
        w, s = self.world, self.sched
        v = self.view(t)
        seq = self.hk_seq
        busy = bool([x for x in self.hk if x is not t])
        hk = name in HOUSEKEEPING
        if hk:
            self.hk[t] = name
            self.hk_seq += 1
            seq = self.hk_seq
        exc = result = None
        v.opserial += 1
        v.created = False
        absent = PATH not in self.fs.files
        moved = self.moved
        if self.close_all:
            self.sync(v)
        if name == 'closeAll':
            self.ca_seq += 1
        ca = self.ca_seq
        ca_busy = 'closeAll' in self.hk.values()
        w.log(t.name, 'begin', name, v.state, v.pos)
        opened_at_start = self.settled()
        with Op(s, t, name) as o:
            try:
                result = call()
            except (OSError, ValueError, KeyError, RuntimeError, AttributeError, TypeError,
                    StopIteration, Interrupt) as e:
                exc = e
        v.opserial += 1
        if name == 'closeAll':
            self.ca_seq += 1
        if self.close_all and (ca_busy or ca != self.ca_seq):
            v.state = 'unsure'
        if hk:
            del self.hk[t]
            interfered = busy or self.hk_seq != seq
            self.hk_seq += 1
        else:
            interfered = busy or self.hk_seq != seq
        w.log(t.name, 'end', name, 'raised %s' % type(exc).__name__ if exc else
              (len(result) if isinstance(result, (bytes, list)) else result
               if isinstance(result, (int, type(None))) else '...'))
        blocked = o.elapsed - t.own_delay
        limit = int(self.timeout * 1e6)
        if name in ('close', 'with'):
            limit *= 2                   # two waits: find the stream, clean up
        if blocked > limit + 10:
            raise Violation('blocked-too-long', '%s: %s blocked %.3f s, timeout %.3f s' % (
                t.name, name, blocked / 1e6, self.timeout))
        if blocked > 0 and not interfered:
            raise Violation('blocked-without-housekeeping', '%s: %s blocked %.6f s' % (
                t.name, name, blocked / 1e6))
        if blocked > 0:
            w.probe('blocked by housekeeping')
            if blocked >= int(self.timeout * 1e6):
                w.probe('blocked for the whole timeout')
        if exc is not None and injected(exc):
            v.pos = None
            if v.state in ('none', 'closed'):
                v.state = 'unsure'       # may or may not have been opened
            w.probe('injected error surfaced')
            if name == 'closeAll':
                for x in self.views.values():
                    x.state = 'unsure'
            return 'injected', None
        if isinstance(exc, FileNotFoundError) and not v.created and (
                absent or moved != self.moved) and v.state in ('none', 'closed', 'unsure'):
            # as for a private file opened on a path that is not there
            w.probe('file not there')
            v.pos = None
            v.state = 'unsure'
            return 'injected', None
        check(result, exc, opened_at_start)
        if v.raw is not None and not v.created and v.state == 'open' and v.raw.closed \
                and not self.close_all:
            raise Violation('harness', '%s: open, but its file is closed' % t.name)
        return ('ok' if exc is None else 'raised'), result

    not_ours = ()
    owed = ()

    def settled(self):
        """Handles open now, whose opening or closing is not in progress."""
        out = []
        for h in self.fs.handles:
            if not h.closed and h not in self.not_ours and h.serial not in self.closing:
                o = self.owner.get(h.serial)
                v = self.views.get(o.name) if o is not None else None
                if v is None or v.raw is not h or v.born != v.opserial or not v.opserial & 1:
                    out.append(h)
        return out

    def sync(self, v):
        """The state follows from the handle: someone may have closed it."""
        if v.raw is None or (v.forgotten and v.raw.closed):
            v.state, v.pos = 'none', 0
        elif v.raw.closed:
            v.state, v.pos = 'closed', 0
        else:
            v.state = 'open'
            v.forgotten = False

    def fail(self, t, name, v, got, want):
        raise Violation('wrong-result', '%s: %s at position %r (%s) gave %r, a private file gives %r'
                        % (t.name, name, v.pos, v.state, got, want))

    def reader(self, t, f, name, call, expect, moves=None, keeps=False):
        """An operation that acts on the thread's own stream.
        expect(pos) -> (result, newpos)."""
        v = self.view(t)

        def check(result, exc, _opened):
            if exc is not None:
                ok_closed = v.state in ('closed', 'unsure')
                if isinstance(exc, ValueError) and ok_closed:
                    v.state = 'closed' if v.state == 'closed' else 'unsure'
                    return
                if isinstance(exc, StopIteration) and name == 'next':
                    if v.state in ('none', 'closed'):
                        v.state, v.pos = 'open', 0
                    if self.tries(v, lambda p: p >= len(v.data)):
                        return
                raise Violation('unexpected-error', '%s: %s in state %s raised %r' % (
                    t.name, name, v.state, exc))
            if keeps and v.state in ('closed', 'unsure'):
                if v.state == 'closed' or v.created:    # may have reopened the file
                    v.state, v.pos = 'unsure', 0
                return
            # candidates for the position the operation started from
            # (v.pos is None after an injected error)
            if v.created:
                cands = [0]              # it was opened just now
            elif v.state == 'unsure':
                cands = [v.pos, 0]
            else:
                cands = [v.pos]
            for p in cands:
                if p is None:
                    if moves is not None:
                        v.state, v.pos = 'open', moves(result)
                        return
                    if expect is not None:
                        v.state = 'open'
                        return
                    continue
                want, new = expect(p)
                if want == result:
                    v.state, v.pos = 'open', new
                    return
            self.fail(t, name, v, result, [expect(p)[0] for p in cands if p is not None])
        return self.op(t, name, call, check)

    def tries(self, v, ok):
        return v.pos is None or ok(v.pos) or (v.state in ('closed', 'unsure') and ok(0))


def create(sim, t=None):
    """Make the shared object undisturbed: it exists before it is shared."""
    sim.sched.masked = True
    plans, sim.world.plans = sim.world.plans, {}
    f = make_taf(sim, t)
    sim.world.plans = plans
    sim.sched.masked = False
    return f


def make_taf(sim, t=None):
    """The shared object, made in one of the ways users make it."""
    ch = sim.ch
    how = ch.weighted([(5, 'name'), (2, 'mode'), (2, 'kwmode'), (2, 'makeThreadAware')])
    kw = {} if sim.default_timeout else {'timeout': sim.timeout}
    if how == 'name':
        f = sim.T(PATH, **kw)
    elif how == 'mode':
        f = sim.T(PATH, ch.pick(['r', 'rb']), **kw)
    elif how == 'kwmode':
        f = sim.T(PATH, mode='rb', **kw)
    else:
        g = open(PATH, 'rb', buffering=ch.pick([-1, 0]))
        start = ch.below(len(sim.content) + 1)
        g.seek(start)
        f = sim.T.makeThreadAware(g)
        if sim.T.makeThreadAware(f) is not f:
            raise Violation('wrong-result', 'makeThreadAware(ThreadAwareFile) is not itself')
        if not sim.default_timeout:
            f.timeout = sim.timeout
        if t is not None:
            v = sim.view(t)
            v.state, v.pos = 'open', start
        sim.keep = g
    if t is not None and how != 'makeThreadAware':
        v = sim.view(t)
        v.state, v.pos = 'open', 0
    if t is not None:
        for h in sim.fs.handles:
            sim.owner.setdefault(h.serial, t)
            sim.view(t).raw = h
    sim.world.mark(how, t and t.name)
    sim.how = how
    return f


def read_op(sim, t, f, ch, k=None):
    """One random operation on the thread's own stream."""
    d = sim.content
    v = sim.view(t)
    k = ch.weighted([(6, 'read'), (4, 'seek'), (4, 'tell'), (2, 'readline'), (1, 'readlines'),
                     (2, 'next'), (2, 'readinto'), (1, 'readall'), (2, 'attr'), (2, 'seekcur'),
                     (1, 'seekend'), (2, 'iter')]) if k is None else k
    sim.world.mark(t.name, k)
    if k == 'read':
        n = ch.pick([1, 4, 0, 16, 300, -1, None])

        def expect(p):
            e = v.data[p:] if n is None or n < 0 else v.data[p:p + n]
            return e, p + len(e)
        return sim.reader(t, f, 'read(%r)' % n, lambda: f.read(n) if n is not None else f.read(),
                          expect)
    if k == 'readall':
        return sim.reader(t, f, 'readall', lambda: f.readall(), lambda p: (v.data[p:], max(p, len(v.data))))
    if k == 'readinto':
        n = ch.pick([1, 8, 64])

        def call():
            b = bytearray(n)
            c = f.readinto(b)
            return bytes(b[:c])
        return sim.reader(t, f, 'readinto(%d)' % n, call,
                          lambda p: (v.data[p:p + n], p + len(v.data[p:p + n])))
    if k == 'readline':
        def expect(p):
            e = v.lines_from(p)
            return e, p + len(e)
        return sim.reader(t, f, 'readline', lambda: f.readline(), expect)
    if k == 'readlines':
        return sim.reader(t, f, 'readlines', lambda: f.readlines(),
                          lambda p: (split_nl(v.data[p:]), max(p, len(v.data))))
    if k == 'next':
        def expect(p):
            e = v.lines_from(p)
            return (e if e else object()), p + len(e)
        return sim.reader(t, f, 'next', lambda: next(f), expect)
    if k == 'iter':
        n = ch.pick([1, 2, 5, 100000])

        def expect(p):
            e = split_nl(v.data[p:])[:n]
            return e, p + len(b''.join(e))

        def call():
            out = []
            for line in f:
                out.append(line)
                if len(out) == n:
                    break
            return out
        return sim.reader(t, f, 'for (%d)' % n, call, expect)
    if k == 'seek':
        x = ch.pick([0, len(d), 1, None])
        if x is None:
            x = ch.below(len(d) + 20)
        return sim.reader(t, f, 'seek(%d)' % x, lambda: f.seek(x), lambda p: (x, x),
                          moves=lambda r: x)
    if k == 'seekcur':
        x = ch.below(8)
        return sim.reader(t, f, 'seek(%d,1)' % x, lambda: f.seek(x, 1), lambda p: (p + x, p + x),
                          moves=lambda r: r)
    if k == 'seekend':
        x = ch.below(min(len(d), len(sim.other)) + 1)
        return sim.reader(t, f, 'seek(-%d,2)' % x, lambda: f.seek(-x, 2),
                          lambda p: (len(v.data) - x, len(v.data) - x),
                          moves=lambda r: len(v.data) - x)
    if k == 'tell':
        return sim.reader(t, f, 'tell', lambda: f.tell(), lambda p: (p, p), moves=lambda r: r)
    # attributes
    name, want = ch.pick([('readable', True), ('seekable', True), ('isatty', False),
                          ('name', PATH), ('mode', 'rb'), ('flush', None)])

    def call():
        x = getattr(f, name)
        return x() if callable(x) else x
    return sim.reader(t, f, name, call, lambda p: (want, p), keeps=True)


def move_file(sim, ch):
    """Somebody renames, removes, replaces or restores the file."""
    fs, w = sim.fs, sim.world
    sim.moved += 1
    k = ch.pick(['remove', 'replace', 'restore'])
    w.fired('file %sd' % k)
    w.mark('file', k)
    w.log('file', k)
    if k == 'remove':
        fs.files.pop(PATH, None)
    elif k == 'replace':
        fs.put(PATH, sim.other)
    else:
        fs.files[PATH] = sim.node


def split_nl(b):
    out = []
    while b:
        i = b.find(b'\n')
        if i < 0:
            out.append(b)
            break
        out.append(b[:i + 1])
        b = b[i + 1:]
    return out


def close_op(sim, t, f):
    v = sim.view(t)
    name = 'close'

    def check(result, exc, _o):
        if exc is not None:
            raise Violation('unexpected-error', '%s: close() raised %r' % (t.name, exc))
        if result is not None:
            raise Violation('wrong-result', 'close() returned %r' % (result,))
        if v.raw is not None and not v.raw.closed:
            raise Violation('not-closed', '%s: stream still open after close()' % t.name)
        v.state, v.pos = 'closed', 0
        v.forgotten = True
    st, _ = sim.op(t, name, f.close, check)
    if st == 'injected':
        v.state = 'unsure'
    return st


def closeall_op(sim, t, f):
    def check(result, exc, opened):
        if exc is not None:
            raise Violation('unexpected-error', '%s: closeAll() raised %r' % (t.name, exc))
        left = []
        for h in opened:
            if not h.closed:
                o = sim.owner.get(h.serial)
                if o is not None and o.state == 'done':
                    sim.owed.append(h)       # somebody may be discarding it just now
                else:
                    left.append(h.serial)
        if left:
            raise Violation('not-closed', '%s: closeAll() left open files %r of %r' % (
                t.name, left, [h.serial for h in opened]))
        sim.world.probe('closeAll of %s' % ('several' if len(opened) > 1 else len(opened)))
    sim.op(t, 'closeAll', f.closeAll, check)


def cleanup_op(sim, t, f):
    closed = [(v, v.raw) for v in sim.views.values() if v.raw is not None and v.raw.closed]

    def check(result, exc, _o):
        if exc is not None:
            raise Violation('unexpected-error', '%s: cleanup() raised %r' % (t.name, exc))
        for v, raw in closed:
            if v.raw is raw:
                v.forgotten = True
                sim.world.probe('cleanup of a closed stream')
    sim.op(t, 'cleanup', f.cleanup, check)


def quiet_open(sim, path, mode):
    """An open by somebody outside the test: no faults, no preemption."""
    w = sim.world
    plans, w.plans = w.plans, {}
    masked, sim.sched.masked = sim.sched.masked, True
    try:
        return open(path, mode)
    finally:
        w.plans = plans
        sim.sched.masked = masked


def write_op(sim, t, f, c):
    """Anything that would modify the file must be refused."""
    k = c.pick(['write', 'writelines', 'truncate', 'truncate0', 'writable', 'open', 'aware'])
    call = {'write': lambda: f.write(b'zzz'), 'writelines': lambda: f.writelines([b'z', b'y']),
            'truncate': lambda: f.truncate(), 'truncate0': lambda: f.truncate(0),
            'writable': lambda: f.writable()}.get(k)
    mode = c.pick(['w', 'wb', 'a', 'ab', 'x', 'xb', 'r+', 'rb+', 'r+b', 'w+', 'a+b', 'x+'])
    target = c.pick([PATH, '/sim/d/new.bin'])
    if k == 'open':
        how = c.below(3)
        if how == 0:
            def call():
                return sim.T(target, mode)
        elif how == 1:
            def call():
                return sim.T(target, mode=mode)
        else:
            def call():
                return sim.T(target, timeout=5, mode=mode)
    if k == 'aware':
        before = len(sim.fs.handles)
        g = sim.extra = quiet_open(sim, PATH, c.pick(['rb+', 'ab', 'r+b']))
        sim.not_ours.extend(sim.fs.handles[before:])

        def call():
            return sim.T.makeThreadAware(g)

    def check(result, exc, _o):
        if k == 'writable':
            if exc is not None or result is not False:
                raise Violation('writable', 'writable() gave %r %r' % (result, exc))
            return
        if not isinstance(exc, OSError):
            raise Violation('not-refused', '%s %s %s: gave %r' % (k, mode, target, exc or result))
        sim.world.probe('write refused')
    sim.op(t, 'write-attempt', call, check)
    if k == 'aware' and sim.extra.closed:
        raise Violation('closed-by-other', 'makeThreadAware closed a stream it refused')
    check_unmodified(sim)


def check_unmodified(sim):
    if bytes(sim.node.data) != sim.content or sim.node.version or \
            sim.fs.files.get(PATH) is not sim.node:
        raise Violation('file-modified', 'file content changed')
    if len(sim.fs.files) != 1:
        raise Violation('file-modified', 'files created: %r' % sorted(sim.fs.files))


def closed_op(sim, t, f):
    v = sim.view(t)

    def check(result, exc, _o):
        if exc is not None:
            raise Violation('unexpected-error', '%s: closed raised %r' % (t.name, exc))
        want = {'none': True, 'open': False, 'closed': True}.get(v.state)
        if want is not None and result is not want:
            raise Violation('wrong-result', '%s: closed is %r in state %s' % (
                t.name, result, v.state))
    sim.op(t, 'closed', lambda: f.closed, check)


def with_op(sim, t, f, ch=None):
    """A with-block on the shared file closes this thread's stream only."""
    v = sim.view(t)
    if v.state in ('closed', 'unsure') or (v.state == 'open' and v.pos is None):
        return

    def call():
        with f as g:
            p = g.tell()
            return p, g.read(5)

    def check(result, exc, _o):
        if exc is not None:
            if isinstance(exc, ValueError) and v.state == 'unsure':
                return
            raise Violation('unexpected-error', '%s: with raised %r' % (t.name, exc))
        p = v.pos if v.state == 'open' else 0
        want = (p, v.data[p:p + 5])
        if v.state != 'unsure' and result != want:
            sim.fail(t, 'with', v, result, want)
        if v.raw is not None and not v.raw.closed:
            raise Violation('not-closed', '%s: stream still open after with-block' % t.name)
        v.state, v.pos = 'closed', 0
    st, _ = sim.op(t, 'with', call, check)
    if st == 'injected':
        v.state = 'unsure'

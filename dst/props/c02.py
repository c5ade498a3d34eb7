"""C02: close, close-all, cleanup and blocking discipline; read-only."""
from .. import simthreads
simthreads.install()

from .. import tafsim                                      # noqa: E402
from ..choices import Fixed, program                       # noqa: E402
from ..observe import lib                                  # noqa: E402
from ..world import Violation                              # noqa: E402

RUNS = {'quick': 9000, 'thorough': 300000}
RULE = ('each run: 2-6 simulated threads with generated programs of close / closeAll / cleanup / '
        'with / read / write-attempt operations on one ThreadAwareFile, interleaved at line or '
        'bytecode granularity, with stalls of up to 200 simulated seconds, failing closes and '
        'interruptions; the handle table of the simulated file system and the simulated time each '
        'operation was blocked are checked; non-trivial = at least one preemption or fault; '
        'distinct by the sequence of switches, faults and operations')
REAL = ['ebmlite.threaded_file', 'io.IOBase']
STUB = ['files (simulated FileIO)', 'threading.Event/Lock', 'thread identifiers', 'clock',
        'scheduler']
ASSUMPTIONS = ['a stream whose opening call has not returned yet is not open when closeAll begins']
PROBES = ('thread ident reused', 'injected error surfaced', 'blocked by housekeeping',
          'blocked for the whole timeout', 'closeAll of several', 'cleanup of a closed stream',
          'write refused', 'recovered after housekeeping')


def setup():
    lib()


def run(world):
    ch = world.ch
    n = ch.pick([2, 3, 4, 6])
    sim = tafsim.Sim(world, close_all=True)
    s = sim.sched
    progs = [program(ch, 12, 6) for _ in range(n)]
    world.case = '%d threads, programs of %s operations, timeout %r' % (
        n, [len(p) for p in progs], sim.timeout)
    box = []

    def body(i):
        t = s.me()
        if not box:
            box.append(tafsim.create(sim, t))
        f = box[0]
        for vals in progs[i]:
            c = Fixed(vals)
            k = c.weighted([(10, 'read'), (4, 'close'), (4, 'closeAll'), (4, 'cleanup'),
                            (3, 'closed'), (2, 'with'), (2, 'write'), (3, 'start')])
            world.mark(t.name, k)
            if k == 'read':
                tafsim.read_op(sim, t, f, c)
            elif k == 'close':
                tafsim.close_op(sim, t, f)
            elif k == 'closeAll':
                tafsim.closeall_op(sim, t, f)
            elif k == 'cleanup':
                tafsim.cleanup_op(sim, t, f)
            elif k == 'closed':
                tafsim.closed_op(sim, t, f)
            elif k == 'with':
                sim.sync(sim.view(t))
                tafsim.with_op(sim, t, f)
            elif k == 'write':
                tafsim.write_op(sim, t, f, c)
            elif len(sim.pending) > 1:
                sim.start_pending()

    def last():
        """When all is over, the file works as if nothing had happened."""
        t = s.me()
        world.unplan()
        if not box:
            return
        f = box[0]
        tafsim.cleanup_op(sim, t, f)
        for k in ('tell', 'read', 'seek', 'readline'):
            tafsim.read_op(sim, t, f, Fixed([5] * 6), k)
        tafsim.closeall_op(sim, t, f)
        left = [h.serial for h in sim.fs.handles if not h.closed and h not in sim.not_ours]
        if left:
            raise Violation('not-closed', 'closeAll() at the end left %r open' % left)
        world.probe('recovered after housekeeping')

    sim.not_ours = []
    sim.owed = []
    for i in range(n):
        s.spawn('T%d' % i, (lambda i=i: body(i)))
    s.spawn('last', last)
    if ch.chance(1, 3):
        box.append(tafsim.make_taf(sim))
    first = ch.between(1, n)
    sim.pending = s.threads[first:]
    if ch.chance(2, 3):
        world.plan('stall', 12)
    if ch.chance(1, 3):
        world.plan('open_error', 6)
        world.plan('fclose_error', 6)
        world.plan('fread_error', 25)
    if ch.chance(1, 3):
        world.plan('interrupt', 10)
    for t in s.threads[:first]:
        s.start(t)
    s.run()
    if sim.pending:
        raise Violation('harness', 'pending threads never started')
    left = [h.serial for h in sim.owed if not h.closed]
    if left:
        raise Violation('not-closed', 'files %r survived a closeAll()' % left)
    tafsim.check_unmodified(sim)

"""C01: each thread sees a private file position and data."""
from .. import simthreads
simthreads.install()

from .. import tafsim                                      # noqa: E402
from ..choices import Fixed, program                       # noqa: E402
from ..observe import lib                                  # noqa: E402
from ..world import Violation                              # noqa: E402

RUNS = {'quick': 9000, 'thorough': 300000}
RULE = ('each run: 2-6 simulated threads with generated programs of read/seek/tell/line/close '
        'operations on one ThreadAwareFile, thread starts (with reused identifiers) and ends, '
        'interleaved at line or bytecode granularity by seeded choices, with stalls and failing '
        'opens/reads, and the file being removed, replaced and restored; every result is compared with a private-file model; non-trivial = at least '
        'one preemption or fault; distinct by the sequence of switches, faults and operations')
REAL = ['ebmlite.threaded_file', 'io.IOBase line handling', 'threading.current_thread']
STUB = ['files (simulated FileIO)', 'threading.Event/Lock', 'thread identifiers', 'clock',
        'scheduler']
ASSUMPTIONS = ['a file read through its own descriptor never shares a position with another']
PROBES = ('thread ident reused', 'injected error surfaced', 'file not there')


def setup():
    lib()


def run(world):
    ch = world.ch
    n = ch.pick([2, 3, 4, 6])
    sim = tafsim.Sim(world)
    s = sim.sched
    progs = [program(ch, 14, 7) for _ in range(n)]
    world.case = '%d threads, programs of %s operations, %d bytes' % (
        n, [len(p) for p in progs], len(sim.content))
    box = []
    moves = 4 if ch.chance(1, 4) else 0

    def body(i):
        t = s.me()
        if not box:
            box.append(tafsim.create(sim, t))
        f = box[0]
        for vals in progs[i]:
            c = Fixed(vals)
            k = c.weighted([(40, 'read'), (2, 'close'), (3, 'closed'), (1, 'with'),
                            (3, 'start'), (moves, 'move')])
            if k == 'read':
                tafsim.read_op(sim, t, f, c)
            elif k == 'close':
                world.mark(t.name, 'close')
                tafsim.close_op(sim, t, f)
            elif k == 'closed':
                tafsim.closed_op(sim, t, f)
            elif k == 'with':
                tafsim.with_op(sim, t, f)
            elif k == 'move':
                tafsim.move_file(sim, c)
            else:
                sim.start_pending()

    for i in range(n):
        s.spawn('T%d' % i, (lambda i=i: body(i)))
    if ch.chance(1, 3):
        box.append(tafsim.make_taf(sim))
    first = ch.between(1, n)
    sim.pending = s.threads[first:]
    if ch.chance(1, 2):
        world.plan('stall', 30)
    if ch.chance(1, 3):
        world.plan('open_error', 6)
        world.plan('fread_error', 25)
    for t in s.threads[:first]:
        s.start(t)
    s.run()
    while sim.pending:
        raise Violation('harness', 'pending threads never started')
    if bytes(sim.node.data) != sim.content or sim.node.version or sum(
            n.version for n in sim.fs.files.values()):
        raise Violation('file-modified', 'file content changed')

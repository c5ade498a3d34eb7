"""Threads, locks and clocks under simulator control.

Real OS threads carry the simulated threads, but exactly one holds the baton
at any moment and only choices decide who gets it next:

 * preemption points: every line (in some runs every bytecode) executed in
   /repo/ebmlite by a simulated thread, every operation on an unbuffered
   simulated file, and every operation on a synchronisation object;
 * threading.Event/Lock/RLock/Condition/Semaphore/Barrier-free subset and
   threading.get_ident are replaced before the library is imported, so a
   blocked thread is known to be blocked, timeouts run on the simulated
   clock, and thread identifiers are handed out (and reused) by choice;
 * time.* read the simulated clock while a simulation is active.
"""
import _thread
import sys
import threading
import time

from . import runner
from .world import Interrupt, SimCrash, StepBudget, Violation

REAL = {n: getattr(threading, n) for n in
        ('Event', 'Lock', 'RLock', 'Condition', 'Semaphore', 'BoundedSemaphore', 'get_ident')}
REAL_TIME = {n: getattr(time, n) for n in
             ('time', 'monotonic', 'perf_counter', 'sleep', 'time_ns', 'monotonic_ns')}
MAIN_IDENT = 1000
WILD = 'wild'             # gaps of every order of magnitude

_current = None          # the active Scheduler, if any


class Cancelled(BaseException):
    """The run is over: unwind this simulated thread."""


class SimThread(threading.Thread):
    def __init__(self, sched, name, fn):
        threading.Thread.__init__(self, name=name)
        self.sched = sched
        self.fn = fn
        self.gate = _thread.allocate_lock()
        self.gate.acquire()
        self.state = 'new'              # new, ready, blocked, done
        self.blocked_on = None
        self.deadline = None
        self.timed_out = False
        self.sim_ident = None
        self.handle = None
        self.real_ident = None
        self.sentinel = None
        self.error = None
        self.in_lib = 0
        self.op = None                  # description of the current operation
        self.op_start = 0
        self.own_delay = 0              # simulated time its own I/O took
        self.daemon = True

    def is_alive(self):
        return self.state in ('ready', 'blocked')

    def __repr__(self):
        return 'SimThread(%s)' % self.name


class Handle(threading.Thread):
    """What threading.current_thread() returns in a simulated thread.  Once
    the thread has ended, nothing may refer to it any more."""
    def __init__(self, t):
        threading.Thread.__init__(self, name=t.sched.shared_name or t.name, daemon=True)
        self.sim = t
        self._ident = t.sim_ident
        self._native_id = t.sim_ident
        self._started._flag = True

    def is_alive(self):
        return self.sim.is_alive()

    def __repr__(self):
        return 'Handle(%s)' % self.name


class Scheduler:
    MAX_SWITCHES = 40000

    def __init__(self, world, mean_gap=None, opcodes=False, stall=0):
        self.world = world
        self.threads = []
        self.current = None
        self.control = _thread.allocate_lock()
        self.control.acquire()
        self.by_real = {}
        self.free_idents = []
        self.next_ident = 2000
        self.mean_gap = mean_gap
        self.gap = 0
        self.opcodes = opcodes
        self.switches = 0
        self.steps = 0
        self.step_limit = 3000000
        self.violation = None
        self.cancelled = False
        self.reuse_idents = True
        # thread names need not be unique
        self.shared_name = 'worker' if world.ch.chance(1, 4) else None
        self.on_step = None              # invariant called at every decision
        self.masked = False
        self.interrupts = False          # deliver 'interrupt at a call' faults

    # -- lifecycle -------------------------------------------------------------
    def spawn(self, name, fn):
        t = SimThread(self, name, fn)
        self.threads.append(t)
        return t

    def start(self, t):
        """Make a new thread runnable.  Its identifier may be one that a
        finished thread had, as operating systems do."""
        ch = self.world.ch
        if self.free_idents and self.reuse_idents and ch.below(4) != 3:
            t.sim_ident = self.free_idents.pop(ch.below(len(self.free_idents)))
            self.world.probe('thread ident reused')
            self.world.log('thread', t.name, 'starts with reused ident', t.sim_ident)
        else:
            t.sim_ident = self.next_ident
            self.next_ident += 1
            self.world.log('thread', t.name, 'starts with ident', t.sim_ident)
        t._ident = t.sim_ident
        t._started._flag = True
        threading._active[t.sim_ident] = t.handle = Handle(t)
        ready = _thread.allocate_lock()
        ready.acquire()

        def body():
            t.real_ident = _thread.get_ident()
            self.by_real[t.real_ident] = t
            t.sentinel = _thread._set_sentinel()
            t.sentinel.acquire()
            ready.release()
            t.gate.acquire()
            try:
                if not self.cancelled:
                    sys.settrace(self._trace)
                    try:
                        t.fn()
                    finally:
                        sys.settrace(None)
            except Cancelled:
                pass
            except BaseException as e:
                t.error = e
                self._fail(e)
                e = None
            self._finish(t)

        _thread.start_new_thread(body, ())
        ready.acquire()
        t.state = 'ready'

    def _finish(self, t):
        """Called in the thread as its very last act; control passes to the
        controller, which waits for the OS thread to be really gone."""
        t.state = 'done'
        t.fn = None
        self.current = None
        self.finished = t
        self.control.release()

    def run(self):
        """Controller: hands out the baton until every thread is done."""
        global _current
        _current = self
        for n, f in (('time', self.now_s), ('monotonic', self.now_s),
                     ('perf_counter', self.now_s), ('sleep', self.sleep)):
            setattr(time, n, f)
        try:
            while True:
                if self.cancelled:
                    live = [t for t in self.threads if t.state in ('ready', 'blocked')]
                    if not live:
                        break
                    nxt = live[0]
                else:
                    nxt = self._choose(None)
                    if nxt is None:
                        live = [t for t in self.threads if t.state == 'blocked']
                        if live:
                            self._fail(Violation('deadlock', 'all threads blocked: ' + ', '.join(
                                '%s in %s on %r' % (t.name, t.op, t.blocked_on) for t in live)))
                            continue
                        break
                self.current = nxt
                nxt.gate.release()
                self.control.acquire()
                t = self.finished
                self.finished = None
                if t is not None:
                    # wait for the OS thread to be gone, with its thread-locals
                    t.sentinel.acquire()
                    t.sentinel.release()
                    self.by_real.pop(t.real_ident, None)
                    if threading._active.get(t.sim_ident) is t.handle:
                        del threading._active[t.sim_ident]
                    if self.world.ch.chance(1, 2):
                        t.handle = None         # the last reference to it
                    self.free_idents.append(t.sim_ident)
                    self.world.log('thread', t.name, 'ended')
                    self._on_exit(t)
        finally:
            for n, f in REAL_TIME.items():
                setattr(time, n, f)
            _current = None
        if self.violation is not None:
            raise self.violation
        for t in self.threads:
            if t.error is not None:
                raise t.error

    finished = None
    exit_hooks = ()

    def _on_exit(self, t):
        for h in self.exit_hooks:
            h(t)

    def _fail(self, exc):
        if self.violation is None:
            self.violation = exc
        self.cancelled = True

    # -- choosing ----------------------------------------------------------------
    def _runnable(self):
        return [t for t in self.threads if t.state == 'ready']

    def _wake_due(self):
        for t in self.threads:
            if t.state == 'blocked' and t.deadline is not None and t.deadline <= self.world.now:
                t.state = 'ready'
                t.timed_out = True

    def _choose(self, cur):
        """The next thread to run, or None.  Advances the clock when every
        thread is waiting."""
        self._wake_due()
        ready = self._runnable()
        if not ready:
            deadlines = [t.deadline for t in self.threads
                         if t.state == 'blocked' and t.deadline is not None]
            if not deadlines:
                return None
            self.world.now = min(deadlines)
            self.world.log('clock', self.world.now)
            self._wake_due()
            ready = self._runnable()
        if len(ready) == 1:
            return ready[0]
        # simplest choice (0): stay with the current thread
        if cur is not None and cur in ready:
            ready.remove(cur)
            ready.insert(0, cur)
        return ready[self.world.ch.below(len(ready))]

    def _draw_gap(self):
        m = self.mean_gap
        if not m:
            return 1 << 60
        if m == WILD:
            return 1 + self.world.ch.below(1 << self.world.ch.below(11))
        v = self.world.ch.below(2 * m + 1)
        return v if v else 8 * m + 1

    def me(self):
        return self.by_real.get(_thread.get_ident())

    def preempt(self, why=''):
        """A point where the running thread may lose the baton."""
        t = self.me()
        if t is None or t is not self.current or self.masked:
            return
        if self.cancelled:
            raise Cancelled()
        self.steps += 1
        if self.steps > self.step_limit:
            self._fail(Violation('livelock', 'too many steps'))
            raise Cancelled()
        self.gap -= 1
        if self.gap > 0:
            return
        self.gap = self._draw_gap()
        self._switch(t, why)

    def _switch(self, t, why):
        nxt = self._choose(t)
        if nxt is t or nxt is None:
            return
        self.switches += 1
        self.world.nontrivial += 1
        self.world.mark(t.name, why, nxt.name)
        self.world.log('switch', t.name, why, '->', nxt.name)
        if self.switches > self.MAX_SWITCHES:
            self._fail(Violation('livelock', 'too many switches'))
            raise Cancelled()
        self.current = nxt
        nxt.gate.release()
        t.gate.acquire()
        if self.cancelled:
            raise Cancelled()

    def block(self, on, timeout=None):
        """Block the running thread until unblocked or timeout; True if it
        was woken, False on timeout."""
        t = self.me()
        if self.cancelled:
            raise Cancelled()
        t.state = 'blocked'
        t.blocked_on = on
        t.timed_out = False
        t.deadline = None if timeout is None else self.world.now + int(max(0, timeout) * 1e6)
        self.world.log('block', t.name, type(on).__name__, timeout)
        nxt = self._choose(None)
        if nxt is None:
            self._fail(Violation('deadlock', 'all threads blocked: ' + ', '.join(
                '%s in %s on %r' % (x.name, x.op, x.blocked_on) for x in self.threads
                if x.state == 'blocked')))
            self.current = None
            self.control.release()
            t.gate.acquire()
        elif nxt is not t:
            self.world.mark(t.name, 'block', nxt.name)
            self.current = nxt
            nxt.gate.release()
            t.gate.acquire()
        t.blocked_on = None
        t.deadline = None
        if self.cancelled:
            t.state = 'ready'
            raise Cancelled()
        return not t.timed_out

    def wake(self, t):
        if t.state == 'blocked':
            t.state = 'ready'
            t.timed_out = False

    def delay(self, us):
        """The running thread is held up for us microseconds of simulated time."""
        t = self.me()
        if t is None:
            self.world.now += us
            return
        t.own_delay += us
        self.block('delay', us / 1e6)

    def sleep(self, s):
        t = self.me()
        if t is not None:
            self.delay(int(s * 1e6))
        else:
            self.world.now += int(s * 1e6)

    def rearm(self):
        """After an interrupt, which ends tracing of its thread."""
        sys.settrace(self._trace)

    def now_s(self):
        return self.world.now / 1e6

    # -- tracing -----------------------------------------------------------------
    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(runner.LIB):
            return None
        if self.interrupts and not self.masked and self.world.due('interrupt at a call') \
                and sys.exc_info()[0] is not GeneratorExit:
            # (where the interpreter would notice a signal: entering a function)
            self.world.fired('interrupt at a call')
            raise Interrupt('injected entering %s' % frame.f_code.co_name)
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self._local

    def _local(self, frame, event, arg):
        if event == 'line':
            self.preempt(frame.f_lineno if self.gap <= 1 else '')
        elif event == 'opcode':
            self.preempt('op')
        return self._local


# ---------------------------------------------------------------------------
# Synchronisation objects
# ---------------------------------------------------------------------------

def _sched():
    s = _current
    if s is not None and s.me() is not None:
        return s
    return None


class SimEvent:
    def __init__(self):
        self._flag = False
        self._waiters = []

    def is_set(self):
        return self._flag
    isSet = is_set

    def set(self):
        s = _sched()
        if s:
            s.preempt('event.set')
        self._flag = True
        w, self._waiters = self._waiters, []
        if s:
            for t in w:
                s.wake(t)
            s.preempt('event.set.')

    def clear(self):
        s = _sched()
        if s:
            s.preempt('event.clear')
        self._flag = False

    def wait(self, timeout=None):
        s = _sched()
        if s:
            s.preempt('event.wait')
        if self._flag:
            return True
        if s is None:
            if timeout is None:
                raise Violation('deadlock', 'Event.wait() with nobody to set it')
            return False
        me = s.me()
        self._waiters.append(me)
        s.world.probe('blocked on event')
        ok = s.block(self, timeout)
        if me in self._waiters:
            self._waiters.remove(me)
        return self._flag or ok

    def _at_fork_reinit(self):
        self._flag = False


class SimLock:
    reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0
        self._waiters = []

    def acquire(self, blocking=True, timeout=-1):
        s = _sched()
        if s is None:
            me = 'outside'
        else:
            s.preempt('lock')
            me = s.me()
        if self._owner is None or (self.reentrant and self._owner == me):
            self._owner = me
            self._count += 1
            return True
        if not blocking:
            return False
        if s is None:
            raise Violation('deadlock', 'lock held at the end of the simulation')
        limit = None if timeout is None or timeout < 0 else timeout
        end = None if limit is None else s.world.now + int(limit * 1e6)
        s.world.probe('blocked on lock')
        while self._owner is not None:
            left = None if end is None else (end - s.world.now) / 1e6
            if left is not None and left <= 0:
                return False
            self._waiters.append(me)
            ok = s.block(self, left)
            if me in self._waiters:
                self._waiters.remove(me)
            if not ok and self._owner is not None:
                return False
        self._owner = me
        self._count = 1
        return True

    def release(self):
        s = _sched()
        me = s.me() if s else 'outside'
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        if self.reentrant and self._owner != me:
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if self._count:
            return
        self._owner = None
        if s:
            w, self._waiters = self._waiters, []
            for t in w:
                s.wake(t)
            s.preempt('unlock')

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        s = _sched()
        return self._owner == (s.me() if s else 'outside')

    def _at_fork_reinit(self):
        self._owner = None
        self._count = 0


class SimRLock(SimLock):
    reentrant = True

    def _release_save(self):
        c, self._count = self._count, 1
        self.release()
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self._count = c


class SimCondition:
    def __init__(self, lock=None):
        self._lock = lock if lock is not None else SimRLock()
        self.acquire = self._lock.acquire
        self.release = self._lock.release
        self._cw = []

    def __enter__(self):
        self._lock.acquire()
        return self

    def __exit__(self, *a):
        self._lock.release()

    def wait(self, timeout=None):
        s = _sched()
        if s is None:
            if timeout is None:
                raise Violation('deadlock', 'Condition.wait() with nobody to notify it')
            return False
        me = s.me()
        self._cw.append(me)
        saved = self._lock._count
        self._lock._count = 1
        self._lock.release()
        # nothing can notify between release and block unless it ran meanwhile
        ok = True
        if me in self._cw:
            ok = s.block(self, timeout)
        if me in self._cw:
            self._cw.remove(me)
        self._lock.acquire()
        self._lock._count = saved
        return ok

    def wait_for(self, predicate, timeout=None):
        end = None
        r = predicate()
        while not r:
            s = _sched()
            if timeout is not None and s is not None:
                if end is None:
                    end = s.world.now + int(timeout * 1e6)
                left = (end - s.world.now) / 1e6
                if left <= 0:
                    break
                self.wait(left)
            else:
                self.wait(timeout)
            r = predicate()
        return r

    def notify(self, n=1):
        s = _sched()
        for t in self._cw[:n]:
            self._cw.remove(t)
            if s:
                s.wake(t)

    def notify_all(self):
        self.notify(len(self._cw))
    notifyAll = notify_all

    def _at_fork_reinit(self):
        pass


class SimSemaphore:
    def __init__(self, value=1):
        self._value = value
        self._cond = SimCondition()

    def acquire(self, blocking=True, timeout=None):
        with self._cond:
            if not blocking and self._value <= 0:
                return False
            if not self._cond.wait_for(lambda: self._value > 0, timeout):
                return False
            self._value -= 1
            return True
    __enter__ = acquire

    def release(self, n=1):
        with self._cond:
            self._value += n
            self._cond.notify(n)

    def __exit__(self, *a):
        self.release()


def sim_get_ident():
    s = _current
    real = _thread.get_ident()
    if s is not None:
        t = s.by_real.get(real)
        if t is not None:
            return t.sim_ident
    return real


_installed = False


def install():
    """Replace the primitives.  Must happen before the library is imported."""
    global _installed
    if _installed:
        return
    _installed = True
    assert 'ebmlite' not in sys.modules, 'library imported before the simulator'
    threading.Event = SimEvent
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading.Condition = SimCondition
    threading.Semaphore = SimSemaphore
    threading.BoundedSemaphore = SimSemaphore
    threading.get_ident = sim_get_ident


class Op:
    """Bracket of one library operation by a simulated thread."""

    def __init__(self, sched, t, desc):
        self.sched, self.t, self.desc = sched, t, desc

    def __enter__(self):
        t = self.t
        t.op = self.desc
        t.op_start = self.sched.world.now
        t.own_delay = 0
        return self

    def __exit__(self, et, ev, tb):
        self.elapsed = self.sched.world.now - self.t.op_start
        self.t.op = None
        return False


__all__ = ['Scheduler', 'SimThread', 'install', 'Cancelled', 'Op', 'SimCrash', 'StepBudget']

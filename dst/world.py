"""Event log, simulated clock, fault planner, counters: one World per run."""
import errno
import hashlib
import re

from .choices import Choices


ADDRESS = re.compile(' at 0x[0-9a-f]+')


class Violation(Exception):
    """The property does not hold: kind is a stable short name."""

    def __init__(self, kind, msg=''):
        Exception.__init__(self, kind, msg)
        self.kind = kind
        self.msg = msg


class Known(Exception):
    """The run hit a listed known finding and cannot usefully continue."""

    def __init__(self, finding):
        Exception.__init__(self, finding)
        self.finding = finding


class StepBudget(BaseException):
    """Raised inside the code under test when it exceeds its work budget.
    A BaseException so that no handler in the code under test hides it."""


class SimCrash(BaseException):
    """The simulated process dies here."""


class Interrupt(BaseException):
    """Asynchronous interruption (like KeyboardInterrupt) of a call."""


class InjectedError(OSError):
    """Marker mixin is not possible for OSError factory types; instances made
    by World.oserror carry the attribute `injected`."""


ERRNOS = [errno.EIO, errno.ETIMEDOUT, errno.ESTALE, errno.ENOMEM, errno.EINTR,
          errno.EAGAIN, errno.EACCES, errno.EPIPE, errno.ENXIO]
WRITE_ERRNOS = [errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EFBIG,
                errno.EPIPE, errno.EINTR, errno.EAGAIN]


class World:
    def __init__(self, ch: Choices, tier='quick', verbose=False):
        self.ch = ch
        self.tier = tier
        self.seq = 0
        self.now = 0                 # simulated microseconds
        self.verbose = verbose
        self.lines = []
        self.h = hashlib.blake2b(digest_size=12)
        self.faults = {}             # fault kind -> times fired
        self.probes = {}             # rare condition -> times hit
        self.shape = hashlib.blake2b(digest_size=8)   # interleaving / state signature
        self.nontrivial = 0
        self.known = {}              # finding id -> times hit
        self.plans = {}
        self.case = None
        self.plain_errors = False    # only operating-system errors

    # -- log ---------------------------------------------------------------
    def log(self, *parts):
        self.seq += 1
        s = '%d t=%d %s' % (self.seq, self.now, ' '.join(map(str, parts)))
        if ' at 0x' in s:               # addresses are not part of the run
            s = ADDRESS.sub(' at 0x...', s)
        self.h.update(s.encode('utf8', 'backslashreplace') + b'\n')
        if self.verbose:
            self.lines.append(s)

    def mark(self, *parts):
        """Contribute to the signature by which distinct runs are counted."""
        self.shape.update(ADDRESS.sub(' at 0x...', repr(parts)).encode() + b';')

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def fired(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1
        self.nontrivial += 1
        self.mark('F', kind)
        self.log('FAULT', kind)

    # -- fault planning ----------------------------------------------------
    def plan(self, kind, mean, most=10 ** 9):
        """Enable a fault class: it fires at its first point after a drawn
        number of fault points.  A drawn 0 means never."""
        self.plans[kind] = [self._gap(mean), mean, most]

    def _gap(self, mean):
        v = self.ch.below(2 * mean + 1)
        return v if v else None

    def unplan(self, *kinds):
        for k in (kinds or list(self.plans)):
            self.plans.pop(k, None)

    def due(self, kind):
        """Called at each point where a fault of this kind could occur."""
        p = self.plans.get(kind)
        if p is None or p[0] is None or p[2] <= 0:
            return False
        p[0] -= 1
        if p[0] > 0:
            return False
        p[2] -= 1
        p[0] = self._gap(p[1])
        return True

    def oserror(self, errnos=ERRNOS, what=''):
        e = self.ch.pick(errnos)
        err = OSError(e, 'injected %s' % (errno.errorcode.get(e, e)), what or None)
        err.injected = True
        return err


    def readerror(self, what=''):
        """What reading streams of various kinds raise when they fail."""
        k = 0 if self.plain_errors else self.ch.below(12)
        if k < 9:
            return self.oserror(ERRNOS, what)
        err = (EOFError('Compressed file ended before the end-of-stream marker was reached')
               if k == 9 else ValueError('I/O operation on closed file.') if k == 10
               else RuntimeError('reentrant call'))
        err.injected = True
        return err


def injected(exc):
    """Is this exception, or any it was raised from, one we injected?"""
    seen = set()
    while exc is not None and id(exc) not in seen:
        if getattr(exc, 'injected', False) or isinstance(exc, Interrupt):
            return True
        seen.add(id(exc))
        exc = exc.__cause__ or exc.__context__
    return False

"""A caller-supplied stream under simulator control.

Behaves like a buffered binary file: a read returns everything up to the
requested size or end of data, a write writes everything, or the call fails.
"""
from .world import WRITE_ERRNOS, Interrupt, SimCrash, StepBudget


class SimStream:
    """Seekable in-memory stream with fault points and work counters."""

    def __init__(self, world, data=b'', start=0, label='s', name=None):
        self.world = world
        self.data = bytearray(data)
        self.pos = start
        self.label = label
        if name is not None:
            self.name = name
        self.ops = 0
        self.bytes_read = 0
        self.op_budget = None
        self.byte_budget = None
        self.is_closed = False
        self.closes = 0
        self.writes = []                   # (pos, bytes)
        self.reads = []                    # (pos, n) when record is set
        self.record = False
        self.quiet = False
        self.hook = None                   # called before every operation

    # -- faults ------------------------------------------------------------
    def _enter(self, what, *args):
        if self.hook is not None:
            self.hook(self, what, args)
        self.ops += 1
        w = self.world
        if not self.quiet:
            w.log(self.label, what, *args)
        if self.is_closed:
            raise ValueError('I/O operation on closed file')
        if self.op_budget is not None and self.ops > self.op_budget:
            raise StepBudget('more than %d stream operations' % self.op_budget)
        if w.plans:
            if w.due(what + '_error'):
                w.fired(what + '_error')
                if what == 'read' and w.ch.chance(1, 3):
                    # the position is not always where it was after a failure
                    self.pos = min(len(self.data), self.pos + w.ch.below(9))
                if what == 'write':
                    raise w.oserror(WRITE_ERRNOS, what)
                raise w.readerror(what)
            if w.due('interrupt_io'):
                w.fired('interrupt_io')
                if what == 'read' and w.ch.chance(1, 2) and args[0] and args[0] > 0:
                    self.pos = min(len(self.data), self.pos + args[0])
                raise Interrupt('injected during ' + what)

    # -- file protocol -----------------------------------------------------
    def read(self, size=-1):
        if size is not None and not isinstance(size, int):
            raise TypeError('argument should be integer or None')
        if size is None:
            size = -1
        self._enter('read', size)
        if self.record:
            self.reads.append((self.pos, size))
        end = len(self.data) if size < 0 else self.pos + size
        out = bytes(self.data[self.pos:end])
        self.pos += len(out)
        self.bytes_read += len(out)
        if self.byte_budget is not None and self.bytes_read > self.byte_budget:
            raise StepBudget('more than %d bytes read' % self.byte_budget)
        return out

    def seek(self, pos, whence=0):
        self._enter('seek', pos, whence)
        if whence == 1:
            pos += self.pos
        elif whence == 2:
            pos += len(self.data)
        if pos < 0:
            raise ValueError('negative seek value %r' % pos)
        if pos > 0x7fffffffffffffff:
            raise OverflowError('Python int too large to convert to C long')
        self.pos = pos
        return pos

    def tell(self):
        self._enter('tell')
        return self.pos

    def write(self, data):
        if isinstance(data, str):
            raise TypeError("a bytes-like object is required, not 'str'")
        data = bytes(data)
        self._enter('write', data.hex() if len(data) < 40 else '%d bytes' % len(data))
        w = self.world
        if w.plans and w.due('partial_write'):
            w.fired('partial_write')
            k = w.ch.below(len(data) + 1) if data else 0
            self._put(data[:k])
            raise w.oserror(WRITE_ERRNOS, 'write')
        if w.plans and w.due('crash'):
            w.fired('crash')
            k = w.ch.below(len(data) + 1) if data else 0
            self._put(data[:k])
            raise SimCrash()
        self._put(data)
        return len(data)

    def _put(self, data):
        if not data:
            return
        if self.pos > len(self.data):
            self.data.extend(bytes(self.pos - len(self.data)))
        self.writes.append((self.pos, data))
        self.data[self.pos:self.pos + len(data)] = data
        self.pos += len(data)

    def flush(self):
        self._enter('flush')

    def close(self):
        self.world.log(self.label, 'close')
        self.closes += 1
        self.is_closed = True

    @property
    def closed(self):
        return self.is_closed

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def readable(self):
        return True

    def seekable(self):
        return True

    def writable(self):
        return True


class WriteOnlyStream:
    """The least a stream must support for encoding: write()."""

    def __init__(self, inner):
        self._inner = inner

    def write(self, data):
        return self._inner.write(data)

"""Asynchronous interruption of library code at a chosen line."""
import sys

from . import runner
from .world import Interrupt


class LineInterrupt:
    """with LineInterrupt(world, n): raises Interrupt in place of the n-th
    line the library executes in the block (n None: only count)."""

    def __init__(self, world, n):
        self.world = world
        self.n = n
        self.lines = 0
        self.fired = False

    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(runner.LIB):
            return None
        return self._local

    def _local(self, frame, event, arg):
        if event == 'line':
            self.lines += 1
            if self.lines >= self.n and sys.exc_info()[0] is not GeneratorExit:
                # (an abandoned generator cannot pass an exception on)
                sys.settrace(None)
                self.fired = True
                self.world.fired('interrupt at a line')
                raise Interrupt('injected at %s:%d' % (frame.f_code.co_name, frame.f_lineno))
        return self._local

    def __enter__(self):
        if self.n:
            sys.settrace(self._trace)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False

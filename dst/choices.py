"""The single source of every decision in a simulated run.

A run is a pure function of (the code under test, the sequence of integers
drawn here).  In search mode the integers come from one PRNG seeded from
VERIF_SEED; in replay mode they come from a recorded list.  0 is always the
simplest alternative, and draws past the end of a recorded list return 0, so
that deleting or lowering entries of the list (shrinking) makes runs simpler.
"""
import random


class TooManyChoices(BaseException):
    pass


class Choices:
    LIMIT = 60000

    def __init__(self, seed=None, replay=None):
        self.seed = seed
        self.rng = random.Random(seed) if replay is None else None
        self.replay = replay
        self.pos = 0
        self.log = []
        self.spans = []          # (start, end) of deletable groups

    # -- primitive ---------------------------------------------------------
    def below(self, n):
        """An integer in [0, n); 0 is the simplest."""
        if n <= 1:
            return 0
        if len(self.log) >= self.LIMIT:
            raise TooManyChoices()
        if self.rng is not None:
            v = self.rng.randrange(n)
        else:
            v = self.replay[self.pos] if self.pos < len(self.replay) else 0
            self.pos += 1
            if v >= n:
                v = n - 1
        self.log.append(v)
        return v

    # -- derived -----------------------------------------------------------
    def chance(self, num, den=100):
        """True with probability num/den (False is simplest)."""
        if num <= 0:
            return False
        return self.below(den) >= den - num

    def pick(self, seq):
        return seq[self.below(len(seq))]

    def weighted(self, pairs):
        """pairs: [(weight, item), ...]; the first item is the simplest."""
        total = sum(w for w, _ in pairs)
        v = self.below(total)
        for w, x in pairs:
            if v < w:
                return x
            v -= w
        return pairs[-1][1]

    def between(self, lo, hi):
        return lo + self.below(hi - lo + 1)

    def near(self, *values, spread=1):
        """One of the given boundary values, or one next to it."""
        v = self.pick(values)
        d = self.below(2 * spread + 1)
        d = (d + 1) // 2 * (1 if d % 2 else -1)
        return max(0, v + d)

    def skewed(self, hi):
        """An integer in [0, hi], small values much more likely."""
        k = self.below(4)
        if k == 0:
            return self.below(min(hi, 2) + 1)
        if k == 1:
            return self.below(min(hi, 8) + 1)
        if k == 2:
            return self.below(min(hi, 40) + 1)
        return self.below(hi + 1)

    def data(self, n):
        """n bytes.  One draw per run of bytes, to keep logs short."""
        kind = self.below(4)
        if n == 0:
            return b''
        if kind == 0:
            return bytes([self.below(256)]) * n
        if kind == 1:
            s = self.below(256)
            return bytes((s + i) & 255 for i in range(n))
        s = self.below(1 << 30)
        return random.Random(s).randbytes(n)

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = i - self.below(i + 1)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def repeat(self, most, mean=8):
        """Loop body runs a drawn number of times; each iteration is a span
        that can be deleted on its own when shrinking."""
        for _ in range(most):
            start = len(self.log)
            if self.below(mean + 1) == 0:
                return
            yield _
            self.spans.append((start, len(self.log)))

    def span(self):
        return _Span(self)


class _Span:
    def __init__(self, ch):
        self.ch = ch

    def __enter__(self):
        self.start = len(self.ch.log)

    def __exit__(self, *a):
        self.ch.spans.append((self.start, len(self.ch.log)))


class Fixed(Choices):
    """Choices read from a short pre-drawn list of integers: used for the
    parameters of one operation, so that programs are drawn before schedules
    and can be minimised independently of them."""

    def __init__(self, values):
        self.values = values
        self.i = 0
        self.log = []
        self.spans = []

    def below(self, n):
        if n <= 1 or self.i >= len(self.values):
            return 0
        v = self.values[self.i]
        self.i += 1
        return v % n


def program(ch, most, mean, width=6):
    """A list of operations, each a list of parameter integers."""
    out = []
    for _ in ch.repeat(most, mean):
        out.append([ch.below(1 << 16) for _ in range(width)])
    return out

"""Minimise a failing choice sequence: same violation kind, fewer/smaller choices."""
import time

from . import runner

CAP = 45


def shrink(mod, tier, res, known, cap=CAP):
    end = time.monotonic() + cap
    kind = res['kind']
    best = list(res['choices'])
    spans = res.get('spans') or []
    cache = set()

    def fails(cand):
        nonlocal best, spans
        key = tuple(cand)
        if key in cache or time.monotonic() > end:
            return False
        cache.add(key)
        r = runner.forked(mod, tier, replay=cand, known=known)
        if r['status'] == 'violation' and r['kind'] == kind:
            # what was actually consumed, without trailing zeros
            log = list(r['choices'])
            while log and log[-1] == 0:
                log.pop()
            if (len(log), log) < (len(best), best):
                best = log
                spans = r['spans']
                return True
        return False

    while best and best[-1] == 0:
        best.pop()
    progress = True
    while progress and time.monotonic() < end:
        progress = False
        # delete whole spans (operations, elements, threads), largest first
        again = True
        while again and time.monotonic() < end:
            again = False
            for a, b in sorted(spans, key=lambda s: s[0] - s[1]):
                if b <= len(best) and b > a and fails(best[:a] + best[b:]):
                    again = progress = True
                    break
        # delete chunks
        size = max(1, len(best) // 2)
        while size and time.monotonic() < end:
            i = 0
            while i < len(best):
                if fails(best[:i] + best[i + size:]):
                    progress = True
                else:
                    i += size
            size //= 2
        # zero chunks, then lower single values
        size = max(1, len(best) // 4)
        while size and time.monotonic() < end:
            for i in range(0, len(best), size):
                part = best[i:i + size]
                if any(part) and fails(best[:i] + [0] * len(part) + best[i + size:]):
                    progress = True
            size //= 2
        i = 0
        while i < len(best) and time.monotonic() < end:
            v = best[i]
            for nv in (0, 1, v // 2, v - 1):
                if 0 <= nv < v and i < len(best) and fails(best[:i] + [nv] + best[i + 1:]):
                    progress = True
                    break
            i += 1
    return best

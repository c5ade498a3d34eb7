"""Linearizability of recorded histories, by search with memoisation."""


def linearizable(ops, init, step):
    """ops: objects with .inv and .res (times; .res None = never returned).
    step(state, used, op) -> list of (state, used) the op may lead to.
    Returns None if some order explains the history, else the longest prefix
    that could be explained."""
    n = len(ops)
    seen = set()
    best = []
    stack = [(frozenset(), init, frozenset(), ())]
    while stack:
        done, state, used, path = stack.pop()
        if len(done) == n:
            return None
        if (done, state, used) in seen:
            continue
        seen.add((done, state, used))
        if len(path) > len(best):
            best = path
        left = [i for i in range(n) if i not in done]
        first = min(ops[i].res for i in left)
        for i in left:
            if ops[i].inv < first or ops[i].inv == min(ops[j].inv for j in left):
                for s2, u2 in step(state, used, ops[i]):
                    stack.append((done | {i}, s2, u2, path + (i,)))
    return [ops[i] for i in best]

"""Bounded-exhaustive enumeration of programs as trees: sequences of leaves and of containers holding sequences."""
from functools import lru_cache
def forests(leaves, containers, size, keep=None):
    """All sequences of trees of exactly `size` nodes. A leaf counts 1, a container 1 plus its contents (not empty).
    Trees are ('leaf',) strings or (container, forest)."""
    leaves, containers = tuple(leaves), tuple(containers)
    @lru_cache(None)
    def trees(n):
        out = list(leaves) if n == 1 else []
        if n > 1:
            out += [(c, f) for c in containers for f in seqs(n - 1)]
        return tuple(out)
    @lru_cache(None)
    def seqs(n):
        if n == 0: return ((),)
        return tuple((t,) + rest for k in range(1, n + 1) for t in trees(k) for rest in seqs(n - k))
    for k in range(1, size + 1):
        for t in trees(k):
            if k == size:
                if not keep or keep((t,)): yield (t,)
            else:
                for rest in seqs(size - k):
                    if not keep or keep((t,) + rest): yield (t,) + rest
def flat(f):
    for t in f:
        if isinstance(t, tuple):
            yield t[0]
            yield from flat(t[1])
        else:
            yield t
def name(f):
    return " ".join(t if isinstance(t, str) else "%s{%s}" % (t[0], name(t[1])) for t in f)

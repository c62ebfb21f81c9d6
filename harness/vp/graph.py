"""Operations on sets of labelled edges."""

from vp.client import BadOutput


def canon(edges):
    """Rename the nodes behind short leading syllables (negative numbers or
    tuples) by their neighbours, so that their encoding does not matter."""
    src, dst = {}, {}
    for a, b, l in edges:
        if isinstance(b, tuple) or b < 0:
            src.setdefault(b, set()).add(str(a))
        if isinstance(a, tuple) or a < 0:
            dst.setdefault(a, set()).add(str(b))

    def name(x):
        if isinstance(x, tuple) or x < 0:
            return ("m", tuple(sorted(src.get(x, ()))), tuple(sorted(dst.get(x, ()))))
        return x
    return {(name(a), name(b), l) for a, b, l in edges}


def succ(edges):
    s = {}
    for a, b, l in edges:
        s.setdefault(a, []).append((b, l))
    return s


def count_paths(edges, root=0):
    """Number of maximal paths from root (the empty path counts 0)."""
    s = succ(edges)
    memo, open_ = {}, set()
    todo = [root] if root in s else []
    while todo:
        n = todo[-1]
        if n in memo:
            todo.pop()
        elif n not in s:
            memo[n] = 1
        elif n in open_:
            memo[n] = sum(memo[b] for b, _ in s[n])
            open_.remove(n)
        else:
            open_.add(n)
            for b, _ in s[n]:
                if b in open_:
                    raise BadOutput("a pronunciation without end: back to %s from %s" % (b, n))
                todo.append(b)
    return memo.get(root, 0)


def paths(edges, root=0, limit=5000):
    """List of maximal paths as tuples of (label, node); None if too many."""
    if count_paths(edges, root) > limit:
        return None
    s = succ(edges)

    def go(n):
        if n not in s:
            return [()]
        return [((l, b),) + t for b, l in s[n] for t in go(b)]
    return go(root) if root in s else []


def label_paths(edges, root=0, limit=5000):
    """Paths as tuples of (label, end or None for a short leading syllable)."""
    ps = paths(edges, root, limit)
    if ps is None:
        return None
    return [tuple((l, None if isinstance(n, tuple) or n < 0 else n) for l, n in p) for p in ps]

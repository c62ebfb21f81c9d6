"""Generators for syllables, syllable strings and pronunciation graphs.
A syllable is [kind, text, end]; kinds S (5 codes), L (literal), B (blank)."""

from . import thai as T
from .gen import pick
from .client import fmt_syl

LITS = ["1", "a", "(", "ๆ", " ", "  ", "é", "中", "\"", "\\", "\n", "\t", "/", ".", "x y", "😀", "-", ",", "ab", "", "﻿",
        " ", "a\"b", "\x01", "&<>", "]", "[", "ng", "o'"]

ODD = list(range(1, 0x180)) + [0x1680, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000] * 8 + [0x85, 0xa0] * 12 + list(range(0x2000, 0x2010)) * 4 + \
    list(range(0xe00, 0xe80)) + list(range(0x180, 0xd800, 97)) + list(range(0xe000, 0x10000, 97)) + list(range(0x10000, 0x110000, 0x2fb1))


def codes(rng, small=False):
    if small:
        return pick(rng, "kg?m") + pick(rng, "__r") + pick(rng, "aAi") + pick(rng, "_ng") + pick(rng, "01")
    return pick(rng, T.INITS) + pick(rng, "____rlw") + pick(rng, T.VOWELS) + pick(rng, T.ENDS) + pick(rng, "01234")


def literal(rng):
    """Mostly short; sometimes long, so that two of a kind often differ only
    near the end."""
    r = rng.random()
    if r < .76:
        return pick(rng, LITS) or "z"
    if r < .9:
        # one or two characters of any kind
        return "".join(chr(pick(rng, ODD)) for _ in range(1 + int(rng.random() * 2)))
    return "".join([pick(rng, ["a", "中", "é", "😀"])] * (1 + int(rng.random() * (24 if r < .99 else 300)))) + pick(rng, ["", "", "b", "Z", "ก"])


def element(rng, end, small=False, p_lit=.12, p_blank=.1):
    r = rng.random()
    if r < p_lit:
        return ["L", literal(rng), end]
    if r < p_lit + p_blank:
        return ["B", "", end]
    return ["S", codes(rng, small), end]


def string(rng, maxn=6, small=False, p_lit=.12, p_blank=.1, neg=.1):
    out, pos = [], 0
    n = 1 + int(rng.random() * (maxn if rng.random() < .98 else maxn * 8))
    for i in range(n):
        pos2 = pos + 1 + int(rng.random() * 4)
        if rng.random() < neg and i < n - 1:
            out.append(["S", codes(rng, small), -(pos * 100 + pos2)])
            out.append(["S", codes(rng, small), pos2])
        else:
            out.append(element(rng, pos2, small, p_lit, p_blank))
        pos = pos2
    return out


def wire(s):
    return ",".join(fmt_syl((k, t), e) for k, t, e in s) or "~"


def graph(rng, maxn=7, small=True, p_lit=.08):
    """Random acyclic graph, every node reachable from 0."""
    large = rng.random() < .06
    n = 2 + int(rng.random() * maxn) + (int(rng.random() * 16) if large else 0)
    # some inner nodes carry negative numbers
    name = [0] + [(-(100 * i + i + 1) if rng.random() < .25 and i < n - 1 else i) for i in range(1, n)]
    edges = set()
    for j in range(1, n):
        i = int(rng.random() * j)
        if rng.random() < .5:
            i = j - 1
        edges.add((name[i], name[j], _label(rng, small, p_lit)))
    for _ in range(int(rng.random() * n * (.8 if large else 2))):
        i = int(rng.random() * (n - 1))
        j = i + 1 + int(rng.random() * min(3, n - i - 1))
        edges.add((name[i], name[j], _label(rng, small, p_lit)))
    if rng.random() < .8:
        # one common end
        tails = {a for a, _, _ in edges}
        last = name[n - 1]
        for x in name[:-1]:
            if x not in tails:
                edges.add((x, last, _label(rng, small, p_lit)))
    es = sorted(edges, key=repr)
    rng.shuffle(es)
    return [[a, b, l[0], l[1]] for a, b, l in es]


def large_graph(rng, limit=600):
    """A wide or a long graph with a moderate number of paths."""
    es, at, paths = [], 0, 1
    n = 1 + int(rng.random() * (4 if rng.random() < .5 else 150))
    for i in range(n):
        k = 1
        if rng.random() < max(.03, 2 / n):
            k = min(1 + int(rng.random() * 45), limit // paths)
            paths *= max(1, k)
        labels = set()
        while len(labels) < max(1, k):
            labels.add(_label(rng, k < 3, .08))
        es += [[at, at + 1, l[0], l[1]] for l in sorted(labels, key=repr)]
        if k > 1 and rng.random() < .5:
            # a way around by another node
            es += [[at, -(at * 100 + at + 1)] + list(_label(rng, False, .08)), [-(at * 100 + at + 1), at + 1] + list(_label(rng, False, .08))]
        at += 1
    rng.shuffle(es)
    return es


def _label(rng, small, p_lit):
    if rng.random() < p_lit:
        return ("L", literal(rng))
    if small:
        return ("S", pick(rng, ["k_a_1", "k_an0", "g_A_0", "?_i_1", "m_an0"]))
    return ("S", codes(rng))


def wire_edges(es):
    out = []
    for a, b, k, t in es:
        out += [str(a), str(b), fmt_syl((k, t), b)]
    return out

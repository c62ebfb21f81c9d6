from checks.common import *
from vp import strgen
from vp.client import parse_syl

# operator order in responses: == != < > <= >=


def six(q, q2):
    """The six answers; an operator the class has not got ('-') agrees with
    the others.  q2: answers for the arguments exchanged."""
    eq, ne, l, g, le, ge = q
    if l == "-" or eq == "-":
        raise client.Unsupported("comparison")
    no = {"0": "1", "1": "0"}
    g = q2[2] if g == "-" else g
    return tuple(c == "1" for c in (eq, no[eq] if ne == "-" else ne, l, g, no[g] if le == "-" else le, no[l] if ge == "-" else ge))


def ident(s):
    return tuple((k, t, e) for k, t, e in s)


def sound(s):
    return tuple((k, t) for k, t, e in s)


class P16(Check):
    ID = "P16"
    RULE = "set of at least three different strings (or single syllables), two of them related by prefix, sound or end only; " \
           "counted by the set"

    def gen_set(self, rng):
        small = rng.random() < .7
        base = [strgen.string(rng, 3, small, .2, .0, .15) for _ in range(2 + int(rng.random() * 3))]
        out = list(base)
        for _ in range(2 + int(rng.random() * 3)):
            s = [list(x) for x in gen.pick(rng, base)]
            r = rng.random()
            if r < .25:
                s = s[:1 + int(rng.random() * len(s))]                      # prefix
            elif r < .5:
                i = int(rng.random() * len(s))
                s[i][2] += gen.pick(rng, [-1, 1, 2])                        # other end
            elif r < .75:
                i = int(rng.random() * len(s))
                if s[i][0] == "S":
                    j = int(rng.random() * 5)
                    c = s[i][1]
                    alt = [T.INITS, T.SECS, T.VOWELS, T.ENDS, "01234"][j]
                    s[i][1] = c[:j] + gen.pick(rng, alt) + c[j + 1:]        # one component
                else:
                    t = s[i][1]
                    k = int(rng.random() * (len(t) + 1))
                    s[i][1] = gen.pick(rng, [t, t + gen.pick(rng, "a !中"), t[:-1] + "b", t[:k] + "c" + t[k:], t[:k] or "d"])
            else:
                s = s + strgen.string(rng, 1, small, .2, 0, 0)              # extension
            out.append(s)
        return {"set": out}

    def gen_syl(self, rng):
        """Single syllables that differ in one component."""
        c = strgen.codes(rng)
        out = [[["S", c, 3]], [["S", c, 4]]]
        for j, alt in enumerate([T.INITS, T.SECS, T.VOWELS, T.ENDS, "01234"]):
            out.append([["S", c[:j] + gen.pick(rng, alt) + c[j + 1:], gen.pick(rng, [3, 4])]])
        t = strgen.literal(rng)
        out.append([["L", t, gen.pick(rng, [3, 4])]])
        out.append([["L", gen.pick(rng, [strgen.literal(rng), t + "a", t[:len(t) // 2] or "y", t[:-1] + "x"]), 3]])
        return {"set": out}

    def gen_frac(self, rng):
        c = self.gen_set(rng)
        xs = c["set"] * (1 + (rng.random() < .3))
        rng.shuffle(xs)
        k = int(rng.random() * (len(xs) + 1))
        return {"set": xs, "frac": k}

    def evaluate(self, env, case):
        d = env.drv
        xs = case["set"]
        w = [strgen.wire(s) for s in xs]
        if "frac" in case:
            return self.frac(d, xs, w, case["frac"])
        r = d.ask("cmpall", *w)[1:]
        n = len(xs)
        m = [[r[i * n + j] for j in range(n)] for i in range(n)]
        lt = [[m[i][j][2] == "1" for j in range(n)] for i in range(n)]
        for i in range(n):
            for j in range(n):
                eq, ne, l, g, le, ge = six(m[i][j], m[j][i])
                a, b = xs[i], xs[j]
                pair = "%s / %s: %s" % (w[i], w[j], m[i][j])
                if eq != (sound(a) == sound(b)):
                    return "equality: " + pair, None, ""
                if ne == eq or (l and g) or le == g or ge == l:
                    return "operators disagree: " + pair, None, ""
                same = ident(a) == ident(b)
                if (l or g) == same:
                    return "not total: " + pair, None, ""
                if l != lt[i][j] or g != lt[j][i]:
                    return "asymmetric: " + pair, None, ""
                if not same and ident(a) == ident(b)[:len(a)] and not l:
                    return "prefix not first: " + pair, None, ""
                if a[0][0] == "L" and b[0][0] == "S" and not l:
                    return "literal not first: " + pair, None, ""
        for i in range(n):
            for j in range(n):
                if lt[i][j]:
                    for k in range(n):
                        if lt[j][k] and not lt[i][k]:
                            return "not transitive: %s / %s / %s" % (w[i], w[j], w[k]), None, ""
        msg = self.elements(d, xs)
        if msg:
            return msg, None, ""
        # strings compare like their first differing elements
        if len(xs) > 1 and n <= 6:
            for i in range(n - 1):
                a, b = xs[i], xs[i + 1]
                for x, y in zip(a, b):
                    if x != y:
                        q = d.ask("cmpsyl", strgen.wire([x]), strgen.wire([y]))[1]
                        if (q[2] == "1") != lt[i][i + 1]:
                            return "not lexicographic: %s / %s" % (w[i], w[i + 1]), None, ""
                        break
        rel = len({ident(s) for s in xs}) >= 3
        return None, (tuple(sorted(w)) if rel else None), "%d strings" % n

    def elements(self, d, xs):
        """The same for the elements themselves, which have operators of their own."""
        el = []
        for s in xs:
            for x in s:
                if x not in el:
                    el.append(x)
        el = el[:7]
        lt = {}
        m = {(i, j): d.ask("cmpsyl", strgen.wire([a]), strgen.wire([b]))[1] for i, a in enumerate(el) for j, b in enumerate(el)}
        for i, a in enumerate(el):
            for j, b in enumerate(el):
                q = m[i, j]
                eq, ne, l, g, le, ge = six(q, m[j, i])
                lt[i, j] = l
                pair = "%s / %s: %s" % (strgen.wire([a]), strgen.wire([b]), q)
                if eq != (sound([a]) == sound([b])):
                    return "equality: " + pair
                if ne == eq or (l and g) or le == g or ge == l:
                    return "operators disagree: " + pair
                if (l or g) == (i == j):
                    return "not total: " + pair
                if j < i and g != lt[j, i]:
                    return "asymmetric: " + pair
                if a[0] == "L" and b[0] == "S" and not l:
                    return "literal not first: " + pair
        return None

    def frac(self, d, xs, w, k):
        def check(tokens, ins, what):
            got = client.strings_of(tokens)
            snd = [tuple(l for l, _ in s) for s in got]
            if len(set(snd)) != len(snd):
                return "%s: repeated alternative in %s" % (what, tokens)
            want = {tuple((k, "".join(T.u16(t))) for k, t, e in s) for s in ins}
            if set(snd) != want:
                return "%s: holds %s instead of %s" % (what, snd, sorted(want))
            if len(tokens) > 1:
                m = d.ask("cmpall", *tokens)[1:]
                n = len(tokens)
                for i in range(n - 1):
                    if m[i * n + i + 1][2] != "1":
                        return "%s: not sorted: %s" % (what, tokens)
            return None
        r = d.ask("frac", *w)
        msg = check(r[1:], xs, "alternatives")
        if not msg:
            try:
                c = int(d.ask("altcount", *w)[1])
                if c != len(r) - 1:
                    msg = "count: %d instead of %d" % (c, len(r) - 1)
            except client.Unsupported:
                pass
        if not msg and 0 < k < len(xs):
            try:
                r2 = d.ask("fracmerge", *(w[:k] + ["/"] + w[k:]))
            except client.Unsupported:
                return msg, ("f", tuple(w), k), "alternatives"
            msg = check(r2[2:], xs, "merged alternatives")
            # two sets are equal when they list the same pronunciations
            fa, fb = (client.strings_of(d.ask("frac", *p)[1:]) for p in (w[:k], w[k:]))
            same = [[l for l, _ in s] for s in fa] == [[l for l, _ in s] for s in fb]
            if not msg and (r2[1] == "1") != same:
                msg = "set equality: %s / %s said %s" % (w[:k], w[k:], r2[1])
        return msg, ("f", tuple(w), k), "alternatives"

    def shrink(self, case):
        for s in gen.shrink_list(case["set"], lambda x: gen.shrink_list(x)):
            if s and all(s):
                yield dict(case, set=s, **({"frac": min(case["frac"], len(s))} if "frac" in case else {}))

    def phases(self, tier):
        k = 6 if tier == "thorough" else 1
        return [Phase("strings", 80000 * k, gen=self.gen_set, chunk=500, flavours=MIX),
                Phase("syllables", 80000 * k, gen=self.gen_syl, chunk=500, flavours=MIX),
                Phase("alternatives", 80000 * k, gen=self.gen_frac, chunk=500, flavours=MIX)]


CHECK = P16()

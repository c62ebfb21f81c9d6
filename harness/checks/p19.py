from checks.common import *
from vp import render, strgen


class P19(Check):
    ID = "P19"
    RULE = "string of at least two elements where the hyphen rules have something to decide (a syllable with a vowel or " \
           "ng initial that is not first); counted by the string; plus every single syllable, counted by initial"

    def evaluate(self, env, case):
        d = env.drv
        if "init" in case:
            syls = [case["init"] + s + v + e + t for s in T.SECS for v in T.VOWELS for e in T.ENDS for t in case["tones"]]
            out = [utf8(x) for x in d.ask("syl", "r", *["S%s@1" % c for c in syls])[1:]]
            for c, o in zip(syls, out):
                if o != render.roman_syl(c):
                    return "syllable: %s is written '%s' instead of '%s'" % (c, o, render.roman_syl(c)), None, ""
            return None, (case["init"], case["tones"]), "initial"
        s = case["s"]
        w = strgen.wire(s)
        for fmt, cap in (("rR", False), ("rC", True)):
            got = utf8(d.ask("str", fmt, w)[1])
            exp = render.roman_string(s, cap)
            if got != exp:
                return "string: %s is written '%s' instead of '%s'" % (w, got, exp), None, ""
        l = case.get("more", [])
        if l:
            got = utf8(d.ask("strs", "rR", *[strgen.wire(x) for x in [s] + l])[1])
            exp = "".join(render.roman_string(x) + "\n" for x in [s] + l)
            if got != exp:
                return "list: written %r instead of %r" % (got, exp), None, ""
        nt = any(x[0] == "S" and x[1][0] in "?g" for x in s[1:])
        return None, (w if nt else None), "string, %d hyphens" % render.roman_string(s).count("-")

    def gen(self, rng):
        s = strgen.string(rng, 7, False, .1, .12)
        for x in s:
            if x[0] == "S":
                if rng.random() < .5:
                    x[1] = gen.pick(rng, "?gkn?") + x[1][1:]
                if rng.random() < .4:
                    x[1] = x[1][:3] + gen.pick(rng, "_g") + x[1][4:]
        c = {"s": s}
        if rng.random() < .2:
            c["more"] = [strgen.string(rng, 3) for _ in range(1 + int(rng.random() * (2 if rng.random() < .98 else 500)))]
        return c

    def small(self, i):
        """All strings over the elements that matter for hyphens."""
        el = [["S", "?_a_0"], ["S", "g_a_0"], ["S", "k_a_0"], ["S", "k_ag0"], ["S", "?_ag0"], ["S", "g_an0"], ["L", "1"], ["L", "a"],
              ["B", ""]]
        out = []
        n = 1
        while i >= len(el) ** n:
            i -= len(el) ** n
            n += 1
        for k in range(n):
            i, r = divmod(i, len(el))
            out.append(el[r] + [k + 1])
        return {"s": out}

    def shrink(self, case):
        if "s" in case:
            if "more" in case:
                yield {"s": case["s"]}
                for l in gen.shrink_list(case["more"]):
                    yield dict(case, more=l)
            for s in gen.shrink_list(case["s"]):
                if s:
                    yield dict(case, s=s)

    def phases(self, tier):
        big = tier == "thorough"
        n, at = product(T.INITS, list("01234"))
        m = 5 if big else 4
        return [Phase("every syllable", n, enum=lambda i: dict(zip(("init", "tones"), at(i))), chunk=4,
                      exhaustive=True, flavours=("fast", "san")),
                Phase("all short strings", sum(9 ** k for k in range(1, m + 1)), enum=self.small, chunk=500,
                      exhaustive=True, flavours=MIX),
                Phase("strings", 6000000 if big else 1500000, gen=self.gen, chunk=1000, flavours=MIX)]


CHECK = P19()

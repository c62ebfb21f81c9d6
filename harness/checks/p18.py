from checks.common import *
from vp import respell, strgen


class P18(Check):
    ID = "P18"
    RULE = "syllable of the sound system (see the model: no dead syllable in mid tone, no short diphthong with a final); " \
           "counted by initial, cluster and end position"
    ASSUMPTIONS = ["-E-y and -OE-y share the spelling of the latter; short e, ae, o(r) and ua before a final lose their "
                   "length mark when a tone mark takes its place"]

    def prepare(self, env):
        env.tab = respell.table()

    def evaluate(self, env, case):
        d = env.drv
        if "init" in case:
            pre = case["init"] + case["sec"]
            syls = [pre + v + e + t for v in T.VOWELS for e in T.ENDS for t in "01234"]
            out = [utf8(x) for x in d.ask("syl", "t", *["S%s@%d" % (c, case["end"]) for c in syls])[1:]]
            for c, o in zip(syls, out):
                if not o:
                    return "respelling: %s is written as nothing" % c, None, ""
                if respell.exists(c) and c not in env.tab.get(o, ()):
                    return "respelling: %s is written '%s', which reads %s" % (c, o, sorted(env.tab.get(o, ()))), None, ""
            return None, repr(case), "initial"
        s = case["s"]
        w = strgen.wire(s)
        elems = []
        for x in s:
            o = utf8(d.ask("syl", "t", strgen.wire([x]))[1])
            if x[0] == "L" and o != "(" + x[1] + ")":
                return "literal: %r is written %r" % (x[1], o), None, ""
            if x[0] == "B" and o != " ":
                return "blank: is written %r" % o, None, ""
            elems.append((o, x[0] == "B"))
        from vp import render
        for dl in ("-", "|"):
            got = utf8(d.ask("str", "tD" + dl.encode().hex(), w)[1])
            exp = render.delimited(elems, dl)
            if got != exp:
                return "string: %s is written '%s' instead of '%s'" % (w, got, exp), None, ""
        if case.get("more"):
            l = [s] + case["more"]
            got = utf8(d.ask("strs", "tD2d", *[strgen.wire(x) for x in l])[1])
            exp = "".join(utf8(d.ask("str", "tD2d", strgen.wire(x))[1]) + "\n" for x in l)
            if got != exp:
                return "list: written %r instead of %r" % (got, exp), None, ""
        return None, w, "string"

    def gen(self, rng):
        c = {"s": strgen.string(rng)}
        if rng.random() < .1:
            c["more"] = [strgen.string(rng, 3) for _ in range(1 + int(rng.random() * (3 if rng.random() < .97 else 500)))]
        return c

    def shrink(self, case):
        if "s" in case:
            if "more" in case:
                yield {"s": case["s"]}
                for l in gen.shrink_list(case["more"]):
                    yield dict(case, more=l)
            for s in gen.shrink_list(case["s"]):
                if s:
                    yield dict(case, s=s)

    def phases(self, tier):
        big = tier == "thorough"
        n, at = product(T.INITS, T.SECS, [1, -102] + (list(range(2, 40)) if big else list(range(2, 14))))
        return [Phase("every syllable", n, enum=lambda i: dict(zip(("init", "sec", "end"), at(i))), chunk=8,
                      exhaustive=True, flavours=("fast", "fast", "fast", "san")),
                Phase("strings", 4000000 if big else 900000, gen=self.gen, chunk=1000, flavours=MIX)]


CHECK = P18()

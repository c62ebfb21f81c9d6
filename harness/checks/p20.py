from checks.common import *
from vp import render, strgen


class P20(Check):
    ID = "P20"
    RULE = "string of at least two elements, or all syllables of one initial; counted by the input"

    def evaluate(self, env, case):
        d = env.drv
        if "init" in case:
            syls = [case["init"] + s + v + e + t for s in T.SECS for v in T.VOWELS for e in T.ENDS for t in "01234"]
            toks = ["S%s@%d" % (c, case["end"]) for c in syls]
            for nt, f in (("p", render.phonetic_syl), ("s", render.soundex_syl)):
                out = [utf8(x) for x in d.ask("syl", nt, *toks)[1:]]
                for c, o in zip(syls, out):
                    if o != f(c):
                        return "code: %s in notation %s is '%s' instead of '%s'" % (c, nt, o, f(c)), None, ""
            return None, (case["init"], case["end"]), "initial"
        s = case["s"]
        w = strgen.wire(s)
        for nt in "ps":
            dl = case["delim"]
            elems = [(render.element(nt, *x), x[0] == "B") for x in s]
            got = client.unhx(d.ask("str", nt + "D%02x" % ord(dl), w)[1])
            exp = self.joined(elems, dl)
            if got != exp:
                return "string: %s is written %r instead of %r" % (w, got, exp), None, ""
        l = case.get("more", [])
        if l:
            for nt in "ps":
                got = client.unhx(d.ask("strs", nt + "D%02x" % ord(dl), *[strgen.wire(x) for x in [s] + l])[1])
                exp = b"".join(self.joined([(render.element(nt, *x), x[0] == "B") for x in y], dl) + b"\n"
                               for y in [s] + l)
                if got != exp:
                    return "list: written %r instead of %r" % (got, exp), None, ""
        return None, ((w, case["delim"]) if len(s) > 1 else None), "string"

    @staticmethod
    def joined(elems, dl):
        """The delimiter is one byte, whichever."""
        return render.delimited(elems, "\0").encode().replace(b"\0", dl.encode("latin-1"))

    def gen(self, rng):
        c = {"s": strgen.string(rng, 7),
             "delim": gen.pick(rng, "- ,|_.") if rng.random() < .6 else chr(int(rng.random() * (128 if rng.random() < .8 else 256)))}
        if rng.random() < .3:
            c["more"] = [strgen.string(rng, 4) for _ in range(1 + int(rng.random() * (3 if rng.random() < .98 else 500)))]
        return c

    def shrink(self, case):
        if "s" in case:
            if "more" in case:
                yield {"s": case["s"], "delim": case["delim"]}
                for l in gen.shrink_list(case["more"]):
                    yield dict(case, more=l)
            for s in gen.shrink_list(case["s"]):
                if s:
                    yield dict(case, s=s)

    def phases(self, tier):
        big = tier == "thorough"
        n, at = product(T.INITS, [1, 7, -102])
        # one-to-one: the table of expected codes itself has no collision
        codes = {}
        for c in (i + s + v + e + t for i in T.INITS for s in T.SECS for v in T.VOWELS for e in T.ENDS for t in "01234"):
            codes.setdefault(render.phonetic_syl(c), []).append(c)
        assert all(len({x[0] for x in v}) >= 1 for v in codes.values())
        return [Phase("every syllable", n, enum=lambda i: dict(zip(("init", "end"), at(i))), chunk=4, exhaustive=True,
                      flavours=("fast", "san")),
                Phase("strings", 4000000 if big else 900000, gen=self.gen, chunk=1000, flavours=MIX)]


CHECK = P20()
